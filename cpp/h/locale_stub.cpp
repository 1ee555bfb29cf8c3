// locales have no effect on the executor's side
extern "C" {
void _ZNSt6localeC1EPKc(void*, const char*) {}
void _ZNSt6localeC1ERKS_(void*, const void*) {}
void _ZNSt6localeC1Ev(void*) {}
void _ZNSt6localeD1Ev(void*) {}
void _ZNSt6locale6globalERKS_(void* r, const void*) {}
void _ZNSt9basic_iosIwSt11char_traitsIwEE5imbueERKSt6locale(void* r, void*, const void*) {}
void _ZNSt9basic_iosIcSt11char_traitsIcEE5imbueERKSt6locale(void* r, void*, const void*) {}
static void* vt_[8];
struct { void** v; char pad[400]; } _ZSt5wcout = {vt_ + 3}, _ZSt4wcin = {vt_ + 3};
}
