// libc functions as IR for kx
typedef unsigned long size_t; typedef unsigned long uint64_t; typedef int wchar_t;
#define UINT64_MAX (~0ul)
#define INT64_MAX 0x7fffffffffffffffL
#define INT64_MIN (-INT64_MAX - 1)
int *__errno_location(void);

__attribute__((optnone, noinline)) int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char* x = (const unsigned char*)a; const unsigned char* y = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
__attribute__((optnone, noinline)) int bcmp(const void* a, const void* b, size_t n) {
  const unsigned char* x = (const unsigned char*)a; const unsigned char* y = (const unsigned char*)b;
  unsigned char d = 0;
  for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i];
  return d;
}
__attribute__((optnone, noinline)) size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
__attribute__((optnone, noinline)) size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
__attribute__((optnone, noinline)) int strcmp(const char* a, const char* b) {
  size_t i = 0;
  for (;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
__attribute__((optnone, noinline)) int strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
__attribute__((optnone, noinline)) void* memchr(const void* a, int c, size_t n) {
  const unsigned char* x = (const unsigned char*)a;
  for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i);
  return (void*)0;
}
__attribute__((optnone, noinline)) char* strchr(const char* s, int c) {
  for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return (void*)0; }
}
__attribute__((optnone, noinline)) char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
__attribute__((optnone, noinline)) char* strncpy(char* d, const char* s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
__attribute__((optnone, noinline)) wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
__attribute__((optnone, noinline)) wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) {
  if (d < s) for (size_t i = 0; i < n; i++) d[i] = s[i];
  else for (size_t i = n; i-- > 0;) d[i] = s[i];
  return d;
}
__attribute__((optnone, noinline)) wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
__attribute__((optnone, noinline)) size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
__attribute__((optnone, noinline)) int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) {
  for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
__attribute__((optnone, noinline)) wchar_t* wmemchr(const wchar_t* a, wchar_t c, size_t n) {
  for (size_t i = 0; i < n; i++) if (a[i] == c) return (wchar_t*)(a + i);
  return (void*)0;
}
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int iswspace(unsigned c) { return c == ' ' || (c >= 9 && c <= 13) || c == 0x85 || c == 0x1680 || (c >= 0x2000 && c <= 0x2006) || (c >= 0x2008 && c <= 0x200a) || c == 0x2028 || c == 0x2029 || c == 0x205f || c == 0x3000; }
// C.UTF-8 for the characters the harnesses use
int iswdigit(unsigned c) { return c >= '0' && c <= '9'; }
int iswalpha(unsigned c) { return c < 128 ? isalpha(c) : (c >= 0xc0 && c < 0x250 && c != 0xd7 && c != 0xf7) || (c >= 0x4e00 && c < 0x9fff) || c == 0xaa || c == 0xb5 || c == 0xba; }
struct kx_lconv { char *p[16]; char x[64]; };
static struct kx_lconv kx_lc_;
void *localeconv(void) { static char dot[2] = ".", e[1]; for (int i = 0; i < 10; i++) kx_lc_.p[i] = e; kx_lc_.p[0] = dot; return &kx_lc_; }
static uint64_t strtou(const char* s, char** e, int base, int* neg) {
  const char* p = s;
  while (isspace((unsigned char)*p)) p++;
  int any = 0;
  *neg = 0;
  if (*p == '-' || *p == '+') *neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x') { p += 2; base = 16; any = 1; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  uint64_t v = 0;
  for (;; p++) {
    int d = isdigit((unsigned char)*p) ? *p - '0' : isalpha((unsigned char)*p) ? (*p | 32) - 'a' + 10 : 99;
    if (d >= base) break;
    any = 1;
    if (v > (UINT64_MAX - d) / base) { *__errno_location() = 34; v = UINT64_MAX; } else v = v * base + d;
  }
  if (e) *e = (char*)(any ? p : s);
  return v;
}
unsigned long strtoul(const char* s, char** e, int b) { int n; uint64_t v = strtou(s, e, b, &n); return n ? -v : v; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long strtol(const char* s, char** e, int b) {
  int n; uint64_t v = strtou(s, e, b, &n);
  if (!n && v > INT64_MAX) { *__errno_location() = 34; return INT64_MAX; }
  if (n && v > (uint64_t)INT64_MAX + 1) { *__errno_location() = 34; return INT64_MIN; }
  return n ? -v : v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
static double strtod_(const char* s, char** e) {
  const char* p = s;
  while (isspace((unsigned char)*p)) p++;
  int neg = 0, any = 0;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  double v = 0, sc = 1;
  for (; isdigit((unsigned char)*p); p++) { v = v * 10 + (*p - '0'); any = 1; }
  if (*p == '.') for (p++; isdigit((unsigned char)*p); p++) { sc /= 10; v += (*p - '0') * sc; any = 1; }
  if (any && (*p | 32) == 'e') {
    const char* q = p + 1;
    int en = 0;
    if (*q == '-' || *q == '+') en = *q++ == '-';
    if (isdigit((unsigned char)*q)) {
      int x = 0;
      for (; isdigit((unsigned char)*q); q++) if (x < 400) x = x * 10 + (*q - '0');
      while (x-- > 0) v = en ? v / 10 : v * 10;
      p = q;
    }
  }
  if (e) *e = (char*)(any ? p : s);
  return neg ? -v : v;
}
double strtod(const char* s, char** e) { return strtod_(s, e); }
float strtof(const char* s, char** e) { return (float)strtod_(s, e); }
void qsort(void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
  char* p = (char*)b;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--)
      for (size_t k = 0; k < w; k++) { char t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; }
}
