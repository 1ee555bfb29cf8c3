// memory mapping calls of the executor's side (natively the real ones run)
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <sys/mman.h>
#include <system_error>
static long category[4];   // only compared, never called
namespace std { inline namespace _V2 {
const error_category& system_category() noexcept { return *(const error_category*)category; }
const error_category& generic_category() noexcept { return *(const error_category*)(category + 1); }
} }
static struct M { uint8_t* p; size_t n; bool priv; } maps[64];
static int nmaps;
extern "C" {
void* mmap(void*, size_t n, int, int flags, int, off_t) {
  uint8_t* p = (uint8_t*)aligned_alloc(4096, n);
  memset(p, 0, n);
  if (nmaps == 64) abort();
  maps[nmaps++] = {p, n, (flags & MAP_ANONYMOUS) != 0};
  return p;
}
int munmap(void* p, size_t) { free(p); return 0; }
int madvise(void* p, size_t n, int how) {
  if ((uintptr_t)p % 4096) return -1;
  if (how != MADV_DONTNEED) return 0;
  for (int i = 0; i < nmaps; i++) {
    uint8_t* q = (uint8_t*)p;
    if (q >= maps[i].p && q < maps[i].p + maps[i].n) {
      size_t left = maps[i].n - (q - maps[i].p), m = (n + 4095) / 4096 * 4096;
      if (maps[i].priv) memset(p, 0, m < left ? m : left);   // shared file pages keep their data
    }
  }
  return 0;
}
int posix_madvise(void*, size_t, int) { return 0; }
int msync(void*, size_t, int) { return 0; }
static int tmpl_ok(const char* s) { size_t n = strlen(s); return n >= 6 && !strcmp(s + n - 6, "XXXXXX"); }
int mkstemp(char* s) { return tmpl_ok(s) ? 7 : -1; }
int unlink(const char*) { return 0; }
int ftruncate(int, off_t) { return 0; }
int close(int) { return 0; }
}
