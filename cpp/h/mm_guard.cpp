// native side: mappings are followed by an inaccessible page
#undef mmap
#include <cstdint>

#include <sys/mman.h>
extern "C" void* kx_guarded_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  size_t m = (n + 4095) / 4096 * 4096;
  char* r = (char*)::mmap(nullptr, m + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (r == (char*)MAP_FAILED || n == 0) return ::mmap(a, n, prot, flags, fd, off);
  return ::mmap(r, n, prot, flags | MAP_FIXED, fd, off);
}
