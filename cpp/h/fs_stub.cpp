// files held in memory, and the POSIX calls that map them
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <sys/mman.h>
#include <sys/stat.h>
static struct F { char name[64]; char* data; int64_t n, cap; bool there; } files[8];
extern "C" {
int kxf_open(const char* name, int create) {
  for (int i = 0; i < 8; i++) if (files[i].there && !strcmp(files[i].name, name)) { if (create == 1) files[i].n = 0; return i; }
  if (!create) return -1;
  for (int i = 0; i < 8; i++) if (!files[i].there) {
    files[i].there = true;
    strncpy(files[i].name, name, 63);
    files[i].cap = 16384;
    files[i].data = (char*)malloc(files[i].cap);
    return i;
  }
  return -1;
}
int64_t kxf_size(int h) { return files[h].n; }
void kxf_write(int h, int64_t at, const char* p, int64_t n) {
  if (at + n > files[h].cap) abort();
  memcpy(files[h].data + at, p, n);
  if (at + n > files[h].n) files[h].n = at + n;
}
void kxf_read(int h, int64_t at, char* p, int64_t n) { memcpy(p, files[h].data + at, n); }
int open(const char* name, int flags, ...) { int h = kxf_open(name, 0); return h < 0 ? -1 : h + 3; }
int close(int) { return 0; }
int fstat(int fd, struct stat* s) { memset(s, 0, sizeof *s); s->st_size = files[fd - 3].n; return 0; }
void* mmap(void*, size_t n, int, int, int fd, off_t) {
  if (n == 0) return MAP_FAILED;
  char* p = (char*)malloc(n);       // exactly the file: reads beyond it are found
  memcpy(p, files[fd - 3].data, n);
  return p;
}
int munmap(void* p, size_t) { free(p); return 0; }
}
