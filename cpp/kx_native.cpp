// native side of the harness API: inputs come from a file "name value" per line
#include "kx.h"
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <unistd.h>
static std::map<std::string, uint64_t> in;
static std::map<std::string, int> seen;
static int allow = 0;
static std::string uniq(const char* n) {
  int k = seen[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
static void leave(int rc) { fflush(stdout); fflush(stderr); _exit(rc); }
extern "C" {
uint64_t kx_u(const char* name, uint64_t lo, uint64_t hi) {
  auto k = uniq(name);
  auto it = in.find(k);
  uint64_t v = it == in.end() ? lo : it->second;
  if (v < lo || v > hi) { printf("KX-ASSUME %s\n", name); leave(3); }
  return v;
}
int64_t kx_i(const char* name, int64_t lo, int64_t hi) {
  auto k = uniq(name);
  auto it = in.find(k);
  int64_t v = it == in.end() ? lo : (int64_t)it->second;
  if (v < lo || v > hi) { printf("KX-ASSUME %s\n", name); leave(3); }
  return v;
}
uint64_t kx_pick(const char* name, uint64_t lo, uint64_t hi) { return kx_u(name, lo, hi); }
void kx_bytes(void* p, size_t n, const char* name) {
  for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)kx_u((std::string(name) + "[" + std::to_string(i) + "]").c_str(), 0, 255);
}
void kx_assume(bool c) { if (!c) { printf("KX-ASSUME\n"); leave(3); } }
void kx_check(bool c, const char* label) { if (!c) { printf("KX-VIOLATION %s\n", label); leave(77); } }
void kx_fail(const char* label) { kx_check(false, label); }
void kx_reach(const char*) {}
void kx_allow_exit(int ok) { allow = ok; }
uint64_t kx_conc(uint64_t v) { return v; }
int kx_sym() { return 0; }
void kx_end() { leave(0); }
void kx_dbg(const char* s, uint64_t v) { printf("DBG %s %llu\n", s, (unsigned long long)v); }
}
static void on_exit_() { if (!allow) { printf("KX-VIOLATION process exits\n"); leave(78); } leave(0); }
static void on_term() { if (!allow) { printf("KX-VIOLATION process aborts\n"); leave(78); } leave(0); }
#include <csignal>
static void on_sig(int) { on_term(); }
int main(int argc, char** argv) {
  std::ifstream f(argv[1]);
  std::string n; uint64_t v;
  while (f >> n >> v) in[n] = v;
  atexit(on_exit_);
  std::set_terminate(on_term);
  signal(SIGABRT, on_sig);
  harness();
  leave(0);
}
