// harness API; the same harness runs under the symbolic executor (extern
// functions handled by kx) and natively (kx_native.cpp) for replay.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// arbitrary value in [lo, hi]
uint64_t kx_u(const char* name, uint64_t lo, uint64_t hi);
int64_t kx_i(const char* name, int64_t lo, int64_t hi);
// the same, but explored value by value (control choices)
uint64_t kx_pick(const char* name, uint64_t lo, uint64_t hi);
void kx_bytes(void* p, size_t n, const char* name);  // arbitrary bytes
void kx_assume(bool c);
void kx_check(bool c, const char* label);
void kx_fail(const char* label);
void kx_reach(const char* label);
// from here on exit()/abort()/an escaping exception is an accepted refusal (1) or a violation (0)
void kx_allow_exit(int ok);
uint64_t kx_conc(uint64_t v);  // fork until v is concrete
int kx_sym();                  // 1 under the executor
void kx_end();                 // end this path (native: exit 0)
void kx_dbg(const char* s, uint64_t v);
}
void harness();
