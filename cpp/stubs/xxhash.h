// stand-in for xxHash: a hash that ignores the data; with one bucket per
// container (hash1.cpp) results never depend on it.
#pragma once
#include <cstddef>
#include <cstdint>
struct XXH64_state_t { int x; };
typedef uint64_t XXH64_hash_t;
typedef uint32_t XXH32_hash_t;
static XXH64_state_t kx_xxh_state;
inline XXH64_state_t* XXH64_createState() { return &kx_xxh_state; }
inline int XXH64_reset(XXH64_state_t*, uint64_t) { return 0; }
inline int XXH64_update(XXH64_state_t*, const void*, size_t) { return 0; }
inline uint64_t XXH64_digest(XXH64_state_t*) { return 0; }
inline int XXH64_freeState(XXH64_state_t*) { return 0; }
inline uint64_t XXH64(const void*, size_t, uint64_t) { return 0; }
