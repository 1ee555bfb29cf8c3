// Memory manager. MODE 0: the manager over the pool, arbitrary allocations and
// frees; 1: the pool with its cache of small objects; 2: the CPU allocator.
#include "kx.h"
#include <memory>
#include <string>
#include <vector>
#include "mllm/engine/MemoryManager.hpp"
#include "mllm/backends/cpu/CPUAllocator.hpp"
using namespace mllm;
static std::string nm(const char* a, int i) { return std::string(a) + char('0' + i / 10) + char('0' + i % 10); }
static uint64_t pickn(const char* a, int i, uint64_t lo, uint64_t hi) { return kx_pick(nm(a, i).c_str(), lo, hi); }
#ifndef MINO
#define MINO 2
#define MAXO 4
#endif
#ifndef NOPS
#define NOPS 4
#endif
#ifndef SIZE
#define SIZE 1
#endif
// memory the pool gets, in an order of addresses of the harness's choice
struct Region { char* p; size_t n; bool live; };
static std::vector<Region> regions;
static char* arena;
static int nslots = 8, slot = 256;
static bool downward;
struct Src final : Allocator {
  size_t align;
  int fails = -1;
  explicit Src(size_t a) : align(a) {}
  bool take(void** p, size_t n) {
    size_t k = regions.size();
    if (n > (size_t)slot || k >= (size_t)nslots) kx_fail("the pool asks for more memory than the storages need");
    *p = arena + slot * (downward ? nslots - 1 - k : k);
    regions.push_back({(char*)*p, n, true});
    return true;
  }
  void give(void* p) {
    for (auto& r : regions)
      if (r.p == p) { kx_check(r.live, "memory is given back once"); r.live = false; return; }
    kx_fail("only memory that was taken is given back");
  }
  bool ctrlByMemManager() override { return true; }
  bool alloc(Storage* s) override { return take(&s->ptr_, s->size_); }
  bool alloc(const Storage::ptr_t& s) override { return alloc(s.get()); }
  void free(Storage* s) override { give(s->ptr_); }
  void free(const Storage::ptr_t& s) override { free(s.get()); }
  bool generalAlloc(void** p, size_t n, size_t) override {
    if (fails == (int)regions.size()) { kx_allow_exit(1); kx_reach("out of memory"); return false; }
    return take(p, n);
  }
  void generalFree(void* p) override { give(p); }
  size_t allocSize(Storage* s) override { return (s->size_ + align - 1) / align * align; }
  size_t allocSize(const Storage::ptr_t& s) override { return allocSize(s.get()); }
  size_t alignSize() const override { return align; }
};
struct Live { Storage::ptr_t s; char* p; size_t n, got; };
static std::vector<Live> live;
static size_t block(size_t n) { size_t b = 1 << MINO; while (b < n) b *= 2; return b; }
static bool apart(const char* a, size_t n, const char* b, size_t m) { return a + n <= b || b + m <= a; }
static void check_all() {
  for (size_t i = 0; i < live.size(); i++) {
    auto& l = live[i];
    kx_check(l.s->ptr_ == l.p, "a live storage stays where it is");
    bool in = l.n == 0;
    for (auto& r : regions) in = in || (r.live && l.p >= r.p && l.p + l.n <= r.p + r.n);
    kx_check(in, "a storage lies inside the memory of the pool");
    for (size_t j = 0; j < i; j++) kx_check(apart(l.p, l.n, live[j].p, live[j].n), "live storages never overlap");
  }
}
// some pooled region has an aligned free range for n bytes
static bool room(size_t n) {
  size_t b = block(n);
  for (auto& r : regions)
    for (size_t o = 0; r.live && o + b <= r.n; o += b) {
      bool ok = true;
      for (auto& l : live) ok = ok && apart(r.p + o, b, l.p, block(l.got));
      if (ok) return true;
    }
  return false;
}
static Storage::ptr_t mk(int k, size_t n) {
  auto s = std::make_shared<Storage>();
  s->size_ = n;
  s->custom_32bit_uuid_ = 100 + k;
  return s;
}
static size_t pick_size(int k, size_t hi) {
#ifdef FEW
  static const size_t S[] = {1, 3, 5, 9, 13, 17, 33};
  size_t i = pickn("size", k, 0, FEW - 1);
  return S[i] < hi ? S[i] : hi;
#else
  return kx_conc(kx_u(nm("size", k).c_str(), MODE == 1, hi));
#endif
}
static void pool() {
  arena = new char[nslots * slot];
  downward = MODE == 0 && pickn("downward", 0, 0, 1);
  auto src = std::make_shared<Src>(pickn("align", 0, 0, 1) ? 4 : 1);
  if (MODE == 0) src->fails = (int)pickn("fails", 0, 0, 2) - 1;
  MemoryManagerOptions o;
  o.buddy_mem_pool_options.buddy_first_segment_cap = 1 << MAXO;
  o.buddy_mem_pool_options.buddy_min_order = MINO;
  o.buddy_mem_pool_options.buddy_max_order = MAXO;
  size_t thr = MODE == 0 && pickn("threshold", 0, 0, 1) ? 1 << MAXO : (4 << MAXO) + 1;
  o.really_large_tensor_threshold = thr;
#if MODE == 1
  std::unordered_set<size_t> sets[3] = {{}, {4, 8}, {5, 16, 12}};
  o.buddy_mem_pool_options.cache_small_obj_enabled = true;
  int cur = pickn("cached", 0, 0, 2);
  o.buddy_mem_pool_options.cache_size_set = sets[cur];
  auto m = std::make_shared<BuddyMemPool>(o.buddy_mem_pool_options, src);
#else
  auto m = std::make_shared<MemoryManager>();
  m->registerAllocator(kCPU, src, o);
#endif
  size_t hi = MODE == 1 ? 1 << MAXO : 2 << MAXO, freed = 0;
  bool justfreed = false;
  for (int k = 0; k < NOPS; k++) {
    int op = pickn("op", k, 0, MODE == 1 ? 2 : 1);
    if (op == 0) {
      size_t n = MODE == 1 && justfreed && pickn("same", k, 0, 1) ? freed : pick_size(k, hi);
      auto s = mk(k, n);
      size_t before = regions.size();
      bool had = src->allocSize(s) < thr && room(src->allocSize(s));
      m->alloc(s);
      bool grew = regions.size() != before;
      if (MODE == 0) kx_check(!(grew && had), "free memory is used before more is taken");
      if (MODE == 1 && justfreed && freed == n) kx_check(!grew, "freed memory is used again");
      live.push_back({s, (char*)s->ptr_, s->size_, src->allocSize(s)});
      check_all();
      justfreed = false;
    } else if (op == 1) {
      if (live.empty()) kx_end();
      size_t i = pickn("which", k, 0, live.size() - 1);
      m->free(live[i].s);
      freed = live[i].s->size_;
      live.erase(live.begin() + i);
      justfreed = true;
      check_all();
    }
#if MODE == 1
    else {
      cur = pickn("cached", k + 1, 0, 2);
      m->updateCacheSizeList(sets[cur]);
      check_all();
      if (live.empty() && cur == 0) {
        auto s = mk(k, 1 << MAXO);              // nothing live and nothing cached: the first segment is whole again
        size_t before = regions.size();
        m->alloc(s);
        kx_check(regions.size() == before, "memory of sizes no longer cached is free again");
        m->free(s);
        kx_reach("uncached");
      }
      justfreed = false;
    }
#endif
  }
  while (!live.empty()) { m->free(live.back().s); live.pop_back(); }
#if MODE == 0
  auto s = mk(50, thr > (1 << MAXO) ? 1 << MAXO : (1 << MAXO) - 4);
  size_t before = regions.size();
  m->alloc(s);
  kx_check(regions.size() == before, "freed neighbours join again");
  m->free(s);
#endif
  m.reset();
  for (auto& r : regions) kx_check(!r.live, "all memory is given back");
  kx_reach("history");
}
static void cpuheap() {
  auto a = cpu::createCPUAllocator();
  auto s = std::make_shared<Storage>();
  s->size_ = kx_conc(kx_u("size", 0, SIZE));
  size_t al = a->alignSize();
  kx_check(al && (al & (al - 1)) == 0, "the alignment is a power of two");
  bool raw = kx_pick("raw", 0, 1);       // the two forms of every function
  size_t n = raw ? a->allocSize(s.get()) : a->allocSize(s);
  kx_check(n >= s->size_ && n < s->size_ + al && n % al == 0, "the size is rounded up to the alignment");
  kx_check(raw ? a->alloc(s.get()) : a->alloc(s), "memory is available");
  kx_check(s->ptr_ && (uintptr_t)s->ptr_ % al == 0, "memory is aligned");
  for (size_t i = 0; i < s->size_; i++) ((char*)s->ptr_)[i] = i;
  void* p = nullptr;
  int e = kx_conc(kx_u("align", 0, 7));
  kx_check(a->generalAlloc(&p, s->size_, 1 << e) && p, "memory is available");
  kx_check((uintptr_t)p % (1 << e) == 0, "memory is aligned");
  for (size_t i = 0; i < s->size_; i++) ((char*)p)[i] = 1;
  for (size_t i = 0; i < s->size_; i++) kx_check(((char*)s->ptr_)[i] == (char)i, "memory is not shared");
  if (raw) a->free(s.get()); else a->free(s);
  a->generalFree(p);
  a->generalFree(nullptr);
  p = &p;
  kx_check(!a->generalAlloc(&p, 8, kx_pick("odd", 0, 1) ? 3 : 0), "what cannot be had is refused");
  kx_reach("allocated");
}
void harness() {
#if MODE == 2
  cpuheap();
#else
  pool();
#endif
}
