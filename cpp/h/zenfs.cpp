// Paged key/value storage of the prefix cache: NOPS arbitrary operations on a
// file system of arbitrary geometry, PRE slots taken beforehand.
#include "ops.h"
#include <cstdlib>
#include <map>
#include "mllm/core/OpTypes.hpp"
#include "mllm/core/aops/FillOp.hpp"
#include "mllm/engine/prefix_cache/Cache.hpp"
#include "mllm/engine/prefix_cache/Allocator.hpp"
#include "mllm/nn/lmcache/PrefixCache.hpp"
namespace mllm {
std::vector<Tensor> kx_op(OpTypes t, const BaseOpOptionsBase& o, const std::vector<Tensor>& in) {
  if (t == OpTypes::kFill) { std::memset(in[0].impl()->storage()->ptr_, 0, in[0].bytes()); return in; }
  kx_fail("unexpected operator");
  return {};
}
}
using namespace mllm::prefix_cache;
static int PB, LB, ELE;
static DataTypes dt;
static size_t tok;
static char dir[] = "/tmp/kx-zenfs-XXXXXX";
#ifndef FILEB
#define FILEB 0
#endif
static ZenFileSystemOptions opts() {
  ZenFileSystemOptions o;
  o.working_dir = FILEB && !kx_sym() ? dir : "/tmp/kx-zenfs";
  o.page_bits = PB; o.lane_bits = LB;
  o.per_k_token_ele = o.per_v_token_ele = ELE;
  o.k_dtype = o.v_dtype = dt;
  o.mmap_type = FILEB ? ZenFSBlobMMapType::kFile : ZenFSBlobMMapType::kAnonymous;
  return o;
}
struct Live { vp_addr_t a; char* p; uint8_t head, tail; };
static bool disjoint(const std::vector<Live>& v, char* p) {
  bool ok = true;
  for (auto& l : v) ok &= (p + tok <= l.p) | (l.p + tok <= p);
  return ok;
}
// the first and last byte identify the contents of a slot
static void fill(Live& l, const char* n, int k) {
  l.head = kx_u(nm(n, 2 * k).c_str(), 0, 255);
  l.tail = tok > 1 ? (uint8_t)kx_u(nm(n, 2 * k + 1).c_str(), 0, 255) : l.head;
  l.p[0] = l.head;
  l.p[tok - 1] = l.tail;
}
template<class A, class F, class P>
static void history(A alloc, F release, P phys, auto prefetch, auto purge) {
  std::vector<Live> live;
  int n = 1 << (PB + LB);
  int pre[] = {0, 1, n - 1, n, n + 1};
  int np = pre[pickn("pre", 0, 0, 4)];
  for (int j = 0; j < np; j++) {
    vp_addr_t a = alloc();
    char* p = phys(a);
    kx_check(p != nullptr, "a slot has memory");
    Live l{a, p, (uint8_t)j, (uint8_t)(tok > 1 ? j + 1 : j)};
    for (auto& o : live) kx_check(o.a != a, "an allocated slot is handed out again");
    kx_check(disjoint(live, p), "two live slots share memory");
    p[0] = l.head; p[tok - 1] = l.tail;
    live.push_back(l);
  }
  size_t peak = live.size();
  for (int k = 0; k < NOPS; k++) {
    switch (pickn("op", k, 0, 2)) {
      case 0: {
        vp_addr_t a = alloc();
        char* p = phys(a);
        kx_check(p != nullptr, "a slot has memory");
        Live l{a, p, 0, 0};
        for (auto& o : live) kx_check(o.a != a, "an allocated slot is handed out again");
        kx_check(disjoint(live, p), "two live slots share memory");
        fill(l, "d", k);
        live.push_back(l);
        if (live.size() > peak) peak = live.size();
        kx_check((int)(a >> (PB + LB)) <= (int)(peak - 1) / n, "freed slots are used again before memory grows");
        break;
      }
      case 1: {                        // free one, from either end or the middle
        if (live.empty()) kx_end();
        int w[] = {0, (int)live.size() / 2, (int)live.size() - 1};
        int i = w[pickn("which", k, 0, 2)];
        release(live[i].a);
        live.erase(live.begin() + i);
        break;
      }
      default: {                       // hints must not change what is stored in any other slot
        if (live.empty()) kx_end();
        int w[] = {0, (int)live.size() / 2, (int)live.size() - 1};
        int i = w[pickn("which", k, 0, 2)];
        prefetch(live[i].a);
        purge(live[i].a);
        // without a file behind it the memory of the purged slot itself is given up
        if (!FILEB) { live[i].p[0] = live[i].head; live[i].p[tok - 1] = live[i].tail; }
      }
    }
    for (auto& l : live) {
      kx_check(phys(l.a) == l.p, "a slot stays where it is");
      kx_check((uint8_t)l.p[0] == l.head, "a slot keeps its data");
      kx_check((uint8_t)l.p[tok - 1] == l.tail, "a slot keeps its data up to its end");
    }
  }
  kx_reach("history");
}
void harness() {
  PB = pickn("pages", 0, PBL, PBH);
  LB = pickn("lanes", 0, LBL, LBH);
  ELE = pickn("ele", 0, 0, 1) ? ELEN : 1;
  dt = pickn("dt", 0, 0, 1) ? kFloat32 : kFloat16;
  tok = ELE * bytesOfType(dt);
  if (FILEB && !kx_sym()) mkdtemp(dir);
#if MODE == 0
  ZenFileSystem fs;
  fs.initialize(opts());
  history([&] { return fs.malloc(); }, [&](vp_addr_t a) { fs.free(a); }, [&](vp_addr_t a) { return fs.access(a); },
          [&](vp_addr_t a) { fs.hintsPrefetch(a); }, [&](vp_addr_t a) { fs.hintsPurge(a); });
#else
  PrefixCacheAllocatorOptions o;
  o.per_k_token_ele = o.per_v_token_ele = ELE;
  o.k_dtype = o.v_dtype = dt;
  o.zen_fs_options = opts();
  PrefixCacheAllocator al(o);
  history([&] { return al.alloc(kCPU); }, [&](vp_addr_t a) { al.free(kCPU, a); }, [&](vp_addr_t a) { return al.physicalAddr(a); },
          [&](vp_addr_t a) { al.prefetch(kCPU, a); }, [&](vp_addr_t a) { al.purge(kCPU, a); });
#endif
  if (FILEB && !kx_sym()) rmdir(dir);
}
