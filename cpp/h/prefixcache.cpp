// The CPU prefix cache over paged storage: a conversation of up to LEN tokens is
// stored, found again, continued, and (layers with a sliding window) trimmed.
#include "ops.h"
#include "mllm/core/OpTypes.hpp"
#include "mllm/core/aops/FillOp.hpp"
#include "mllm/nn/lmcache/PrefixCache.hpp"
namespace mllm {
std::vector<Tensor> kx_op(OpTypes t, const BaseOpOptionsBase& o, const std::vector<Tensor>& in) {
  if (t == OpTypes::kFill) { std::memset(in[0].impl()->storage()->ptr_, 0, in[0].bytes()); return in; }
  kx_fail("unexpected operator");
  return {};
}
}
using namespace mllm::prefix_cache;
static const int L = 2;
struct Slot { vp_addr_t a; uint8_t* p; uint8_t head, tail; size_t n; bool gone = false; };
static std::vector<Slot> S[2][L];      // [key|value][layer], by token position
static int W, uid;
static bool win[L];
static uint8_t* phys(nn::CpuPrefixCache& c, int w, int l, vp_addr_t a) { return (uint8_t*)(w ? c.physicalAddrValue(l, a) : c.physicalAddrKey(l, a)); }
static void grow(nn::CpuPrefixCache& c, int upto, size_t kn, size_t vn) {
  for (int w = 0; w < 2; w++) for (int l = 0; l < L; l++)
    while ((int)S[w][l].size() < upto) {
      size_t n = w ? vn : kn;
      vp_addr_t a = w ? c.allocValue(l) : c.allocKey(l);
      uint8_t* p = phys(c, w, l, a);
      kx_check(p != nullptr, "a slot has memory");
      for (int y = 0; y < 2; y++) for (int z = 0; z < L; z++) for (auto& o : S[y][z]) {
        if (o.gone) continue;
        kx_check(!(y == w && z == l && o.a == a), "a live slot is handed out again");
        kx_check((p + n <= o.p) | (o.p + o.n <= p), "two live slots share memory");
      }
      Slot s{a, p, (uint8_t)kx_u(nm("h", uid).c_str(), 0, 255), (uint8_t)kx_u(nm("t", uid).c_str(), 0, 255), n};
      uid++;
      p[n - 1] = s.tail;
      p[0] = s.head;
      S[w][l].push_back(s);
    }
}
static std::vector<std::vector<vp_addr_t>> lists(int w, int n) {
  std::vector<std::vector<vp_addr_t>> r(L);
  for (int l = 0; l < L; l++) for (int i = 0; i < n; i++) r[l].push_back(S[w][l][i].gone ? INVALID_VP_ADDR : S[w][l][i].a);
  return r;
}
static void expect(nn::CpuPrefixCache& c, const std::vector<int64_t>& seq, int n) {
  auto r = c.find(seq);
  kx_check(r.matched_length == n, "the stored conversation is found");
  for (int w = 0; w < 2; w++) {
    auto& ad = w ? r.v_cache_addresses : r.k_cache_addresses;
    kx_check(ad.size() == L, "one address list per layer");
    for (int l = 0; l < L; l++) {
      kx_check((int)ad[l].size() == n, "one address per token");
      for (int i = 0; i < n; i++) {
        auto& s = S[w][l][i];
        if (s.gone) { kx_check(ad[l][i] == INVALID_VP_ADDR, "a released token has no address any more"); continue; }
        kx_check(ad[l][i] == s.a, "a token keeps its address");
        uint8_t* p = phys(c, w, l, ad[l][i]);
        kx_check((p == s.p) & (p[0] == s.head) & (p[s.n - 1] == s.tail), "a token keeps its data");
      }
    }
  }
}
static void trim(nn::CpuPrefixCache& c, const std::vector<int64_t>& seq, int n, bool hybrid) {
  c.evictSlidingWindowLayerOn(seq);
  if (!hybrid) return;
  for (int w = 0; w < 2; w++) for (int l = 0; l < L; l++) if (win[l]) for (int i = 0; i + W < n; i++) S[w][l][i].gone = true;
}
void harness() {
  bool hybrid = pickn("hybrid", 0, 0, 1);
  nn::PrefixCacheOptions o;
  o.total_layers = L;
  o.per_k_token_ele_num = pickn("kele", 0, 1, 2);
  o.per_v_token_ele_num = pickn("vele", 0, 1, 2);
  o.k_dtype = o.v_dtype = kFloat32;
  o.zen_fs_page_bits = 1;
  o.zen_fs_lane_bits = 1;
  W = 1 << pickn("window", 0, 0, 1);
  if (hybrid) {
    int pattern = pickn("pattern", 0, 1, 3);
    std::vector<bool> v;
    for (int l = 0; l < L; l++) { win[l] = pattern >> l & 1; v.push_back(win[l]); }
    o.hybrid_sliding_window_cache = true;
    o.sliding_window_size = W;
    o.sliding_window_layers = v;
  }
  nn::CpuPrefixCache c(o);
  size_t kn = o.per_k_token_ele_num * 4, vn = o.per_v_token_ele_num * 4;
  int n = 0;
  std::vector<int64_t> seq;
  for (int k = 0; k < TURNS; k++) {
    int add = pickn("add", k, 1, LEN);
    n += add;
    while ((int)seq.size() < n) seq.push_back(100 + seq.size());
    grow(c, n, kn, vn);
    c.promote(seq, lists(0, n), lists(1, n), 0);
    expect(c, seq, n);
    if (pickn("trim", k, 0, 1)) {
      trim(c, seq, n, hybrid);
      expect(c, seq, n);
      kx_reach("trimmed");
    }
  }
  grow(c, n + 3, kn, vn);
  expect(c, seq, n);
  kx_reach("conversation");
}
