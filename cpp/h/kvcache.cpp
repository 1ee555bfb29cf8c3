// Key/value caches of the on-device models: NOPS arbitrary operations on a
// cache of arbitrary geometry; afterwards every layer shows exactly the tokens
// written to it, each query head the data of its key/value head.
#include "ops.h"
#include "mllm/core/OpTypes.hpp"
#include "mllm/core/aops/SliceOp.hpp"
#include "mllm/core/aops/FillOp.hpp"
#include "mllm/nn/lmcache/StaticCache.hpp"
#include "mllm/backends/cpu/ops/KVCacheOp.hpp"
namespace mllm {
std::vector<Tensor> kx_op(OpTypes t, const BaseOpOptionsBase& o, const std::vector<Tensor>& in) {
  if (t == OpTypes::kSlice) return run<aops::SliceOp>(o.as<aops::SliceOpOptions>(), in);
  if (t == OpTypes::kFill) { std::memset(in[0].impl()->storage()->ptr_, 0, in[0].bytes()); return in; }
  kx_fail("unexpected operator");
  return {};
}
}
#ifndef NOPS
#define NOPS 3
#endif
#ifndef CAP
#define CAP 4
#endif
#ifndef LAYERS
#define LAYERS 2
#endif
#ifndef MAXD
#define MAXD 2
#endif
using u8 = uint8_t;
using B = std::vector<u8>;
static int H, REP, D, nl;
static DataTypes kt, vt;
static bool same(const u8* a, const u8* b, size_t n) {
  bool ok = true;
  for (size_t i = 0; i < n; i++) ok &= a[i] == b[i];
  return ok;
}
// rows[layer][pos]: bytes of one token, [H, D]; empty when nothing valid is there
struct Model {
  std::vector<std::vector<B>> k, v;
  void init() { k.assign(nl, std::vector<B>(CAP)); v = k; }
};
static const u8* ptr(const Tensor& t, const I& i, DataTypes dt) {
  auto st = t.impl()->stride();
  int64_t o = t.impl()->storageOffset();
  for (size_t d = 0; d < i.size(); d++) o += (int64_t)i[d] * st[d];
  return (const u8*)t.impl()->storage()->ptr_ + o * bytesOfType(dt);
}
static void shows(const std::array<Tensor, 2>& r, Model& m, int layer, int from, int cnt, bool fa2) {
  for (int w = 0; w < 2; w++) {
    DataTypes dt = w ? vt : kt;
    const Tensor& t = r[w];
    I want = fa2 ? I{1, cnt, H, D} : I{1, H * REP, cnt, D};
    kx_check(t.shape() == want, "the cache shows as many tokens as were written");
    if (cnt == 0) continue;
    for (int s = 0; s < cnt; s++) {
      B& row = (w ? m.v : m.k)[layer][from + s];
      for (int h = 0; h < H * (fa2 ? 1 : REP); h++) {
        const u8* p = ptr(t, fa2 ? I{0, s, h, 0} : I{0, h, s, 0}, dt);
        kx_check(same(p, row.data() + (fa2 ? h : h / REP) * D * bytesOfType(dt), D * bytesOfType(dt)), "every cached token keeps its key and value");
      }
    }
  }
}
// new keys or values [1, H, S, D]: dense or the first S rows of a longer tensor
static Tensor fresh(const char* n, int k, int S, DataTypes dt, bool view) {
  int L = view ? S + 1 : S;
  Tensor x = Tensor::empty({1, H, L, D}, dt).alloc();
  kx_bytes(x.ptr<char>(), H * L * D * bytesOfType(dt), nm(n, k).c_str());
  if (!view) return x;
  return Tensor(TensorViewImpl::create(0, I{1, H, S, D}, I{H * L * D, L * D, D, 1}, x.impl()->storage()));
}
static void note(std::vector<B>& rows, const Tensor& x, int at, int S, DataTypes dt) {
  size_t e = D * bytesOfType(dt);
  for (int s = 0; s < S; s++) {
    B b(H * e);
    for (int h = 0; h < H; h++) std::memcpy(b.data() + h * e, ptr(x, I{0, h, s, 0}, dt), e);
    rows[at + s] = b;
  }
}
static void eager() {
  nn::StaticCache c(CAP, nl, H * REP, H, D, kt, vt, kCPU, false);
  Model m; m.init();
  std::vector<int> cnt(nl, 0), sub(nl, 0);
  nn::SubStaticCache* sc = nullptr;
  int sa = 0, sl = 0;
  for (int k = 0; k < NOPS; k++) {
    switch (pickn("op", k, 0, sc ? 4 : 3)) {
      case 0: case 4: {
        bool insub = false;
        int l = pickn("layer", k, 0, nl - 1), S = pickn("s", k, 1, CAP);
        if (sc) insub = pickn("insub", k, 0, 1);
        Tensor kk = fresh("k", k, S, kt, pickn("view", k, 0, 1)), vv = fresh("v", k, S, vt, false);
        int at = insub ? sa + sub[l] : cnt[l];
        if (at + S > CAP) {              // more than the cache holds: refusing is right, overwriting is not
          kx_reach("over capacity");
          kx_allow_exit(1);
          bool refused = false;
          try { if (insub) sc->updateKVCache(l, kk, vv); else c.updateKVCache(l, kk, vv); } catch (const std::exception&) { refused = true; }
          kx_allow_exit(0);
          kx_check(refused, "writing more tokens than the cache holds is refused");
          break;
        }
        note(m.k[l], kk, at, S, kt);
        note(m.v[l], vv, at, S, vt);
        if (insub) {
          auto r = sc->updateKVCache(l, kk, vv);
          sub[l] += S;
          shows(r, m, l, sa, sub[l], false);
          kx_reach("sub cache written");
        } else {
          auto r = c.updateKVCache(l, kk, vv);
          cnt[l] += S;
          shows(r, m, l, 0, cnt[l], false);
        }
        break;
      }
      case 1: {                          // rewind every layer to a common length
        int mn = cnt[0];
        for (int x : cnt) mn = std::min(mn, x);
        int q = pickn("seq", k, 0, CAP);
        if (q > mn) kx_end();
        c.setCurrentSeqCnt(q);
        for (auto& x : cnt) x = q;
        break;
      }
      case 2: c.clearCache(); for (auto& x : cnt) x = 0; break;
      default: {                         // a window of the cache, its first sl tokens taken as written
        if (sc) { sc->clearCache(); for (auto& x : sub) x = sl; break; }
        int mn = cnt[0];
        for (int x : cnt) mn = std::min(mn, x);
        sa = pickn("start", k, 0, CAP - 1);
        sl = pickn("len", k, 0, CAP);
        if (sa + sl > mn) kx_end();
        sc = new nn::SubStaticCache(c, sa, sl);
        for (auto& x : sub) x = sl;
      }
    }
    for (int l = 0; l < nl; l++) {
      kx_check(c.getCurrentSeqCnt(l) == cnt[l], "token count of the layer");
      shows(c.getKVCache(l), m, l, 0, cnt[l], false);
      if (sc) kx_check(sc->getCurrentSeqCnt(l) == sub[l], "token count of the sub cache");
    }
  }
  kx_reach("eager");
}
static void fa2() {
  nn::StaticCache c(CAP, nl, H * REP, H, D, kt, vt, kCPU, true);
  Model m; m.init();
  std::vector<int> cnt(nl, 0);
  for (int k = 0; k < NOPS; k++) {
    switch (pickn("op", k, 0, 2)) {
      case 0: {
        int l = pickn("layer", k, 0, nl - 1), S = pickn("s", k, 1, CAP);
        if (cnt[l] + S > CAP) {
          kx_allow_exit(1);
          bool refused = false;
          try { c.preGetKVWriteLocation(l, S); } catch (const std::exception&) { refused = true; }
          kx_allow_exit(0);
          kx_check(refused, "asking for more tokens than the cache holds is refused");
          break;
        }
        auto r = c.preGetKVWriteLocation(l, S);
        for (int w = 0; w < 2; w++) {
          DataTypes dt = w ? vt : kt;
          kx_check(r[w].shape() == I({1, S, H * D}), "write location covers the new tokens");
          kx_check(r[w].dtype() == dt, "write location has the cache's type");
          size_t e = H * D * bytesOfType(dt);
          kx_bytes(r[w].ptr<char>(), S * e, nm(w ? "v" : "k", k).c_str());
          for (int s = 0; s < S; s++) { B b(e); std::memcpy(b.data(), r[w].ptr<char>() + s * e, e); (w ? m.v : m.k)[l][cnt[l] + s] = b; }
        }
        cnt[l] += S;
        break;
      }
      case 1: {
        int mn = cnt[0];
        for (int x : cnt) mn = std::min(mn, x);
        int q = pickn("seq", k, 0, CAP);
        if (q > mn) kx_end();
        c.setCurrentSeqCnt(q);
        for (auto& x : cnt) x = q;
        break;
      }
      default: c.clearCache(); for (auto& x : cnt) x = 0;
    }
    for (int l = 0; l < nl; l++) {
      kx_check(c.getCurrentSeqCnt(l) == cnt[l], "token count of the layer");
      shows(c.getKVCache(l), m, l, 0, cnt[l], true);
    }
  }
  kx_reach("fa2");
}
static void op() {
  bool sh = pickn("shared", 0, 0, 1);
  kt = vt = kFloat32;
  std::vector<int> cnt(nl, 0);
  Model m; m.init();
  nn::StaticCache c(CAP, nl, H * REP, H, D, kt, vt, kCPU, false);
  std::vector<cpu::CPUKVCacheOp*> ops;
  for (int l = 0; l < nl; l++) {
    aops::KVCacheOpOptions o;
    o.layer_idx = l; o.q_head = H * REP; o.kv_head = H; o.head_dim = D; o.use_fa2 = false;
    ops.push_back(new cpu::CPUKVCacheOp(o));
    if (sh) ops.back()->setStaticCache(&c);
  }
  for (int k = 0; k < NOPS; k++) {
    int l = pickn("layer", k, 0, nl - 1);
    switch (pickn("op", k, 0, 2)) {
      case 0: {
        int S = pickn("s", k, 1, 2);
        if (cnt[l] + S > CAP) kx_end();
        Tensor kk = fresh("k", k, S, kt, false), vv = fresh("v", k, S, vt, false);
        note(m.k[l], kk, cnt[l], S, kt);
        note(m.v[l], vv, cnt[l], S, vt);
        std::vector<Tensor> in{kk, vv}, out;
        ops[l]->reshape(in, out);
        ops[l]->forward(in, out);
        cnt[l] += S;
        shows({out[0], out[1]}, m, l, 0, cnt[l], false);
        break;
      }
      case 1: ops[l]->clearCache(); if (sh) for (auto& x : cnt) x = 0; else cnt[l] = 0; break;
      default: {
        int q = pickn("seq", k, 0, CAP), mn = cnt[l];
        if (sh) for (int x : cnt) mn = std::min(mn, x);
        if (q > mn) kx_end();
        ops[l]->setCurrentSeqCnt(q);
        if (sh) for (auto& x : cnt) x = q; else cnt[l] = q;
      }
    }
    for (int j = 0; j < nl; j++) kx_check(ops[j]->getCurrentSeqCnt() == cnt[j], "token count of the operator");
  }
  kx_reach("operator");
}
void harness() {
  nl = LAYERS;
  int g = pickn("geometry", 0, 0, GEOM);   // key/value heads, query heads per key/value head
  H = g == 1 ? 1 : 2;
  REP = g == 2 ? 1 : g == 3 ? 3 : 2;
  D = MAXD;
  int dt = pickn("types", 0, 0, TYPES);
  kt = dt == 1 ? kFloat16 : kFloat32;
  vt = dt == 1 ? kFloat32 : dt == 2 ? kFloat16 : kFloat32;
#if MODE == 0
  eager();
#elif MODE == 1
  fa2();
#else
  op();
#endif
}
