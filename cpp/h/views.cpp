// Tensor views: NOPS arbitrary view operations in a row on a dense tensor with
// arbitrary dimensions; afterwards an arbitrary index must address exactly the
// element that the operations name.
#include "ops.h"
#include "mllm/core/aops/SliceOp.hpp"
#include "mllm/core/aops/ViewOp.hpp"
#include "mllm/core/aops/SplitOp.hpp"
#include "mllm/core/OpTypes.hpp"
namespace mllm {
std::vector<Tensor> kx_op(OpTypes t, const BaseOpOptionsBase& o, const std::vector<Tensor>& in) {
  if (t == OpTypes::kSlice) return run<aops::SliceOp>(o.as<aops::SliceOpOptions>(), in);
  if (t == OpTypes::kView) return run<aops::ViewOp>(o.as<aops::ViewOpOptions>(), in);
  kx_fail("unexpected operator");
  return {};
}
}
struct G {            // what the view should be: element i lives at off + sum i[d]*str[d]
  std::vector<int64_t> shape, str;
  int64_t off = 0;
  bool dense() const {
    int64_t a = 1;
    bool ok = true;
    for (int d = (int)shape.size() - 1; d >= 0; d--) { ok &= str[d] == a; a *= shape[d]; }
    return ok;
  }
  void redense() { int64_t a = 1; str.resize(shape.size()); for (int d = (int)shape.size() - 1; d >= 0; d--) { str[d] = a; a *= shape[d]; } }
  int64_t numel() const { int64_t n = 1; for (auto s : shape) n *= s; return n; }
};
#ifndef STEPS
#define STEPS 1
#endif
#ifndef MAXD
#define MAXD 6
#endif
static int64_t dimv(const char* n, int i, int64_t lo, int64_t hi) {
#ifdef PICKD
  return (int64_t)kx_pick(nm(n, i).c_str(), lo, hi);
#else
  return kx_i(nm(n, i).c_str(), lo, hi);
#endif
}
static void op_slice(Tensor& t, G& g, int k) {
  SliceIndices si;
  G n = g;
  int R = g.shape.size();
  for (int d = 0; d < R; d++) {
    int id = k * 8 + d;
    switch (pickn("how", id, 0, 3)) {
      case 0: si.emplace_back(kAll); break;
      case 1: {                         // one index (keeps the dimension)
        int64_t v = kx_i(nm("ix", id).c_str(), -MAXD, MAXD - 1);
        kx_assume((v >= -g.shape[d]) & (v < g.shape[d]));
        si.emplace_back((int32_t)v);
        n.off += (v < 0 ? v + g.shape[d] : v) * g.str[d];
        n.shape[d] = 1;
        break;
      }
      case 2: {                         // start, end, step; negative counts from the end
        int64_t a = kx_i(nm("lo", id).c_str(), -MAXD, MAXD), b = kx_i(nm("hi", id).c_str(), -MAXD, MAXD);
        int64_t s = 1 << kx_pick(nm("st", id).c_str(), 0, STEPS);
        kx_assume((a >= -g.shape[d]) & (a < g.shape[d]) & (b >= -g.shape[d]) & (b <= g.shape[d]));
        kx_assume(!((a < 0) & (b == 0) & (a == -1)));   // {-1, 0}: the library's spelling of index -1
        int64_t A = a < 0 ? a + g.shape[d] : a, B = b < 0 ? b + g.shape[d] : b;
        kx_assume(A < B);
        si.emplace_back((int32_t)a, (int32_t)b, (int32_t)s);
        n.off += A * g.str[d];
        n.shape[d] = s == 1 ? B - A : s == 2 ? ((B - A + 1) >> 1) : ((B - A + 3) >> 2);
        n.str[d] *= s;
        break;
      }
      default: {                        // open end
        int64_t a = kx_i(nm("lo", id).c_str(), 0, MAXD);
        kx_assume(a < g.shape[d]);
        si.emplace_back((int32_t)a, kAll);
        n.off += a * g.str[d];
        n.shape[d] -= a;
      }
    }
  }
  t = t[si];
  g = n;
}
static void op_split(Tensor& t, G& g, int k) {
  int R = g.shape.size();
  int64_t d = (int64_t)pickn("dim", k, 0, 2 * R - 1) - R, D = d < 0 ? d + R : d;
  std::vector<Tensor> out;
  I parts;
  int64_t off = 0, len = 0;
  if (pickn("even", k, 0, 1)) {
    int64_t n = pickn("parts", k, 1, 3);
    g.shape[D] = kx_conc(g.shape[D]);
    if (g.shape[D] % n) kx_end();
    int64_t sz = g.shape[D] / n;
    aops::SplitOp op(aops::SplitOpOptions{.dim = (int)d, .split_size_or_sections = {(int)sz}});
    op.reshape({t}, out);
    kx_check(out.size() == (size_t)(n), "split yields every part");
    if (n == 1) { t = out[0]; return; }
    int64_t w = pickn("which", k, 0, n - 1);
    t = out[w]; off = w * sz; len = sz;
  } else {
    int64_t n = pickn("parts", k, 2, 3), sum = 0;
    int64_t w = pickn("which", k, 0, n - 1);
    for (int j = 0; j < n; j++) {
      int64_t s = j == n - 1 ? g.shape[D] - sum : kx_i(nm("sec", k * 4 + j).c_str(), 1, MAXD);
      if (j == n - 1) kx_assume(s >= 1);
      parts.push_back(s);
      if (j == w) { off = sum; len = s; }
      sum += s;
    }
    aops::SplitOp op(aops::SplitOpOptions{.dim = (int)d, .split_size_or_sections = parts});
    op.reshape({t}, out);
    kx_check(out.size() == (size_t)n, "split yields every part");
    t = out[w];
  }
  g.off += off * g.str[D];
  g.shape[D] = len;
}
static bool viewable(const G& g) { return g.dense(); }
static void op_view(Tensor& t, G& g, int k) {
  int R = g.shape.size();
  bool ok = viewable(g);
  G n = g;
  uint64_t how = pickn("view", k, 0, 5);
  if (!ok) kx_allow_exit(1);           // refusing a view of a scattered tensor is fine
  switch (how) {
    case 0: {                          // merge two neighbours, inferred or written out
      if (R < 2) kx_end();
      int j = pickn("at", k, 0, R - 2);
      I s;
      for (int d = 0; d < R; d++) {
        if (d == j) { s.push_back(pickn("infer", k, 0, 1) ? -1 : g.shape[d] * g.shape[d + 1]); d++; }
        else s.push_back(g.shape[d]);
      }
      n.shape[j] *= n.shape[j + 1];
      n.shape.erase(n.shape.begin() + j + 1);
      t = t.view(s);
      break;
    }
    case 1: {                          // split one dimension in two
      int j = pickn("at", k, 0, R - 1);
      int64_t a = pickn("fac", k, 1, 3);
      g.shape[j] = kx_conc(g.shape[j]);
      if (g.shape[j] % a) kx_end();
      int64_t b = g.shape[j] / a;
      uint64_t inf = pickn("infer", k, 0, 2);
      I s(g.shape.begin(), g.shape.end());
      s[j] = inf == 1 ? -1 : a;
      s.insert(s.begin() + j + 1, inf == 2 ? -1 : (int)b);
      n.shape[j] = a;
      n.shape.insert(n.shape.begin() + j + 1, b);
      t = t.view(s);
      break;
    }
    case 2: {
      int64_t d = (int64_t)pickn("at", k, 0, 2 * R + 1) - (R + 1);
      t = t.unsqueeze(d);
      n.shape.insert(n.shape.begin() + (d < 0 ? d + R + 1 : d), 1);
      break;
    }
    case 3: {
      int64_t d = (int64_t)pickn("at", k, 0, 2 * R - 1) - R, D = d < 0 ? d + R : d;
      if (g.shape[D] == 1) n.shape.erase(n.shape.begin() + D);
      else { kx_allow_exit(0); t = t.squeeze(d); return; }   // nothing to do
      if (n.shape.empty()) kx_end();   // rank 0 is not representable
      t = t.squeeze(d);
      break;
    }
    case 4: {
      t = t.squeeze();
      n.shape.clear();
      for (auto s : g.shape) if (s != 1) n.shape.push_back(s);
      if (n.shape.empty()) n.shape.push_back(1);
      break;
    }
    default: {
      uint64_t w = pickn("at", k, 0, 2 * R);
      int64_t d = (int64_t)w - R, D = d < 0 ? d + R : d;
      if (w == (uint64_t)2 * R) { t = t.flatten(); D = 0; }
      else t = t.flatten(d);
      int64_t m = 1;
      for (int e = D; e < R; e++) m *= g.shape[e];
      n.shape.resize(D);
      n.shape.push_back(m);
    }
  }
  kx_allow_exit(0);
  if (ok) n.redense();
  else {
    // not refused: only right when the shape did not change
    kx_check(n.shape.size() == g.shape.size(), "a scattered tensor is refused or left alone");
    bool same = true;
    for (size_t d = 0; d < g.shape.size(); d++) same &= n.shape[d] == g.shape[d];
    kx_check(same, "a scattered tensor is refused or left alone");
    n = g;
  }
  g = n;
  kx_reach("view taken");
}
void harness() {
  G g;
  I s;
#ifdef DIMS
  for (int64_t v : {DIMS}) { g.shape.push_back(v); s.push_back(v); }
#else
  for (int d = 0; d < RANK; d++) { int64_t v = dimv("n", d, 1, MAXD); g.shape.push_back(v); s.push_back(v); }
#endif
  g.redense();
  Tensor t = Tensor::empty(s, DT);
  char base[8];
  char* b = (char*)0x10000000;
  t.impl()->storage()->ptr_ = b;
  t.setMemType(kManual);
  kx_check(t.isContiguous(), "a new tensor is contiguous");
  for (int n = 0; n <= (int)s.size(); n++) kx_check(t.impl()->isContiguousN(n), "a new tensor is contiguous");
  for (int k = 0; k < NOPS; k++) {
#ifdef OPSEQ
    static const int seq[] = {OPSEQ};
    switch (seq[k]) {
#else
    switch (pickn("op", k, FIRST, 2)) {
#endif
      case 0: op_slice(t, g, k); kx_reach("slice taken"); break;
      case 1: op_split(t, g, k); kx_reach("split taken"); break;
      default: op_view(t, g, k);
    }
    auto sh = t.shape();
    kx_check(sh.size() == g.shape.size() && t.rank() == sh.size(), "rank");
    int64_t ne = 1;
    for (size_t d = 0; d < sh.size(); d++) {
      kx_check(sh[d] == g.shape[d], "extent");
      kx_check(t.size(d) == sh[d] && t.size((int)d - (int)sh.size()) == sh[d], "size()");
      ne *= g.shape[d];
    }
    kx_check(t.numel() == (size_t)ne, "numel");
    kx_check(!t.isContiguous() | g.dense(), "isContiguous only for dense tensors");
    bool dn = true;                      // the trailing n dimensions are dense
    int64_t st = 1;
    for (int n = 1; n <= (int)g.shape.size(); n++) {
      size_t d = g.shape.size() - n;
      dn &= (g.shape[d] == 1) | (g.str[d] == st);
      st *= g.shape[d];
      kx_check(!t.impl()->isContiguousN(n) | dn, "isContiguousN only for dense trailing dimensions");
    }
  }
  // an arbitrary element
  I ix;
  int64_t want = g.off;
  for (size_t d = 0; d < g.shape.size(); d++) {
    int64_t i = kx_i(nm("i", d).c_str(), 0, MAXD * MAXD * MAXD);
    kx_assume(i < g.shape[d]);
    ix.push_back(i);
    want += i * g.str[d];
  }
  kx_check((int64_t)((char*)t.offsettedPtr<char>(ix) - b) == want * (int64_t)bytesOfType(DT), "index addresses the element the views name");
  kx_check(t.impl()->storage()->ptr_ == b, "views share the storage");
}
