// Tensor operators that rearrange data: every output element is the input
// element the operator's definition names, for arbitrary data (bit for bit).
#include "ops.h"
#include "mllm/core/OpTypes.hpp"
#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
#include "mllm/backends/cpu/ops/CloneOp.hpp"
#include "mllm/backends/cpu/ops/CopyOp.hpp"
#include "mllm/backends/cpu/ops/TransposeOp.hpp"
#include "mllm/backends/cpu/ops/PermuteOp.hpp"
#include "mllm/backends/cpu/ops/ConcatOp.hpp"
#include "mllm/backends/cpu/ops/StackOp.hpp"
#include "mllm/backends/cpu/ops/RepeatOp.hpp"
#include "mllm/backends/cpu/ops/PadOp.hpp"
#include "mllm/backends/cpu/ops/Scatter2ShardsOp.hpp"
#include "mllm/backends/cpu/ops/SliceOp.hpp"
#include "mllm/backends/cpu/kernels/Kernels.hpp"
namespace mllm {
std::vector<Tensor> kx_op(OpTypes t, const BaseOpOptionsBase& o, const std::vector<Tensor>& in) {
  if (t == OpTypes::kContiguous) return run<cpu::CPUContiguousOp>(o.as<aops::ContiguousOpOptions>(), in);
  if (t == OpTypes::kClone) return run<cpu::CPUCloneOp>(o.as<aops::CloneOpOptions>(), in);
  if (t == OpTypes::kCopy) return run<cpu::CPUCopyOp>(o.as<aops::CopyOpOptions>(), in);
  if (t == OpTypes::kTranspose) return run<cpu::CPUTransposeOp>(o.as<aops::TransposeOpOptions>(), in);
  if (t == OpTypes::kPermute) return run<cpu::CPUPermuteOp>(o.as<aops::PermuteOpOptions>(), in);
  if (t == OpTypes::kRepeat) return run<cpu::CPURepeatOp>(o.as<aops::RepeatOpOptions>(), in);
  if (t == OpTypes::kSlice) return run<cpu::CPUSliceOp>(o.as<aops::SliceOpOptions>(), in);
  kx_fail("unexpected operator");
  return {};
}
}
using u8 = uint8_t;
static size_t es(DataTypes t) { return bytesOfType(t); }
static bool same(const void* a, const void* b, size_t n) {
  bool ok = true;
  for (size_t i = 0; i < n; i++) ok &= ((const u8*)a)[i] == ((const u8*)b)[i];
  return ok;
}
// element address through offset and strides, in bytes
static u8* at(const Tensor& t, const I& i) {
  auto st = t.impl()->stride();
  int64_t o = t.impl()->storageOffset();
  for (size_t d = 0; d < i.size(); d++) o += (int64_t)i[d] * st[d];
  return (u8*)t.impl()->storage()->ptr_ + o * es(t.dtype());
}
static u8* atd(const Tensor& t, const I& s, const I& i) {
  size_t o = 0;
  for (size_t d = 0; d < s.size(); d++) o = o * s[d] + i[d];
  return (u8*)t.impl()->storage()->ptr_ + o * es(t.dtype());
}
static void shape_is(const Tensor& t, const I& s) {
  auto g = t.shape();
  kx_check(g.size() == s.size(), "output rank");
  for (size_t d = 0; d < s.size(); d++) kx_check(g[d] == s[d], "output extent");
  kx_check(t.isContiguous() && t.impl()->storageOffset() == 0, "output is dense");
}
// scattered=1 allows views
static Tensor input(int k, const I& s, DataTypes t, bool scattered) {
  std::string n = nm("x", k);
  int how = scattered ? pickn("lay", k, 0, 3) : pickn("lay", k, 0, 1) * 3;
  switch (how) {
    case 0: return dense(s, t, n.c_str());
    case 1: return strided(s, t, n.c_str(), 1, I(s.size(), 2));
    case 2: { I st(s.size(), 1); st[pickn("sd", k, 0, s.size() - 1)] = 2; return strided(s, t, n.c_str(), 2, st); }
    default: {  // dense view in the middle of a larger storage
      Tensor x = Tensor::empty(I{(int)prod(s) + 3}, t).alloc();
      kx_bytes(x.ptr<char>(), (prod(s) + 3) * es(t), n.c_str());
      I st(s.size());
      int a = 1;
      for (int d = (int)s.size() - 1; d >= 0; d--) { st[d] = a; a *= s[d]; }
      return Tensor(TensorViewImpl::create(2, s, st, x.impl()->storage()));
    }
  }
}
static DataTypes fp(int k) { return pickn("dt", k, 0, 1) ? kFloat16 : kFloat32; }
static void contiguous() {
  int R = pickn("rank", 0, 1, RANK);
  DataTypes t = pickn("dt", 0, 0, 1) ? kInt8 : kFloat32;
  I s = pickshape("n", R, MAXD), i(R, 0);
  if (R == 1) s[0] = pickn("len", 0, 1, 9);
  Tensor x = input(0, s, t, true), y = x.contiguous();
  shape_is(y, s);
  do kx_check(same(atd(y, s, i), at(x, i), es(t)), "contiguous() keeps every element"); while (next(i, s));
  kx_reach("contiguous");
}
static void clone() {
  int R = pickn("rank", 0, 1, 2);
  I s = pickshape("n", R, MAXD), i(R, 0);
  Tensor x = input(0, s, kFloat32, false), y = x.clone();
  shape_is(y, s);
  do kx_check(same(atd(y, s, i), at(x, i), 4), "clone() keeps every element"); while (next(i, s));
  kx_check(y.impl()->storage()->ptr_ != x.impl()->storage()->ptr_, "clone() has its own memory");
  kx_reach("clone");
}
static void copy() {  // a.copy2(b) writes a's elements into b and nothing else
  I s = pickshape("n", 2, MAXD), i(2, 0);
  Tensor a = input(0, s, kFloat32, false);
  int pre = pickn("pre", 0, 0, 2), post = pickn("post", 0, 0, 2);
  I bs = {pre + s[0] + post, s[1]};
  Tensor b = dense(bs, kFloat32, "b");
  std::vector<u8> old(prod(bs) * 4);
  memcpy(old.data(), b.ptr<char>(), old.size());
  Tensor v = b[SliceIndices{SliceIndicesPair(pre, pre + s[0]), SliceIndicesPair(kAll)}];
  a.copy2(v);
  I j(2, 0);
  do {
    u8* g = atd(b, bs, j);
    if (j[0] >= pre && j[0] < pre + s[0]) kx_check(same(g, at(a, {j[0] - pre, j[1]}), 4), "copy2() copies every element");
    else kx_check(same(g, old.data() + (g - (u8*)b.impl()->storage()->ptr_), 4), "copy2() changes nothing outside");
  } while (next(j, bs));
  kx_reach("copy");
}
static void transpose_() {
  int R = pickn("rank", 0, 2, 4);
  DataTypes t = pickn("dt", 0, 0, 1) ? kInt64 : kFloat32;
  I s(R), i(R, 0);
  int a = pickn("d0", 0, 0, R - 1), b = pickn("d1", 0, 0, R - 1);
  bool neg = pickn("neg", 0, 0, 1);
  // sizes around the 4-wide blocks of the kernels where they are used
  static const int big[] = {1, 3, 4, 5, 8, 9};
  for (int d = 0; d < R; d++) s[d] = R == 2 || (R == 3 && d > 0) ? big[pickn("n", d, 0, R == 2 ? 5 : 3)] : R == 4 ? (d == 3 ? big[pickn("n", d, 0, 3)] : pickn("n", d, 1, 2)) : pickn("n", d, 1, 2);
  if (R >= 3 && prod(s) > 40) kx_end();
  Tensor x = input(0, s, t, false), y = x.transpose(neg ? a - R : a, neg ? b - R : b);
  I o = s;
  std::swap(o[a], o[b]);
  shape_is(y, o);
  do { I j = i; std::swap(j[a], j[b]); kx_check(same(atd(y, o, j), at(x, i), es(t)), "transpose() swaps the two dimensions"); } while (next(i, s));
  kx_reach("transpose");
}
static void permute_() {
  int R = pickn("rank", 0, 2, RANK);
  static const DataTypes ts[] = {kFloat32, kInt64, kInt8, kInt16};
  DataTypes t = ts[pickn("dt", 0, 0, 3)];
  I s = pickshape("n", R, 2), i(R, 0), ax;
  s[pickn("wide", 0, 0, R - 1)] = 3;
  for (int d = 0; d < R; d++) {
    int v = pickn("ax", d, 0, R - 1);
    for (int e : ax) if (e == v) kx_end();
    ax.push_back(v);
  }
  Tensor x = input(0, s, t, false), y = x.permute(ax);
  I o(R);
  for (int d = 0; d < R; d++) o[d] = s[ax[d]];
  shape_is(y, o);
  do { I j(R); for (int d = 0; d < R; d++) j[d] = i[ax[d]]; kx_check(same(atd(y, o, j), at(x, i), es(t)), "permute() reorders the dimensions"); } while (next(i, s));
  kx_reach("permute");
}
static void concat() {
  int R = pickn("rank", 0, 1, RANK), N = pickn("N", 0, 1, 3), d = pickn("dim", 0, 0, R - 1);
  bool neg = pickn("neg", 0, 0, 1);
  DataTypes t = fp(0);
  I s = pickshape("n", R, 2);
  std::vector<Tensor> in;
  I len(N);
  int tot = 0;
  for (int k = 0; k < N; k++) { I q = s; q[d] = len[k] = pickn("len", k, 1, 2); in.push_back(k == 0 ? input(k, q, t, true) : dense(q, t, nm("x", k).c_str())); tot += len[k]; }
  auto y = run<cpu::CPUConcatOp>(aops::ConcatOpOptions{.dim = neg ? d - R : d}, in);
  kx_check(y.size() == 1, "one output");
  I o = s, i(R, 0);
  o[d] = tot;
  shape_is(y[0], o);
  do {
    int k = 0, p = i[d];
    while (p >= len[k]) p -= len[k++];
    I j = i;
    j[d] = p;
    kx_check(same(atd(y[0], o, i), at(in[k], j), es(t)), "concat() lays the inputs one after the other");
  } while (next(i, o));
  kx_reach("concat");
}
static void stack() {
  int R = pickn("rank", 0, 1, RANK), N = pickn("N", 0, 1, 3), d = pickn("dim", 0, 0, R);
  bool neg = pickn("neg", 0, 0, 1);
  DataTypes t = fp(0);
  I s = pickshape("n", R, 2);
  std::vector<Tensor> in;
  for (int k = 0; k < N; k++) in.push_back(k == 0 ? input(k, s, t, true) : dense(s, t, nm("x", k).c_str()));
  auto y = run<cpu::CPUStackOp>(aops::StackOpOptions{.dim = neg ? d - R - 1 : d}, in);
  kx_check(y.size() == 1, "one output");
  I o = s, i(R + 1, 0);
  o.insert(o.begin() + d, N);
  shape_is(y[0], o);
  do {
    I j = i;
    j.erase(j.begin() + d);
    kx_check(same(atd(y[0], o, i), at(in[i[d]], j), es(t)), "stack() puts the inputs side by side");
  } while (next(i, o));
  kx_reach("stack");
}
static void repeat_() {
  int R = pickn("rank", 0, 1, RANK), d = pickn("dim", 0, 0, R - 1), m = pickn("mul", 0, 1, 3);
  bool neg = pickn("neg", 0, 0, 1);
  DataTypes t = fp(0);
  I s = pickshape("n", R, MAXD), i(R, 0);
  Tensor x = input(0, s, t, false), y = x.repeat(m, neg ? d - R : d);
  I o = s;
  o[d] *= m;
  if (m == 1) { kx_check(y.shape() == s, "output extent"); return; }
  shape_is(y, o);
  do { I j = i; j[d] = i[d] / m; kx_check(same(atd(y, o, i), at(x, j), es(t)), "repeat() repeats every slice in place"); } while (next(i, o));
  kx_reach("repeat");
}
static void pad() {
  int R = pickn("rank", 0, 1, 2), mode = pickn("mode", 0, 0, 3);
  I s = pickshape("n", R, 3), i(R, 0), p;
  int np = pickn("dims", 0, 1, R);
  I lo(R, 0), hi(R, 0);
  for (int k = 0; k < np; k++) {
    int d = R - 1 - k, top = mode == 1 ? s[d] - 1 : mode == 3 ? s[d] : 2;  // the sizes PyTorch admits
    lo[d] = pickn("lo", k, 0, std::min(top, 2));
    hi[d] = pickn("hi", k, 0, std::min(top, 2));
    p.push_back(lo[d]);
    p.push_back(hi[d]);
  }
  Tensor x = input(0, s, kFloat32, false);
  float c = 7.5f;
  auto y = run<cpu::CPUPadOp>(aops::PadOpOptions{.pad = p, .mode = (aops::PadMode)mode, .value = c}, {x})[0];
  I o = s;
  for (int d = 0; d < R; d++) o[d] += lo[d] + hi[d];
  shape_is(y, o);
  do {
    I j(R);
    bool out = false;
    for (int d = 0; d < R; d++) {
      int q = i[d] - lo[d], n = s[d];
      out |= q < 0 || q >= n;
      if (mode == 1) { if (q < 0) q = -q; if (q >= n) q = 2 * (n - 1) - q; }
      else if (mode == 2) q = q < 0 ? 0 : q >= n ? n - 1 : q;
      else if (mode == 3) { if (q < 0) q += n; if (q >= n) q -= n; }
      j[d] = q;
    }
    if (mode == 0 && out) kx_check(same(atd(y, o, i), &c, 4), "constant padding");
    else kx_check(same(atd(y, o, i), at(x, j), 4), "pad() keeps and mirrors the right elements");
  } while (next(i, o));
  kx_reach("pad");
}
static void shards() {
  int R = pickn("rank", 0, 1, 4), d = pickn("dim", 0, 0, R - 1);
  DataTypes t = pickn("dt", 0, 0, 1) ? kInt8 : kFloat32;
  I s = pickshape("n", R, 2), i(R, 0);
  s[d] = pickn("cut", 0, 1, 3);
  Tensor x = dense(s, t, "x");
  size_t per = prod(s) / s[d] * es(t);
  Tensor ptrs = Tensor::empty({s[d]}, kInt64).alloc();
  std::vector<std::vector<u8>> sh(s[d]);
  for (int k = 0; k < s[d]; k++) { sh[k].assign(per + 4, 0xA5); ptrs.ptr<int64_t>()[k] = (int64_t)sh[k].data(); }
  run<cpu::CPUScatter2ShardsOp>(aops::Scatter2ShardsOpOptions{.dim = d}, {x, ptrs});
  std::vector<size_t> pos(s[d], 0);
  do {
    int k = i[d];
    kx_check(same(sh[k].data() + pos[k], at(x, i), es(t)), "every shard holds its slice in order");
    pos[k] += es(t);
  } while (next(i, s));
  for (auto& v : sh) for (size_t b = per; b < per + 4; b++) kx_check(v[b] == 0xA5, "nothing is written behind a shard");
  kx_reach("shards");
}
void harness() {
  switch (kx_pick("op", OPLO, OPHI)) {
    case 0: contiguous(); break;
    case 1: clone(); break;
    case 2: copy(); break;
    case 3: transpose_(); break;
    case 4: permute_(); break;
    case 5: concat(); break;
    case 6: stack(); break;
    case 7: repeat_(); break;
    case 8: pad(); break;
    default: shards();
  }
}
