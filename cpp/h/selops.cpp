// Tensor operators that select elements by index, mask, position or order:
// each output element is the one the definition names, for arbitrary data.
#include "ops.h"
#include "mllm/core/OpTypes.hpp"
#include "mllm/backends/cpu/ops/GatherOp.hpp"
#include "mllm/backends/cpu/ops/IndexOp.hpp"
#include "mllm/backends/cpu/ops/MaskedScatterOp.hpp"
#include "mllm/backends/cpu/ops/CausalMaskOp.hpp"
#include "mllm/backends/cpu/ops/TopKOp.hpp"
#include "mllm/backends/cpu/ops/ArgsortOp.hpp"
namespace mllm {
std::vector<Tensor> kx_op(OpTypes t, const BaseOpOptionsBase& o, const std::vector<Tensor>& in) {
  if (t == OpTypes::kIndex) return run<cpu::CPUIndexOp>(o.as<aops::IndexOpOptions>(), in);
  if (t == OpTypes::kTopK) return run<cpu::CPUTopKOp>(o.as<aops::TopKOpOptions>(), in);
  if (t == OpTypes::kArgsort) return run<cpu::CPUArgsortOp>(o.as<aops::ArgsortOpOptions>(), in);
  kx_fail("unexpected operator");
  return {};
}
}
using u8 = uint8_t;
static size_t es(DataTypes t) { return bytesOfType(t); }
static bool same(const void* a, const void* b, size_t n) {
  bool ok = true;
  for (size_t i = 0; i < n; i++) ok &= ((const u8*)a)[i] == ((const u8*)b)[i];
  return ok;
}
static u8* at(const Tensor& t, const I& i) {
  auto st = t.impl()->stride();
  int64_t o = t.impl()->storageOffset();
  for (size_t d = 0; d < i.size(); d++) o += (int64_t)i[d] * st[d];
  return (u8*)t.impl()->storage()->ptr_ + o * es(t.dtype());
}
static void shape_is(const Tensor& t, const I& s) {
  auto g = t.shape();
  kx_check(g.size() == s.size(), "output rank");
  for (size_t d = 0; d < s.size(); d++) kx_check(g[d] == s[d], "output extent");
}
// dense, alone or in the middle of a larger storage
static Tensor input(int k, const I& s, DataTypes t) {
  std::string n = nm("x", k);
  if (!pickn("lay", k, 0, 1)) return dense(s, t, n.c_str());
  Tensor x = Tensor::empty(I{(int)prod(s) + 3}, t).alloc();
  kx_bytes(x.ptr<char>(), (prod(s) + 3) * es(t), n.c_str());
  I st(s.size());
  int a = 1;
  for (int d = (int)s.size() - 1; d >= 0; d--) { st[d] = a; a *= s[d]; }
  return Tensor(TensorViewImpl::create(2, s, st, x.impl()->storage()));
}
static I ivec(const char* n, size_t k, int lo, int hi, size_t full) {  // any value; after the first few only one of three
  I v(k);
  for (size_t j = 0; j < k; j++)
    if (FULL || j < full) v[j] = (int)kx_i(nm(n, j).c_str(), lo, hi);
    else v[j] = j % 3 == 0 ? lo : j % 3 == 1 ? 0 : hi;
  return v;
}
static int nonneg(int v, int n) { return v < 0 ? v + n : v; }
static void gather() {
  int R = pickn("rank", 0, 1, 3), d = pickn("dim", 0, 0, R - 1), IR = pickn("irank", 0, 1, 2);
  // one choice stands for several that the code does not combine (all of them in the thorough tier)
  bool neg = FULL || IR == 1 ? pickn("negdim", 0, 0, 1) : 0, fidx = FULL || R == 2 ? pickn("fidx", 0, 0, 1) : 0;
  DataTypes dts[3] = {kFloat32, kFloat16, kInt32};
  DataTypes t = dts[FULL || IR == 1 ? pickn("dt", 0, 0, 2) : (d + 1) % 3];
  I s(R, 2), is(IR, 2);
  if (FULL) s = pickshape("n", R, MAXD > 2 && R == 3 ? 2 : MAXD), is = pickshape("m", IR, 2);
  else s[d] = pickn("n", 0, 1, MAXD), is[0] = pickn("m", 0, 1, 2);
  Tensor x = input(0, s, t), ix = Tensor::empty(is, fidx ? kFloat32 : kInt32).alloc();
  I v = fidx ? I(prod(is)) : ivec("ix", prod(is), -s[d], s[d] - 1, 2);
  if (fidx) for (size_t j = 0; j < v.size(); j++) { v[j] = FULL || j < 1 ? (int)pickn("fx", j, 0, 2 * s[d] - 1) - s[d] : j % 2 ? s[d] - 1 : -s[d]; ix.ptr<float>()[j] = (float)v[j]; }
  else for (size_t j = 0; j < v.size(); j++) ix.ptr<int32_t>()[j] = v[j] = (int)kx_conc((uint64_t)(int64_t)v[j]);
  Tensor y = run<cpu::CPUGatherOp>(aops::GatherOpOptions{.dim = neg ? d - R : d}, {x, ix})[0];
  I o(s.begin(), s.begin() + d);
  o.insert(o.end(), is.begin(), is.end());
  o.insert(o.end(), s.begin() + d + 1, s.end());
  shape_is(y, o);
  I i(o.size(), 0);
  do {
    I j(i.begin(), i.begin() + d);
    int p = 0;
    for (int q = 0; q < IR; q++) p = p * is[q] + i[d + q];
    j.push_back(nonneg(v[p], s[d]));
    j.insert(j.end(), i.begin() + d + IR, i.end());
    kx_check(same(at(y, i), at(x, j), es(t)), "gather() takes the element its index names");
  } while (next(i, o));
  kx_reach("gather");
}
static void index() {
  int R = pickn("rank", 0, 1, 3), must = pickn("must", 0, 0, R - 1);
  DataTypes t = (FULL ? pickn("dt", 0, 0, 1) : must % 2) ? kInt8 : kFloat32;
  I s(R, 2), o(R);
  if (FULL) s = pickshape("n", R, R == 3 ? 2 : MAXD);
  else if (R < 3) for (int d = 0; d < R; d++) s[d] = d == must ? 3 : 2;
  Tensor x = input(0, s, t);
  ComplexIndexingList li;
  std::vector<I> want(R);
  for (int d = 0; d < R; d++) {
    int kind = d == must ? pickn("kind", d, 1, 2) : pickn("kind", d, 0, R == 3 ? 1 : 2);
    if (kind == 0) {
      int how = FULL || R < 3 ? pickn("sl", d, 0, 3) : d == 0 ? 2 : 0, a = 0, b = s[d], step = 1;
      if (how == 0) li.emplace_back(SliceIndicesPair(kAll));
      else if (how == 3) { a = s[d] - 1; li.emplace_back(SliceIndicesPair(-1)); }
      else {
        a = pickn("from", d, 0, s[d] - 1);
        b = pickn("to", d, a + 1, s[d]);
        if (how == 2) step = FULL ? pickn("step", d, 1, 2) : 2;
        li.emplace_back(SliceIndicesPair(how == 1 && a == 0 ? kAll : a, b == s[d] && how == 1 ? kAll : b, step));
      }
      for (int q = a; q < b; q += step) want[d].push_back(q);
    } else {
      int n = FULL || d == must ? pickn("cnt", d, 1, 2) : 2;
      I v = ivec(nm("ix", d).c_str(), n, -s[d], s[d] - 1, d == must ? 2 : 1);
      for (int& w : v) w = (int)kx_conc((uint64_t)(int64_t)w);
      if (kind == 1) li.emplace_back(v);
      else {
        Tensor ix = Tensor::empty({n}, kInt32).alloc();
        for (int q = 0; q < n; q++) ix.ptr<int32_t>()[q] = v[q];
        li.emplace_back(ix);
      }
      for (int w : v) want[d].push_back(nonneg(w, s[d]));
    }
    o[d] = want[d].size();
  }
  Tensor y = x[li];
  shape_is(y, o);
  I i(R, 0);
  do {
    I j(R);
    for (int d = 0; d < R; d++) j[d] = want[d][i[d]];
    kx_check(same(at(y, i), at(x, j), es(t)), "indexing takes the element its index list names");
  } while (next(i, o));
  kx_reach("index");
}
static void scatter() {  // dst[mask] = src, the source rows taken in order
  int R = pickn("rank", 0, 1, 3), M = pickn("mrank", 0, 1, R), extra = FULL ? pickn("extra", 0, 0, 2) : R - M;
  DataTypes t = (FULL ? pickn("dt", 0, 0, 1) : M % 2) ? kFloat16 : kFloat32;
  I s = FULL || R < 3 ? pickshape("n", R, R == 3 ? 2 : MAXD) : I{1 + (int)pickn("n", 0, 0, 1), 2, 2}, ms(s.end() - M, s.end());
  for (int d = 0; d < M; d++) if (ms[d] > 1 && pickn("bc", d, 0, 1)) ms[d] = 1;
  Tensor x = input(0, s, t), m = Tensor::empty(ms, kInt8).alloc();
  for (size_t j = 0; j < prod(ms); j++) m.ptr<int8_t>()[j] = (int8_t)kx_u(nm("m", j).c_str(), 0, 1);
  auto on = [&](const I& i) {
    size_t o = 0;
    for (int d = 0; d < M; d++) o = o * ms[d] + (ms[d] == 1 ? 0 : i[R - M + d]);
    return m.ptr<int8_t>()[o];
  };
  I i(R, 0);
  size_t n = 0;
  do n += kx_conc(on(i)); while (next(i, s));
  // the source is flat, or rows of the destination's last dimension
  I ss{(int)(n + extra)};
  if (ss[0] == 0) ss[0] = 1;
  if (pickn("rows", 0, 0, 1)) { ss[0] = (ss[0] + s[R - 1] - 1) / s[R - 1]; ss.push_back(s[R - 1]); }
  Tensor src = input(1, ss, t);
  std::vector<u8> old(prod(s) * es(t));
  memcpy(old.data(), at(x, I(R, 0)), old.size());
  Tensor y = run<cpu::CPUMaskedScatterOp>(aops::MaskedScatterOpOptions{}, {x, m, src})[0];
  shape_is(y, s);
  size_t k = 0, p = 0;
  do {
    u8* from = on(i) ? at(src, I(ss.size(), 0)) + k++ * es(t) : old.data() + p * es(t);
    kx_check(same(at(x, i), from, es(t)), "masked elements take the source in order, all others stay");
    kx_check(same(at(y, i), from, es(t)), "the output is the destination");
    p++;
  } while (next(i, s));
  kx_reach("masked_scatter");
}
static float half(uint16_t h) {
  float m = (h & 1023) / 1024.f;
  int e = h >> 10 & 31;
  float v = e ? 1 + m : m;
  for (int k = 0; k < e - 15; k++) v *= 2;
  for (int k = 0; k < 15 - (e ? e : 1); k++) v /= 2;
  return h >> 15 ? -v : v;
}
static void causal() {
  int S = pickn("S", 0, 1, 5), past = pickn("past", 0, 0, 3);
  if (S == 5) S = 10;                        // vector stores of eight
  if (S == 4 && past == 3) past = 9;
  bool f16 = pickn("dt", 0, 0, 1), win = pickn("win", 0, 0, 1);
  int W = win ? (int)pickn("W", 0, 1, 3) : 0;
  if (W == 3 && S == 10) W = 9;
  int D = S + past;
  I s{(int)pickn("B", 0, 1, S > 4 ? 1 : 2), (int)pickn("H", 0, 1, 2), S, D}, i(4, 0);
  DataTypes t = f16 ? kFloat16 : kFloat32;
  Tensor x = input(0, s, t);
  Tensor y = run<cpu::CPUCausalMaskOp>(aops::CausalMaskOpOptions{.sliding_window = win, .window_size = W}, {x})[0];
  shape_is(y, s);
  do {
    int q = past + i[2], k = i[3];           // query position, key position
    bool see = k <= q && (!win || k > q - W);
    if (see) kx_check(same(at(y, i), at(x, i), es(t)), "a visible score is kept");
    else if (f16) { uint16_t v; memcpy(&v, at(y, i), 2); v = kx_conc(v); kx_check((v & 0x7c00) != 0x7c00 && half(v) <= -60000.f, "a hidden score is masked"); }
    else { uint32_t v; memcpy(&v, at(y, i), 4); v = kx_conc(v); float f; memcpy(&f, &v, 4); kx_check(f <= -1e9f, "a hidden score is masked"); }
  } while (next(i, s));
  kx_reach("causal");
}
template<class T>
static bool before(T a, T b, bool down) { return down ? a > b : a < b; }
template<class T>
static void fill(Tensor& x, size_t n) {
  for (size_t j = 0; j < n; j++) {
    T v;
    kx_bytes(&v, sizeof(T), nm("v", j).c_str());
    if constexpr (std::is_same_v<T, float>) { kx_assume(v == v); kx_assume(v < 1e30f && v > -1e30f); }
    x.ptr<T>()[j] = v;
  }
}
static I sortshape(int& d, int maxax, bool more, bool lite) {
  if (lite && !FULL) { d = pickn("dim", 0, 0, 1); return {2, 2}; }
  int R = pickn("rank", 0, 1, 3);
  d = pickn("dim", 0, 0, R - 1);
  I s(R, 1);
  s[d] = R == 1 ? pickn("ax", 0, 1, maxax + more) : pickn("ax", 0, 1, maxax);
  if (R > 1 && s[d] < 4) s[(d + pickn("oth", 0, 1, R - 1)) % R] = s[d] == 3 && maxax > 3 ? 1 + pickn("two", 0, 0, 1) : 2;
  return s;
}
template<class T>
static void topk(DataTypes t) {
  int d;
  I s = sortshape(d, MAXA, sizeof(T) == 1 || FULL, sizeof(T) == 2 || std::is_same_v<T, int32_t>), i(s.size(), 0);
  int n = s[d], k = pickn("k", 0, 1, n), R = s.size();
  bool neg = FULL ? pickn("negdim", 0, 0, 1) : R % 2, big = pickn("largest", 0, 0, 1), sorted = pickn("sorted", 0, 0, 1);
  Tensor x = Tensor::empty(s, t).alloc();
  fill<T>(x, prod(s));
  auto r = x.topk(k, neg ? d - R : d, big, sorted);
  I o = s;
  o[d] = 1;
  { I want = s; want[d] = k; shape_is(r[0], want); shape_is(r[1], want); }
  do {
    std::vector<char> sel(n, 0);
    T last{}, worst{};
    for (int q = 0; q < k; q++) {
      I j = i;
      j[d] = q;
      int w = *(int32_t*)at(r[1], j);
      kx_check(w >= 0 && w < n, "topk() index in range");
      w = kx_conc((uint64_t)(int64_t)w);
      kx_check(!sel[w], "topk() names an element once");
      sel[w] = 1;
      I e = i;
      e[d] = w;
      T v = *(T*)at(r[0], j);
      kx_check(same(at(r[0], j), at(x, e), sizeof(T)), "topk() value is the element its index names");
      if (sorted && q) kx_check(!before(v, last, big), "topk() is sorted");
      last = v;
      if (q == 0 || before(worst, v, big)) worst = v;
    }
    for (int q = 0; q < n; q++) {
      I e = i;
      e[d] = q;
      if (!sel[q]) kx_check(!before(*(T*)at(x, e), worst, big), "no element left out beats one topk() took");
    }
  } while (next(i, o));
  kx_reach("topk");
}
template<class T>
static void argsort(DataTypes t) {
  int d;
  I s = sortshape(d, MAXA, sizeof(T) == 1 || FULL, sizeof(T) == 2 || std::is_same_v<T, int32_t>), i(s.size(), 0);
  int n = s[d], R = s.size();
  bool neg = FULL ? pickn("negdim", 0, 0, 1) : R % 2, down = pickn("down", 0, 0, 1);
  Tensor x = Tensor::empty(s, t).alloc();
  fill<T>(x, prod(s));
  Tensor y = x.argsort(neg ? d - R : d, down);
  shape_is(y, s);
  I o = s;
  o[d] = 1;
  do {
    std::vector<char> sel(n, 0);
    T last{};
    for (int q = 0; q < n; q++) {
      I j = i;
      j[d] = q;
      int w = *(int32_t*)at(y, j);
      kx_check(w >= 0 && w < n, "argsort() index in range");
      w = kx_conc((uint64_t)(int64_t)w);
      kx_check(!sel[w], "argsort() is a permutation");
      sel[w] = 1;
      I e = i;
      e[d] = w;
      T v = *(T*)at(x, e);
      if (q) kx_check(!before(v, last, down), "argsort() orders the values");
      last = v;
    }
  } while (next(i, o));
  kx_reach("argsort");
}
void harness() {
  switch (kx_pick("op", OPLO, OPHI)) {
    case 0: gather(); break;
    case 1: index(); break;
    case 2: scatter(); break;
    case 3: causal(); break;
    case 4: switch (pickn("ty", 0, 0, 3)) { case 0: topk<float>(kFloat32); break; case 1: topk<int32_t>(kInt32); break; case 2: topk<int16_t>(kInt16); break; default: topk<int8_t>(kInt8); } break;
    default: switch (pickn("ty", 0, 0, 3)) { case 0: argsort<float>(kFloat32); break; case 1: argsort<int32_t>(kInt32); break; case 2: argsort<int16_t>(kInt16); break; default: argsort<int8_t>(kInt8); }
  }
}
