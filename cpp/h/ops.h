// shared by the tensor harnesses: real Tensor / op code on harness-chosen tensors
#pragma once
#include "kx.h"
#include <cstring>
#include <string>
#include <vector>
#include "mllm/core/Tensor.hpp"
#include "mllm/core/TensorStorage.hpp"
#include "mllm/core/TensorViewImpl.hpp"
#include "mllm/engine/Context.hpp"
using namespace mllm;
using I = std::vector<int32_t>;
static inline std::string nm(const char* a, int i) { return std::string(a) + char('0' + i / 10) + char('0' + i % 10); }
static inline uint64_t pickn(const char* a, int i, uint64_t lo, uint64_t hi) { return kx_pick(nm(a, i).c_str(), lo, hi); }
template<class OP, class OPT>
static std::vector<Tensor> run(const OPT& o, const std::vector<Tensor>& in) {
  OP op(o);
  std::vector<Tensor> out;
  op.reshape(in, out);
  op.setup(in, out);
  op.forward(in, out);
  return out;
}
static inline size_t prod(const I& s) { size_t n = 1; for (auto d : s) n *= d; return n; }
// next index in row-major order; false at the end
static inline bool next(I& i, const I& s) {
  for (int d = (int)s.size() - 1; d >= 0; d--) { if (++i[d] < s[d]) return true; i[d] = 0; }
  return false;
}
static inline I pickshape(const char* n, int rank, int maxd) {
  I s(rank);
  for (int d = 0; d < rank; d++) s[d] = pickn(n, d, 1, maxd);
  return s;
}
// dense tensor of arbitrary bytes
static inline Tensor dense(const I& s, DataTypes t, const char* name) {
  Tensor x = Tensor::empty(s, t).alloc();
  kx_bytes(x.ptr<char>(), prod(s) * bytesOfType(t), name);
  return x;
}
// strided view of arbitrary bytes: each dimension gets its own step and
// leading gap, so neither the offset nor the strides are those of a dense tensor
static inline Tensor strided(const I& s, DataTypes t, const char* name, int off, const I& step) {
  I big = s;
  for (size_t d = 0; d < s.size(); d++) big[d] = s[d] * step[d];
  Tensor x = Tensor::empty(I{(int)prod(big) + off}, t).alloc();
  kx_bytes(x.ptr<char>(), (prod(big) + off) * bytesOfType(t), name);
  I st(s.size());
  int acc = 1;
  for (int d = (int)s.size() - 1; d >= 0; d--) { st[d] = acc * step[d]; acc *= big[d]; }
  return Tensor(TensorViewImpl::create(off, s, st, x.impl()->storage()));
}
// element of a tensor through its own strides and offset (oracle side: plain arithmetic)
template<class T>
static inline T* elt(const Tensor& t, const I& i) {
  auto st = t.impl()->stride();
  int64_t o = t.impl()->storageOffset();
  for (size_t d = 0; d < i.size(); d++) o += (int64_t)i[d] * st[d];
  return (T*)t.impl()->storage()->ptr_ + o;
}
template<class T>
static inline T row(const Tensor& t, const I& s, const I& i) {  // output is dense: row-major position
  size_t o = 0;
  for (size_t d = 0; d < s.size(); d++) o = o * s[d] + i[d];
  return ((T*)t.impl()->storage()->ptr_)[o];
}
