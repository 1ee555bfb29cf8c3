// Model files: MODE 0 writes and reads back arbitrary tensors, MODE 1 reads a
// file of arbitrary header and descriptor fields, MODE 2 a sound file of another writer.
#include "ops.h"
#include <fstream>
#include "mllm/core/OpTypes.hpp"
#include "mllm/core/ParameterFile.hpp"
#include "mllm/core/aops/SliceOp.hpp"
#include "mllm/core/schema/ModelFileV1.hpp"
#include "mllm/core/schema/ModelFileV2.hpp"
#ifndef RANK
#define RANK 1
#define DTS 0
#endif
#ifndef NT
#define NT 1
#endif
#ifndef ND
#define ND 1
#endif
namespace mllm {
std::vector<Tensor> kx_op(OpTypes t, const BaseOpOptionsBase& o, const std::vector<Tensor>& in) {
  if (t == OpTypes::kSlice) return run<aops::SliceOp>(o.as<aops::SliceOpOptions>(), in);
  kx_fail("unexpected operator");
  return {};
}
}
using V1 = ParameterFileIOImpl<kCPU, ModelFileVersion::kV1>;
using V2 = ParameterFileIOImpl<kCPU, ModelFileVersion::kV2>;
static const char* FILE_ = "kx-model.mllm";
static size_t payload(const Tensor& t) { return t.numel() / lanesOfType(t.dtype()) * bytesOfType(t.dtype()); }
static bool same(const char* a, const char* b, size_t n) {
  bool ok = true;
  for (size_t i = 0; i < n; i++) ok &= a[i] == b[i];
  return ok;
}
static bool eq(const std::string& a, const std::string& b) { return a.size() == b.size() && same(a.data(), b.data(), a.size()); }
static Tensor arb(int k) {
  static const DataTypes T[] = {kFloat32, kFloat16, kInt8, kInt64, kGGUF_Q4_0, kGGUF_Q8_0};
  DataTypes dt = T[pickn("dt", k, 0, DTS)];
  int rank = pickn("rank", k, 1, RANK);
  I s = pickshape(k ? "n1" : "n0", rank, 2);
  if (lanesOfType(dt) > 1) s[rank - 1] = lanesOfType(dt) * s[rank - 1];
  size_t n = prod(s) / lanesOfType(dt) * bytesOfType(dt);
  if (lanesOfType(dt) == 1 && pickn("view", k, 0, 1)) {     // the middle of a larger storage
    Tensor x = Tensor::empty(I{(int)prod(s) + 2}, dt).alloc();
    kx_bytes(x.ptr<char>(), n + 2 * bytesOfType(dt), nm("x", k).c_str());
    I st(rank);
    int a = 1;
    for (int d = rank - 1; d >= 0; d--) { st[d] = a; a *= s[d]; }
    return Tensor(TensorViewImpl::create(1, s, st, x.impl()->storage()));
  }
  Tensor x = Tensor::empty(s, dt).alloc();
  kx_bytes(x.ptr<char>(), n, nm("x", k).c_str());
  return x;
}
static void roundtrip() {
  bool v2 = pickn("v2", 0, 0, 1), mm = pickn("mmap", 0, 0, 1);
  int n = pickn("tensors", 0, 0, NT);
  auto p = ParameterFile::create(v2 ? ModelFileVersion::kV2 : ModelFileVersion::kV1);
  std::vector<std::string> names;
  std::vector<Tensor> ts;
  for (int k = 0; k < n; k++) {
    std::string s;
    if (k == 0 && pickn("longname", k, 0, 1)) { s = std::string(pickn("len", k, 0, 1) ? 255 : 200, 'w'); }
    else {
      int len = pickn("namelen", k, 1, 2);
      for (int i = 0; i < len; i++) s += (char)kx_u(nm(k ? "c1" : "c0", i).c_str(), 1, 255);
    }
    for (auto& o : names) kx_assume(!eq(o, s));
    Tensor t = arb(k);
    if (pickn("named", k, 0, 1)) t.setName(s);              // the tensor's own name may differ from its key
    names.push_back(s);
    ts.push_back(t);
    p->push(s, t);
  }
  if (v2) V2::write(p, FILE_); else V1::write(p, FILE_);
  auto q = v2 ? V2::read(FILE_, mm) : V1::read(FILE_, mm);
  int cnt = 0;
  for (auto it = q->begin(); it != q->end(); ++it) {
    cnt++;
    bool found = false;
    for (int k = 0; k < n; k++) {
      if (!eq(it->first, names[k])) continue;
      found = true;
      const Tensor& g = it->second;
      kx_check(g.dtype() == ts[k].dtype(), "a tensor keeps its type");
      if (v2) kx_check(g.shape() == ts[k].shape(), "a tensor keeps its shape");
      else kx_check(g.numel() == ts[k].numel(), "a tensor keeps its element count");
      kx_check(g.isContiguous(), "a loaded tensor is dense");
      const char* a = g.ptr<char>();
      const char* b = (char*)ts[k].impl()->storage()->ptr_ + ts[k].impl()->storageOffset() * bytesOfType(ts[k].dtype());
      kx_check(same(a, b, payload(ts[k])), "a tensor keeps its data");
    }
    kx_check(found, "every loaded name was stored");
  }
  kx_check(cnt == n, "every stored tensor is loaded");
  kx_reach("round trip");
}
static void out(std::ofstream& f, const void* p, size_t n) { f.write((const char*)p, n); }
static void loaded(const ParameterFile::ptr_t& q, bool mm, size_t size) {
  kx_reach("accepted");
  for (auto it = q->begin(); it != q->end(); ++it) {
    const Tensor& t = it->second;
    size_t n = 1;
    for (int d : t.shape()) { kx_check(d >= 0, "no negative extents"); if (d == 0) n = 0; }
    if (n) for (int d : t.shape()) { n *= d; kx_check(n < (1ul << 32), "the extents fit the file"); }
    n = n / lanesOfType(t.dtype()) * bytesOfType(t.dtype());
    kx_check(n <= size, "a tensor is not larger than its file");
    if (mm && n) {
      char* base = (char*)q->getMappedFile()->data();
      char* a = t.ptr<char>();
      kx_check((a >= base) & (a + n <= base + size), "a mapped tensor lies inside the file");
    }
  }
}
static void robust() {
  bool mm = pickn("mmap", 0, 0, 1);
  size_t size;
  {
    std::ofstream f(FILE_, std::ios::binary);
#if VER == 1
    // header, one or two descriptors with a one-character name, 8 bytes of data; cut somewhere
    int nd = pickn("desc", 0, 1, ND), full = 12 + nd * 25 + 8;
    std::vector<char> b(full, 0);
    int32_t magic = MLLM_MODEL_FILE_V1_MAGIC_NUMBER;
    std::memcpy(&b[0], &magic, 4);
    kx_bytes(&b[4], 8, "descsize");
    for (int k = 0; k < nd; k++) {
      char* d = &b[12 + k * 25];
      kx_bytes(d, 4, nm("namelen", k).c_str());
      d[4] = 'a' + k;
      kx_bytes(d + 5, 16, nm("range", k).c_str());
      d[21] = pickn("dtype", k, 0, 2);
    }
    size = pickn("cut", 0, 0, 3);
    size = size == 0 ? full : size == 1 ? full - 8 : size == 2 ? 20 : 6;
    f.write(b.data(), size);
#else
    int nd = pickn("desc", 0, 1, ND);
    ModelFileV2Descriptor h{};
    h.magic_number = MLLM_MODEL_FILE_V2_MAGIC_NUMBER;
    h.version = MLLM_MODEL_FILE_V2_VERSION;
    kx_bytes(&h.num_params, 4, "num");
    kx_bytes(&h.params_desc_offset, 8, "descoff");
    if (pickn("place", 0, 0, 1)) kx_assume(h.params_desc_offset == sizeof h);
    std::vector<char> b(sizeof h + nd * sizeof(ModelFileV2ParamsDescriptor) + 16, 0);
    std::memcpy(&b[0], &h, sizeof h);
    for (int k = 0; k < nd; k++) {
      ModelFileV2ParamsDescriptor d{};
      d.parameter_type = pickn("dtype", k, 0, 1) ? kFloat32 : kGGUF_Q4_0;
      kx_bytes(&d.parameter_size, 16, nm("range", k).c_str());
      static const size_t lens[] = {1, 2, 17, ~0ul};
      d.shape_len = lens[pickn("rank", k, 0, 3)];
      kx_bytes(d.shape, 8, nm("shape", k).c_str());
      std::memset(d.name, 'a' + k, 256);
      if (pickn("name", k, 0, 1)) d.name[1] = 0;
      std::memcpy(&b[sizeof h + k * sizeof d], &d, sizeof d);
    }
    size = pickn("cut", 0, 0, 3);
    size = size == 0 ? b.size() : size == 1 ? b.size() - 17 : size == 2 ? 540 : 500;
    f.write(b.data(), size);
#endif
  }
  kx_allow_exit(1);
  ParameterFile::ptr_t q;
  bool refused = false;
  try {
#if VER == 1
    q = V1::read(FILE_, mm);
#else
    q = V2::read(FILE_, mm);
#endif
  } catch (const std::exception&) { refused = true; }
  kx_allow_exit(0);
  if (!refused) loaded(q, mm, size);
}
// a sound file of some other writer: payloads anywhere behind the descriptors, in any
// order, with gaps; version 2 also with data between the header and the descriptors
static void foreign() {
  static const DataTypes T[] = {kFloat32, kInt8, kFloat16};
  bool v2 = pickn("v2", 0, 0, 1), mm = pickn("mmap", 0, 0, 1);
  int nd = pickn("desc", 0, 1, NT), extra = v2 ? 8 * pickn("extra", 0, 0, 1) : 0;
  size_t head = v2 ? sizeof(ModelFileV2Descriptor) + extra + nd * sizeof(ModelFileV2ParamsDescriptor) : 12 + nd * 25;
  const size_t ROOM = 16;
  std::vector<char> b(head + ROOM, 0);
  kx_bytes(&b[head], ROOM, "data");
  int n[NT], off[NT];
  DataTypes dt[NT];
  for (int k = 0; k < nd; k++) {
    dt[k] = T[pickn("dtype", k, 0, 2)];
    n[k] = pickn("count", k, 1, 2);
    off[k] = 4 * pickn("off", k, 0, 2);
  }
  if (v2) {
    ModelFileV2Descriptor h{};
    h.magic_number = MLLM_MODEL_FILE_V2_MAGIC_NUMBER;
    h.version = MLLM_MODEL_FILE_V2_VERSION;
    h.num_params = nd;
    h.params_desc_offset = sizeof h + extra;
    std::memcpy(&b[0], &h, sizeof h);
  } else {
    int32_t magic = MLLM_MODEL_FILE_V1_MAGIC_NUMBER;
    uint64_t z = nd * 25;
    std::memcpy(&b[0], &magic, 4);
    std::memcpy(&b[4], &z, 8);
  }
  for (int k = 0; k < nd; k++) {
    uint64_t len = n[k] * bytesOfType(dt[k]), at = head + off[k];
    if (v2) {
      ModelFileV2ParamsDescriptor d{};
      d.parameter_id = k;
      d.parameter_type = dt[k];
      d.parameter_size = len;
      d.parameter_offset = at;
      d.shape_len = 1;
      d.shape[0] = n[k];
      d.name[0] = 'a' + k;
      std::memcpy(&b[sizeof(ModelFileV2Descriptor) + extra + k * sizeof d], &d, sizeof d);
    } else {
      char* d = &b[12 + k * 25];
      d[0] = 1;
      d[4] = 'a' + k;
      std::memcpy(d + 5, &len, 8);
      std::memcpy(d + 13, &at, 8);
      d[21] = dt[k];
    }
  }
  {
    std::ofstream f(FILE_, std::ios::binary);
    f.write(b.data(), b.size());
  }
  auto q = v2 ? V2::read(FILE_, mm) : V1::read(FILE_, mm);
  int cnt = 0;
  for (auto it = q->begin(); it != q->end(); ++it) cnt++;
  kx_check(cnt == nd, "every parameter of the file is loaded");
  for (int k = 0; k < nd; k++) {
    std::string name(1, 'a' + k);
    kx_check(q->has(name), "a parameter is found by its name");
    Tensor t = q->pull(name);
    kx_check(t.dtype() == dt[k] && (int)t.numel() == n[k], "a parameter has the type and size of its descriptor");
    kx_check(same(t.ptr<char>(), &b[head + off[k]], n[k] * bytesOfType(dt[k])), "a parameter has the bytes its descriptor names");
  }
  kx_reach("foreign file");
}
void harness() {
#if MODE == 0
  roundtrip();
#elif MODE == 2
  foreign();
#else
  robust();
#endif
}
