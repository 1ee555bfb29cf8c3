// kx: symbolic executor for LLVM IR.  Executes a linked bitcode module from
// @harness; scalars are concrete bit-vectors or z3 bit-vector terms, memory is
// a set of concrete-address objects with per-byte symbolic contents.  Every
// branch on a symbolic condition and every kx_check asks z3; when both sides
// of a branch are feasible the process forks and each side is explored.
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>

#include <atomic>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <csignal>
#include <functional>
#include <optional>

using namespace llvm;
using std::string;
using std::vector;

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- shared state
struct Shared {
  std::atomic<int> running;
  std::atomic<int> procs;
  std::atomic<int> stop;
  std::atomic<long> paths, infeasible, branches, queries, sat, unsat, checks, trivial, check_queries, incomplete, unknown, forks, instrs, rejected;
  std::atomic<long> solver_us;
  std::atomic<int> nviol;
  std::atomic<int> nsample;
  std::atomic<int> nlimit;
  std::atomic<long> reach[64];
  unsigned char fn[1 << 16];
};
static Shared* S;
static char reach_names[64][64];
static double deadline;
static int max_par = 8;
static long max_instr = 400000000L;
static string out_prefix;
static int max_viol = 3;
static bool verbose = false;
static unsigned solver_timeout_rlimit = 40000000;
static int nsamples_wanted = 6;

[[noreturn]] static void finish(const char* why);

// ---------------------------------------------------------------- z3
static Z3_context Z;
static Z3_ast and2(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return Z3_mk_and(Z, 2, v); }
static Z3_ast or2(Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return Z3_mk_or(Z, 2, v); }
static Z3_solver SOL;
static Z3_model MODEL = nullptr;

static Z3_sort bvs(unsigned w) {
  static std::unordered_map<unsigned, Z3_sort> m;
  auto& s = m[w];
  if (!s) s = Z3_mk_bv_sort(Z, w);
  return s;
}

struct V {
  Z3_ast e = nullptr;  // symbolic term (bv), or null
  APInt c;             // concrete value
  vector<V> el;        // aggregate / vector elements
  V() {}
  V(unsigned w, uint64_t v) : c(w, v) {}
  V(APInt a) : c(std::move(a)) {}
  bool sym() const { return e != nullptr; }
  unsigned w() const { return c.getBitWidth(); }
  uint64_t u() const { return c.getZExtValue(); }
};

static V mksym(Z3_ast e, unsigned w) {
  V v;
  v.c = APInt(w, 0);
  v.e = e;
  return v;
}

static Z3_ast num(const APInt& a) {
  if (a.getBitWidth() <= 64) return Z3_mk_unsigned_int64(Z, a.getZExtValue(), bvs(a.getBitWidth()));
  SmallString<64> s;
  a.toStringUnsigned(s, 10);
  return Z3_mk_numeral(Z, s.c_str(), bvs(a.getBitWidth()));
}
static Z3_ast ast(const V& v) { return v.e ? v.e : num(v.c); }

static APInt numval(Z3_ast a, unsigned w) {
  uint64_t u;
  if (w <= 64 && Z3_get_numeral_uint64(Z, a, &u)) return APInt(w, u);
  return APInt(w, Z3_get_numeral_string(Z, a), 10);
}

static V simp(Z3_ast e, unsigned w) {
  e = Z3_simplify(Z, e);
  if (Z3_get_ast_kind(Z, e) == Z3_NUMERAL_AST) return V(numval(e, w));
  return mksym(e, w);
}

// ---------------------------------------------------------------- inputs
struct Input {
  string name;
  unsigned w;
  Z3_ast e;
};
static vector<Input> inputs;
static std::unordered_map<string, int> input_seen;
static string uniq(const string& n) {
  int k = input_seen[n]++;
  return k ? n + "#" + std::to_string(k) : n;
}

static bool check_with(Z3_ast extra, Z3_model* m) {
  if (S->stop) finish("stop");
  if (now() > deadline) finish("deadline");
  double t0 = now();
  Z3_lbool r;
  S->queries++;
  if (extra) {
    Z3_solver_push(Z, SOL);
    Z3_solver_assert(Z, SOL, extra);
  }
  r = Z3_solver_check(Z, SOL);
  if (r == Z3_L_TRUE && m) {
    *m = Z3_solver_get_model(Z, SOL);
    Z3_model_inc_ref(Z, *m);
  }
  if (extra) Z3_solver_pop(Z, SOL, 1);
  if (r == Z3_L_UNDEF) {
    // retry with a fresh non-incremental solver
    Z3_solver s2 = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, s2);
    Z3_ast_vector as = Z3_solver_get_assertions(Z, SOL);
    Z3_ast_vector_inc_ref(Z, as);
    for (unsigned i = 0; i < Z3_ast_vector_size(Z, as); i++) Z3_solver_assert(Z, s2, Z3_ast_vector_get(Z, as, i));
    if (extra) Z3_solver_assert(Z, s2, extra);
    Z3_params p = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), solver_timeout_rlimit * 4);
    Z3_solver_set_params(Z, s2, p);
    r = Z3_solver_check(Z, s2);
    if (r == Z3_L_TRUE && m) {
      *m = Z3_solver_get_model(Z, s2);
      Z3_model_inc_ref(Z, *m);
    }
  }
  S->solver_us += (long)((now() - t0) * 1e6);
  if (r == Z3_L_TRUE) { S->sat++; return true; }
  if (r == Z3_L_FALSE) { S->unsat++; return false; }
  S->unknown++;
  finish("solver gave up");
}

static bool eval_true(Z3_model m, Z3_ast c) {
  Z3_ast r;
  if (!Z3_model_eval(Z, m, c, true, &r)) return false;
  return Z3_get_bool_value(Z, r) == Z3_L_TRUE;
}
static Z3_model model() {
  if (!MODEL) {
    if (!check_with(nullptr, &MODEL)) { S->infeasible++; finish(nullptr); }
  }
  return MODEL;
}
static void add(Z3_ast c) {
  Z3_solver_assert(Z, SOL, c);
  if (MODEL && !eval_true(MODEL, c)) MODEL = nullptr;
}
static APInt model_val(Z3_model m, Z3_ast e, unsigned w) {
  Z3_ast r;
  Z3_model_eval(Z, m, e, true, &r);
  r = Z3_simplify(Z, r);
  return numval(r, w);
}

// ---------------------------------------------------------------- fork
static bool am_slot = true;  // this process occupies a parallel slot

// returns true in the child
static bool do_fork() {
  if (S->stop) finish("stop");
  if (now() > deadline) finish("deadline");
  S->forks++;
  fflush(stdout);
  int r = S->running.load();
  bool par = false;
  while (r < max_par) {
    if (S->running.compare_exchange_weak(r, r + 1)) { par = true; break; }
  }
  pid_t p = fork();
  if (p < 0) {
    if (par) S->running--;
    S->incomplete++;
    return false;
  }
  if (p == 0) {
    S->procs++;
    am_slot = true;
    return true;
  }
  if (!par) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    S->running++;  // the child gave the slot back
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) S->incomplete++;
  }
  return false;
}

static void reap() {
  int st;
  pid_t p;
  while ((p = waitpid(-1, &st, 0)) > 0 || (p < 0 && errno == EINTR)) {
    if (p > 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) S->incomplete++;
  }
}

static long instr_count = 0;
static string jstr(const string& s) {
  string o = "\"";
  for (char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if ((unsigned char)ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}
static string inputs_json(Z3_model m) {
  string o = "{";
  for (size_t i = 0; i < inputs.size(); i++) {
    if (i) o += ", ";
    SmallString<32> s;
    model_val(m, inputs[i].e, inputs[i].w).zextOrTrunc(64).toStringUnsigned(s, 10);
    o += jstr(inputs[i].name) + ": " + string(s.str());
  }
  return o + "}";
}
static void append(const string& file, const string& line) {
  int fd = open(file.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
  string l = line + "\n";
  if (write(fd, l.data(), l.size()) < 0) {}
  close(fd);
}

static pid_t root_pid;
static void finish(const char* why) {
  S->instrs += instr_count;
  if (why) S->incomplete++;
  if (why && verbose) fprintf(stderr, "[path incomplete: %s]\n", why);
  S->running--;
  reap();
  if (getpid() == root_pid) throw 0;
  _exit(0);
}
[[noreturn]] static void path_done(bool rejected = false) {
  S->paths++;
  if (rejected) S->rejected++;
  if (S->nsample.fetch_add(1) < nsamples_wanted) {
    Z3_model m = model();
    append(out_prefix + ".samples", inputs_json(m));
  }
  finish(nullptr);
}
static string where();
[[noreturn]] static void violation(const string& label, Z3_model m, const string& detail = "") {
  append(out_prefix + ".viol", "{\"label\": " + jstr(label) + ", \"inputs\": " + inputs_json(m) + ", \"detail\": " + jstr(detail.empty() ? where() : detail + " at " + where()) + "}");
  S->paths++;
  if (S->nviol.fetch_add(1) + 1 >= max_viol) S->stop = 1;
  finish(nullptr);
}

// ---------------------------------------------------------------- branching
static Z3_ast mknot(Z3_ast c) { return Z3_mk_not(Z, c); }

static bool branch_bool(Z3_ast c) {
  c = Z3_simplify(Z, c);
  Z3_lbool b = Z3_get_bool_value(Z, c);
  if (b == Z3_L_TRUE) return true;
  if (b == Z3_L_FALSE) return false;
  S->branches++;
  bool v = eval_true(model(), c);
  Z3_ast other = v ? mknot(c) : c;
  Z3_model om = nullptr;
  if (check_with(other, &om)) {
    if (do_fork()) {
      Z3_solver_assert(Z, SOL, other);
      MODEL = om;
      return !v;
    }
    Z3_solver_assert(Z, SOL, v ? c : mknot(c));
    return v;
  }
  Z3_solver_assert(Z, SOL, v ? c : mknot(c));
  return v;
}
static Z3_ast is1(const V& v) { return Z3_mk_eq(Z, ast(v), Z3_mk_unsigned_int64(Z, 1, bvs(1))); }
static V frombool(Z3_ast b) {
  return simp(Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, bvs(1)), Z3_mk_unsigned_int64(Z, 0, bvs(1))), 1);
}
static bool branch(const V& v) {
  if (!v.sym()) return v.c.getBoolValue();
  return branch_bool(is1(v));
}
// fork until concrete
static APInt conc(const V& v) {
  if (!v.sym()) return v.c;
  while (true) {
    APInt x = model_val(model(), v.e, v.w());
    if (branch_bool(Z3_mk_eq(Z, v.e, num(x)))) return x;
  }
}

// ---------------------------------------------------------------- memory
struct SymByte {
  Z3_ast e;       // whole term
  unsigned w;     // its width in bits
  unsigned idx;   // byte index in it
};
struct Obj {
  uint64_t base, size;
  vector<uint8_t> data;
  std::unordered_map<uint64_t, SymByte> sym;
  char kind;  // h heap, s stack, g global, f function, n new, a new[]
  bool live = true, ro = false;
  string name;
};
static std::map<uint64_t, Obj*> mem;
static uint64_t next_addr = 0x10000000ULL;

static Obj* mkobj(uint64_t size, char kind, const string& name, uint64_t align = 16) {
  if (size > (1ULL << 31)) return nullptr;
  if (align < 16) align = 16;
  next_addr = (next_addr + align - 1) / align * align;
  Obj* o = new Obj;
  o->base = next_addr;
  o->size = size;
  o->data.assign(size, kind == 'g' ? 0 : 0xA5);
  o->kind = kind;
  o->name = name;
  mem[o->base] = o;
  next_addr += size + 4096;
  next_addr = (next_addr + 63) / 64 * 64;
  return o;
}
static Obj* last_obj = nullptr;
static Obj* findobj(uint64_t a) {
  if (last_obj && last_obj->live && a >= last_obj->base && a < last_obj->base + last_obj->size) return last_obj;
  auto it = mem.upper_bound(a);
  if (it == mem.begin()) return nullptr;
  --it;
  Obj* o = it->second;
  if (a >= o->base + o->size && !(o->size == 0 && a == o->base)) return nullptr;
  last_obj = o;
  return o;
}

[[noreturn]] static void memerr(const string& what, uint64_t a) {
  string d;
  auto it = mem.upper_bound(a);
  if (it != mem.begin()) {
    --it;
    Obj* o = it->second;
    char b[160];
    snprintf(b, 160, " (address %#lx, %ld bytes past the start of %ld-byte object %s)", (long)a, (long)(a - o->base), (long)o->size, o->name.substr(0, 40).c_str());
    d = b;
  }
  violation("memory error: " + what, model(), what + d);
}

static Obj* resolve(uint64_t a, uint64_t n, bool wr) {
  if (a < 4096) memerr("null pointer access", a);
  Obj* o = findobj(a);
  if (!o) memerr(wr ? "write outside any object" : "read outside any object", a);
  if (!o->live) memerr("use after free", a);
  if (a + n > o->base + o->size) memerr(wr ? "write past the end of an object" : "read past the end of an object", a);
  if (o->kind == 'f') memerr("access to code", a);
  if (wr && o->ro) memerr("write to a constant", a);
  return o;
}

static Z3_ast byte_of(const SymByte& b) {
  if (b.w == 8) return b.e;
  return Z3_mk_extract(Z, b.idx * 8 + 7, b.idx * 8, b.e);
}
static Z3_ast objbyte(Obj* o, uint64_t off) {
  auto it = o->sym.find(off);
  if (it != o->sym.end()) return byte_of(it->second);
  return Z3_mk_unsigned_int64(Z, o->data[off], bvs(8));
}

static V load_bytes(Obj* o, uint64_t off, unsigned n, unsigned bits) {
  if (o->sym.empty()) {
    fast:
    if (n <= 8) {
      uint64_t v = 0;
      memcpy(&v, &o->data[off], n);
      return V(APInt(n * 8, v).trunc(bits));
    }
    vector<uint64_t> ws((n + 7) / 8, 0);
    memcpy(ws.data(), &o->data[off], n);
    return V(APInt(n * 8, ws).zextOrTrunc(bits));
  }
  bool any = false;
  for (unsigned i = 0; i < n && !any; i++) any = o->sym.count(off + i);
  if (!any) goto fast;
  // one whole term?
  auto it = o->sym.find(off);
  if (it != o->sym.end() && it->second.idx == 0 && it->second.w == n * 8) {
    bool whole = true;
    for (unsigned i = 1; i < n && whole; i++) {
      auto j = o->sym.find(off + i);
      whole = j != o->sym.end() && j->second.e == it->second.e && j->second.idx == i;
    }
    if (whole) {
      if (bits == n * 8) return mksym(it->second.e, bits);
      return simp(Z3_mk_extract(Z, bits - 1, 0, it->second.e), bits);
    }
  }
  Z3_ast e = objbyte(o, off);
  for (unsigned i = 1; i < n; i++) e = Z3_mk_concat(Z, objbyte(o, off + i), e);
  if (bits != n * 8) e = Z3_mk_extract(Z, bits - 1, 0, e);
  return simp(e, bits);
}
static void store_bytes(Obj* o, uint64_t off, unsigned n, const V& v0) {
  V v = v0;
  if (v.w() != n * 8) {
    if (v.sym()) v = mksym(Z3_mk_zero_ext(Z, n * 8 - v.w(), v.e), n * 8);
    else v = V(v.c.zext(n * 8));
  }
  if (!v.sym()) {
    if (n <= 8) {
      uint64_t x = v.u();
      memcpy(&o->data[off], &x, n);
    } else {
      memcpy(&o->data[off], v.c.getRawData(), n);
    }
    if (!o->sym.empty())
      for (unsigned i = 0; i < n; i++) o->sym.erase(off + i);
    return;
  }
  for (unsigned i = 0; i < n; i++) {
    if (n == 1) { o->sym[off] = {v.e, 8, 0}; break; }
    o->sym[off + i] = {v.e, n * 8, i};
  }
}

// resolve a symbolic address to one object (forking between objects)
static Obj* resolve_sym(const V& p, unsigned n, bool wr) {
  while (true) {
    APInt a = model_val(model(), p.e, 64);
    uint64_t x = a.getZExtValue();
    Obj* o = x < 4096 ? nullptr : findobj(x);
    if (!o || !o->live || x + n > o->base + o->size) {
      // this very value is a violation; report with the model that has it
      Z3_solver_assert(Z, SOL, Z3_mk_eq(Z, p.e, num(a)));
      resolve(x, n, wr);
      finish("inconsistent resolve");
    }
    Z3_ast lo = num(APInt(64, o->base)), hi = num(APInt(64, o->base + o->size - n));
    Z3_ast in = and2(Z3_mk_bvuge(Z, p.e, lo), Z3_mk_bvule(Z, p.e, hi));
    if (branch_bool(in)) {
      if (wr && o->ro) memerr("write to a constant", x);
      return o;
    }
  }
}
static vector<uint64_t> sym_offsets(const V& p, Obj* o, unsigned n) {
  // candidate offsets: all multiples of the access size when the address is known aligned
  uint64_t stride = 1;
  for (uint64_t s : {16, 8, 4, 2}) {
    if (s > 1 && n % s == 0) {
      Z3_ast d = Z3_mk_bvsub(Z, p.e, num(APInt(64, o->base)));
      Z3_ast r = Z3_mk_eq(Z, Z3_mk_bvurem(Z, d, num(APInt(64, s))), num(APInt(64, 0)));
      r = Z3_simplify(Z, r);
      if (Z3_get_bool_value(Z, r) == Z3_L_TRUE || !check_with(mknot(r), nullptr)) { stride = s; break; }
    }
  }
  vector<uint64_t> offs;
  for (uint64_t k = 0; k + n <= o->size; k += stride) offs.push_back(k);
  return offs;
}
static vector<uint64_t> feasible_offs(const V& p, Obj* o, unsigned n, size_t limit) {
  // enumerate with the solver when the set is small
  vector<uint64_t> res;
  Z3_solver_push(Z, SOL);
  while (res.size() <= limit) {
    S->queries++;
    double t0 = now();
    Z3_lbool r = Z3_solver_check(Z, SOL);
    S->solver_us += (long)((now() - t0) * 1e6);
    if (r != Z3_L_TRUE) { if (r == Z3_L_UNDEF) { res.assign(limit + 1, 0); } break; }
    Z3_model m = Z3_solver_get_model(Z, SOL);
    Z3_model_inc_ref(Z, m);
    uint64_t a = model_val(m, p.e, 64).getZExtValue();
    Z3_model_dec_ref(Z, m);
    res.push_back(a - o->base);
    Z3_solver_assert(Z, SOL, mknot(Z3_mk_eq(Z, p.e, num(APInt(64, a)))));
  }
  Z3_solver_pop(Z, SOL, 1);
  return res;
}

static V load_mem(const V& p, unsigned n, unsigned bits) {
  if (!p.sym()) {
    uint64_t a = p.u();
    Obj* o = resolve(a, n, false);
    return load_bytes(o, a - o->base, n, bits);
  }
  Obj* o = resolve_sym(p, n, false);
  vector<uint64_t> offs = feasible_offs(p, o, n, 12);
  if (offs.size() > 12) {
    offs = sym_offsets(p, o, n);
    if (offs.size() > 4096) return load_mem(V(conc(p)), n, bits);
  }
  Z3_ast e = nullptr;
  for (uint64_t k : offs) {
    V v = load_bytes(o, k, n, bits);
    if (!e) e = ast(v);
    else e = Z3_mk_ite(Z, Z3_mk_eq(Z, p.e, num(APInt(64, o->base + k))), ast(v), e);
  }
  return simp(e, bits);
}
static void store_mem(const V& p, unsigned n, const V& v) {
  if (!p.sym()) {
    uint64_t a = p.u();
    Obj* o = resolve(a, n, true);
    store_bytes(o, a - o->base, n, v);
    return;
  }
  Obj* o = resolve_sym(p, n, true);
  vector<uint64_t> offs = feasible_offs(p, o, n, 16);
  if (offs.size() > 16) {
    store_mem(V(conc(p)), n, v);
    return;
  }
  for (uint64_t k : offs) {
    V old = load_bytes(o, k, n, n * 8);
    V nv = v;
    if (nv.w() != n * 8) nv = nv.sym() ? mksym(Z3_mk_zero_ext(Z, n * 8 - nv.w(), nv.e), n * 8) : V(nv.c.zext(n * 8));
    store_bytes(o, k, n, simp(Z3_mk_ite(Z, Z3_mk_eq(Z, p.e, num(APInt(64, o->base + k))), ast(nv), ast(old)), n * 8));
  }
}
static void copy_mem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  Obj* so = resolve(s, n, false);
  Obj* d_o = resolve(d, n, true);
  uint64_t so_ = s - so->base, do_ = d - d_o->base;
  vector<std::pair<uint64_t, SymByte>> sb;
  if (!so->sym.empty()) {
    if (so->sym.size() < n) {
      for (auto& kv : so->sym) if (kv.first >= so_ && kv.first < so_ + n) sb.push_back({kv.first - so_, kv.second});
    } else
      for (uint64_t i = 0; i < n; i++) { auto it = so->sym.find(so_ + i); if (it != so->sym.end()) sb.push_back({i, it->second}); }
  }
  memmove(&d_o->data[do_], &so->data[so_], n);
  if (!d_o->sym.empty()) {
    if (d_o->sym.size() < n) {
      for (auto it = d_o->sym.begin(); it != d_o->sym.end();)
        if (it->first >= do_ && it->first < do_ + n) it = d_o->sym.erase(it); else ++it;
    } else
      for (uint64_t i = 0; i < n; i++) d_o->sym.erase(do_ + i);
  }
  for (auto& x : sb) d_o->sym[do_ + x.first] = x.second;
}
static void set_mem(uint64_t d, const V& b, uint64_t n) {
  if (!n) return;
  Obj* o = resolve(d, n, true);
  if (!b.sym()) {
    memset(&o->data[d - o->base], (int)b.u(), n);
    if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) o->sym.erase(d - o->base + i);
  } else
    for (uint64_t i = 0; i < n; i++) store_bytes(o, d - o->base + i, 1, b);
}
static string cstr(const V& p) {
  uint64_t a = conc(p).getZExtValue();
  string r;
  while (true) {
    Obj* o = resolve(a, 1, false);
    if (o->sym.count(a - o->base)) { r += '?'; a++; continue; }
    char ch = o->data[a - o->base];
    if (!ch) break;
    r += ch;
    a++;
  }
  return r;
}

// ---------------------------------------------------------------- module
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function*> faddr;
static std::unordered_map<const Function*, unsigned> fidx;
static vector<Function*> flist;

struct FInfo {
  DenseMap<const Value*, unsigned> slot;
  unsigned n = 0;
};
static std::unordered_map<const Function*, FInfo*> finfo;
static FInfo* info(Function* f) {
  auto& p = finfo[f];
  if (!p) {
    p = new FInfo;
    for (auto& a : f->args()) p->slot[&a] = p->n++;
    for (auto& i : instructions(*f)) p->slot[&i] = p->n++;
  }
  return p;
}

struct Frame {
  Function* f;
  FInfo* fi;
  vector<V> r;
  BasicBlock* bb = nullptr;
  BasicBlock* prev = nullptr;
  BasicBlock::iterator it;
  vector<uint64_t> allocas;
  CallBase* call = nullptr;  // call in the caller frame awaiting our result
  vector<V> va;
};
static vector<Frame*> stack;

static string where() {
  string o;
  int k = 0;
  for (int i = (int)stack.size() - 1; i >= 0 && k < 6; i--) {
    Frame* f = stack[i];
    if (!f->bb) continue;
    auto it = f->it;
    if (it != f->bb->begin()) --it;
    string d = demangle(f->f->getName().str());
    size_t p = d.find('(');
    if (p != string::npos && p > 0) d = d.substr(0, p);
    if (d.size() > 90) d = d.substr(0, 90);
    string line;
    if (it->getDebugLoc()) {
      string fn = it->getDebugLoc()->getFilename().str();
      line = " " + fn + ":" + std::to_string(it->getDebugLoc().getLine());
    }
    o += (k++ ? " < " : "") + d + line;
  }
  return o;
}

[[noreturn]] static void unsupported(const string& s) {
  append(out_prefix + ".unsup", s + " at " + where());
  finish(s.c_str());
}

static V constant(const Constant* c);
static uint64_t tysize(Type* t) { return DL->getTypeStoreSize(t).getFixedValue(); }
static uint64_t tyalloc(Type* t) { return DL->getTypeAllocSize(t).getFixedValue(); }
static unsigned bitw(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  return t->getPrimitiveSizeInBits().getFixedValue();
}
static bool isagg(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }

static V zero(Type* t) {
  if (t->isStructTy()) {
    V v;
    for (unsigned i = 0; i < t->getStructNumElements(); i++) v.el.push_back(zero(t->getStructElementType(i)));
    return v;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    V v;
    v.el.assign(at->getNumElements(), zero(at->getElementType()));
    return v;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    V v;
    v.el.assign(vt->getNumElements(), zero(vt->getElementType()));
    return v;
  }
  if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy()) return V(1, 0);
  return V(APInt(bitw(t), 0));
}

static V loadv(const V& p, Type* t);
static void storev(const V& p, const V& v, Type* t);
static V addoff(const V& p, uint64_t k) {
  if (!k) return p;
  if (!p.sym()) return V(64, p.u() + k);
  return simp(Z3_mk_bvadd(Z, p.e, num(APInt(64, k))), 64);
}
static V loadv(const V& p, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    V v;
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) v.el.push_back(loadv(addoff(p, sl->getElementOffset(i)), st->getElementType(i)));
    return v;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    V v;
    uint64_t es = tyalloc(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) v.el.push_back(loadv(addoff(p, i * es), at->getElementType()));
    return v;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    V v;
    unsigned bits = bitw(vt->getElementType());
    if (bits % 8) {
      V whole = load_mem(p, tysize(t), bits * vt->getNumElements());
      for (unsigned i = 0; i < vt->getNumElements(); i++) {
        if (whole.sym()) v.el.push_back(simp(Z3_mk_extract(Z, i * bits + bits - 1, i * bits, whole.e), bits));
        else v.el.push_back(V(whole.c.extractBits(bits, i * bits)));
      }
      return v;
    }
    for (uint64_t i = 0; i < vt->getNumElements(); i++) v.el.push_back(load_mem(addoff(p, i * bits / 8), bits / 8, bits));
    return v;
  }
  return load_mem(p, tysize(t), bitw(t));
}
static void storev(const V& p, const V& v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) storev(addoff(p, sl->getElementOffset(i)), v.el[i], st->getElementType(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = tyalloc(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) storev(addoff(p, i * es), v.el[i], at->getElementType());
    return;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    unsigned bits = bitw(vt->getElementType());
    if (bits % 8) {
      APInt acc(bits * vt->getNumElements(), 0);
      for (unsigned i = 0; i < vt->getNumElements(); i++) acc.insertBits(conc(v.el[i]), i * bits);
      store_mem(p, tysize(t), V(acc));
      return;
    }
    for (uint64_t i = 0; i < vt->getNumElements(); i++) store_mem(addoff(p, i * bits / 8), bits / 8, v.el[i]);
    return;
  }
  store_mem(p, tysize(t), v);
}

// ---------------------------------------------------------------- operations
static V icmp(CmpInst::Predicate p, const V& a, const V& b) {
  if (!a.sym() && !b.sym()) return V(1, ICmpInst::compare(a.c, b.c, p));
  Z3_ast x = ast(a), y = ast(b), r;
  switch (p) {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break;
    case CmpInst::ICMP_NE: r = mknot(Z3_mk_eq(Z, x, y)); break;
    case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break;
    case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break;
    case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break;
    case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break;
    default: r = Z3_mk_bvsle(Z, x, y); break;
  }
  return frombool(r);
}

static Z3_sort fsort(Type* t) {
  if (t->isFloatTy()) return Z3_mk_fpa_sort_32(Z);
  if (t->isDoubleTy()) return Z3_mk_fpa_sort_64(Z);
  if (t->isHalfTy()) return Z3_mk_fpa_sort_16(Z);
  if (t->isBFloatTy()) return Z3_mk_fpa_sort(Z, 8, 8);
  if (t->isX86_FP80Ty()) unsupported("symbolic x86_fp80");
  unsupported("symbolic float type");
}
static Z3_ast tofp(const V& v, Type* t) { return Z3_mk_fpa_to_fp_bv(Z, ast(v), fsort(t)); }
static V unfp(Z3_ast f, unsigned w) { return simp(Z3_mk_fpa_to_ieee_bv(Z, f), w); }
static const fltSemantics& sem(Type* t) { return t->getFltSemantics(); }

static V fbin(unsigned op, Type* t, const V& a, const V& b) {
  if (!a.sym() && !b.sym()) {
    APFloat x(sem(t), a.c), y(sem(t), b.c);
    switch (op) {
      case Instruction::FAdd: x.add(y, APFloat::rmNearestTiesToEven); break;
      case Instruction::FSub: x.subtract(y, APFloat::rmNearestTiesToEven); break;
      case Instruction::FMul: x.multiply(y, APFloat::rmNearestTiesToEven); break;
      case Instruction::FDiv: x.divide(y, APFloat::rmNearestTiesToEven); break;
      case Instruction::FRem: x.mod(y); break;
    }
    return V(x.bitcastToAPInt());
  }
  Z3_ast rm = Z3_mk_fpa_rne(Z), x = tofp(a, t), y = tofp(b, t), r;
  switch (op) {
    case Instruction::FAdd: r = Z3_mk_fpa_add(Z, rm, x, y); break;
    case Instruction::FSub: r = Z3_mk_fpa_sub(Z, rm, x, y); break;
    case Instruction::FMul: r = Z3_mk_fpa_mul(Z, rm, x, y); break;
    case Instruction::FDiv: r = Z3_mk_fpa_div(Z, rm, x, y); break;
    default: unsupported("symbolic frem");
  }
  return unfp(r, a.w());
}

static V binop(unsigned op, Type* t, const V& a, const V& b) {
  if (t->isVectorTy()) {
    V r;
    for (size_t i = 0; i < a.el.size(); i++) r.el.push_back(binop(op, t->getScalarType(), a.el[i], b.el[i]));
    return r;
  }
  if (t->isFloatingPointTy()) return fbin(op, t, a, b);
  unsigned w = a.w();
  bool divi = op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem;
  if (divi) {
    if (!b.sym()) { if (b.c.isZero()) violation("division by zero", model()); }
    else if (branch_bool(Z3_mk_eq(Z, b.e, num(APInt(w, 0))))) violation("division by zero", model());
  }
  if (!a.sym() && !b.sym()) {
    switch (op) {
      case Instruction::Add: return V(a.c + b.c);
      case Instruction::Sub: return V(a.c - b.c);
      case Instruction::Mul: return V(a.c * b.c);
      case Instruction::UDiv: return V(a.c.udiv(b.c));
      case Instruction::SDiv: return V(a.c.sdiv(b.c));
      case Instruction::URem: return V(a.c.urem(b.c));
      case Instruction::SRem: return V(a.c.srem(b.c));
      case Instruction::Shl: return V(a.c.shl(b.c));
      case Instruction::LShr: return V(a.c.lshr(b.c));
      case Instruction::AShr: return V(a.c.ashr(b.c));
      case Instruction::And: return V(a.c & b.c);
      case Instruction::Or: return V(a.c | b.c);
      case Instruction::Xor: return V(a.c ^ b.c);
    }
  }
  if (op == Instruction::And) {
    if (!a.sym() && a.c.isZero()) return a;
    if (!b.sym() && b.c.isZero()) return b;
  }
  if (op == Instruction::Mul) {
    if (!a.sym() && a.c.isZero()) return a;
    if (!b.sym() && b.c.isZero()) return b;
  }
  if (divi && !b.sym() && b.c.isStrictlyPositive() && b.c.isPowerOf2()) {  // shifts instead of dividers
    unsigned k = b.c.logBase2();
    if (k == 0) return (op == Instruction::UDiv || op == Instruction::SDiv) ? a : V(APInt(w, 0));
    Z3_ast x = ast(a), sh = num(APInt(w, k)), mask = num(APInt::getLowBitsSet(w, k));
    if (op == Instruction::UDiv) return simp(Z3_mk_bvlshr(Z, x, sh), w);
    if (op == Instruction::URem) return simp(Z3_mk_bvand(Z, x, mask), w);
    Z3_ast bias = Z3_mk_ite(Z, Z3_mk_bvslt(Z, x, num(APInt(w, 0))), mask, num(APInt(w, 0)));
    Z3_ast q = Z3_mk_bvashr(Z, Z3_mk_bvadd(Z, x, bias), sh);
    if (op == Instruction::SDiv) return simp(q, w);
    return simp(Z3_mk_bvsub(Z, x, Z3_mk_bvshl(Z, q, sh)), w);
  }
  Z3_ast x = ast(a), y = ast(b), r;
  switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break;
    case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break;
    case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x, y); break;
    case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x, y); break;
    case Instruction::URem: r = Z3_mk_bvurem(Z, x, y); break;
    case Instruction::SRem: r = Z3_mk_bvsrem(Z, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(Z, x, y); break;
    case Instruction::LShr: r = Z3_mk_bvlshr(Z, x, y); break;
    case Instruction::AShr: r = Z3_mk_bvashr(Z, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(Z, x, y); break;
    case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break;
    case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
    default: unsupported("binop");
  }
  return simp(r, w);
}

static V fcmp(CmpInst::Predicate p, Type* t, const V& a, const V& b) {
  if (p == CmpInst::FCMP_TRUE) return V(1, 1);
  if (p == CmpInst::FCMP_FALSE) return V(1, 0);
  if (!a.sym() && !b.sym()) return V(1, FCmpInst::compare(APFloat(sem(t), a.c), APFloat(sem(t), b.c), p));
  Z3_ast x = tofp(a, t), y = tofp(b, t), nan = or2(Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)), r;
  bool un = CmpInst::isUnordered(p);
  switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = Z3_mk_fpa_eq(Z, x, y); break;
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = and2(mknot(Z3_mk_fpa_eq(Z, x, y)), mknot(nan)); break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = Z3_mk_fpa_lt(Z, x, y); break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = Z3_mk_fpa_leq(Z, x, y); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = Z3_mk_fpa_gt(Z, x, y); break;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = Z3_mk_fpa_geq(Z, x, y); break;
    case CmpInst::FCMP_ORD: return frombool(mknot(nan));
    case CmpInst::FCMP_UNO: return frombool(nan);
    default: unsupported("fcmp");
  }
  if (un) r = or2(r, nan);
  return frombool(r);
}

static V flatten(const V& v, Type* t) {  // vector -> integer bits
  if (!t->isVectorTy()) return v;
  auto* vt = cast<FixedVectorType>(t);
  unsigned b = bitw(vt->getElementType()), n = vt->getNumElements();
  bool s = false;
  for (auto& x : v.el) s |= x.sym();
  if (!s) {
    APInt acc(b * n, 0);
    for (unsigned i = 0; i < n; i++) acc.insertBits(v.el[i].c, i * b);
    return V(acc);
  }
  Z3_ast e = ast(v.el[0]);
  for (unsigned i = 1; i < n; i++) e = Z3_mk_concat(Z, ast(v.el[i]), e);
  return simp(e, b * n);
}
static V unflatten(const V& v, Type* t) {
  if (!t->isVectorTy()) return v;
  auto* vt = cast<FixedVectorType>(t);
  unsigned b = bitw(vt->getElementType()), n = vt->getNumElements();
  V r;
  for (unsigned i = 0; i < n; i++) {
    if (v.sym()) r.el.push_back(simp(Z3_mk_extract(Z, i * b + b - 1, i * b, v.e), b));
    else r.el.push_back(V(v.c.extractBits(b, i * b)));
  }
  return r;
}

static V castop(unsigned op, const V& a, Type* st, Type* dt) {
  if (op == Instruction::BitCast) return unflatten(flatten(a, st), dt);
  if (st->isVectorTy()) {
    V r;
    for (auto& x : a.el) r.el.push_back(castop(op, x, st->getScalarType(), dt->getScalarType()));
    return r;
  }
  unsigned w = bitw(dt);
  switch (op) {
    case Instruction::Trunc:
      if (!a.sym()) return V(a.c.trunc(w));
      return simp(Z3_mk_extract(Z, w - 1, 0, a.e), w);
    case Instruction::ZExt:
      if (!a.sym()) return V(a.c.zext(w));
      return simp(Z3_mk_zero_ext(Z, w - a.w(), a.e), w);
    case Instruction::SExt:
      if (!a.sym()) return V(a.c.sext(w));
      return simp(Z3_mk_sign_ext(Z, w - a.w(), a.e), w);
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
      if (!a.sym()) return V(a.c.zextOrTrunc(w));
      if (w == a.w()) return a;
      if (w < a.w()) return simp(Z3_mk_extract(Z, w - 1, 0, a.e), w);
      return simp(Z3_mk_zero_ext(Z, w - a.w(), a.e), w);
    case Instruction::AddrSpaceCast: return a;
    case Instruction::FPToUI:
    case Instruction::FPToSI: {
      bool sg = op == Instruction::FPToSI;
      if (!a.sym()) {
        APSInt r(w, !sg);
        bool ex;
        APFloat(sem(st), a.c).convertToInteger(r, APFloat::rmTowardZero, &ex);
        return V(APInt(r));
      }
      Z3_ast f = tofp(a, st);
      return simp(sg ? Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), f, w) : Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), f, w), w);
    }
    case Instruction::UIToFP:
    case Instruction::SIToFP: {
      bool sg = op == Instruction::SIToFP;
      if (!a.sym()) {
        APFloat f(sem(dt));
        f.convertFromAPInt(a.c, sg, APFloat::rmNearestTiesToEven);
        return V(f.bitcastToAPInt());
      }
      return unfp(sg ? Z3_mk_fpa_to_fp_signed(Z, Z3_mk_fpa_rne(Z), a.e, fsort(dt)) : Z3_mk_fpa_to_fp_unsigned(Z, Z3_mk_fpa_rne(Z), a.e, fsort(dt)), w);
    }
    case Instruction::FPTrunc:
    case Instruction::FPExt: {
      if (!a.sym()) {
        APFloat f(sem(st), a.c);
        bool l;
        f.convert(sem(dt), APFloat::rmNearestTiesToEven, &l);
        return V(f.bitcastToAPInt());
      }
      return unfp(Z3_mk_fpa_to_fp_float(Z, Z3_mk_fpa_rne(Z), tofp(a, st), fsort(dt)), w);
    }
  }
  unsupported("cast");
}

static V ite(const V& c, const V& a, const V& b) {  // symbolic select
  if (!a.el.empty()) {
    V r;
    for (size_t i = 0; i < a.el.size(); i++) r.el.push_back(ite(c, a.el[i], b.el[i]));
    return r;
  }
  if (!a.sym() && !b.sym() && a.c == b.c) return a;
  return simp(Z3_mk_ite(Z, is1(c), ast(a), ast(b)), a.w());
}

static V gep(const V& base, const GEPOperator* g, std::function<V(const Value*)> val) {
  APInt off(64, 0);
  V p = base;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    V idx = val(it.getOperand());
    if (StructType* st = it.getStructTypeOrNull()) {
      off += DL->getStructLayout(st)->getElementOffset(idx.u()).getFixedValue();
      continue;
    }
    uint64_t es = tyalloc(it.getIndexedType());
    if (!idx.sym()) off += idx.c.sextOrTrunc(64) * es;
    else {
      Z3_ast x = idx.e;
      if (idx.w() < 64) x = Z3_mk_sign_ext(Z, 64 - idx.w(), x);
      else if (idx.w() > 64) x = Z3_mk_extract(Z, 63, 0, x);
      p = simp(Z3_mk_bvadd(Z, ast(p), Z3_mk_bvmul(Z, x, num(APInt(64, es)))), 64);
    }
  }
  if (!p.sym()) return V(p.c + off);
  if (off.isZero()) return p;
  return simp(Z3_mk_bvadd(Z, p.e, num(off)), 64);
}

static std::unordered_map<const Constant*, V> ccache;
static V constant_(const Constant* c) {
  Type* t = c->getType();
  if (auto* i = dyn_cast<ConstantInt>(c)) return V(i->getValue());
  if (auto* f = dyn_cast<ConstantFP>(c)) return V(f->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return V(64, 0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantTokenNone>(c)) return zero(t);
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constant(a->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(g);
    if (it == gaddr.end()) unsupported("unknown global " + g->getName().str());
    return V(64, it->second);
  }
  if (auto* a = dyn_cast<ConstantAggregate>(c)) {
    V v;
    for (unsigned i = 0; i < a->getNumOperands(); i++) v.el.push_back(constant(a->getOperand(i)));
    return v;
  }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
    V v;
    for (unsigned i = 0; i < d->getNumElements(); i++) v.el.push_back(constant(d->getElementAsConstant(i)));
    return v;
  }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(e))
      return gep(constant(cast<Constant>(g->getPointerOperand())), g, [](const Value* v) { return constant(cast<Constant>(v)); });
    if (e->isCast()) return castop(e->getOpcode(), constant(e->getOperand(0)), e->getOperand(0)->getType(), t);
    if (Instruction::isBinaryOp(e->getOpcode())) return binop(e->getOpcode(), t, constant(e->getOperand(0)), constant(e->getOperand(1)));
    if (e->isCompare()) return icmp((CmpInst::Predicate)e->getPredicate(), constant(e->getOperand(0)), constant(e->getOperand(1)));
  }
  if (auto* d = dyn_cast<DSOLocalEquivalent>(c)) return constant(d->getGlobalValue());
  string s;
  raw_string_ostream os(s);
  c->print(os);
  unsupported("constant " + s);
}
static V constant(const Constant* c) {
  auto it = ccache.find(c);
  if (it != ccache.end()) return it->second;
  V v = constant_(c);
  ccache[c] = v;
  return v;
}

// ---------------------------------------------------------------- interpreter
static V val(Frame* f, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constant(c);
  auto it = f->fi->slot.find(v);
  if (it == f->fi->slot.end()) return V(1, 0);  // metadata etc.
  return f->r[it->second];
}
static void setr(Frame* f, const Instruction* i, V v) { f->r[f->fi->slot[i]] = std::move(v); }

struct Exc {
  uint64_t obj = 0, type = 0;
};
static Exc cur_exc;  // in flight
static vector<Exc> caught;
static std::unordered_map<uint64_t, uint64_t> exc_type;
static int allow_exit = 0;
static std::set<string> stubbed;

static void push(Function* f, vector<V> args, CallBase* call) {
  if (stack.size() > 3000) violation("unbounded recursion", model());
  Frame* fr = new Frame;
  fr->f = f;
  fr->fi = info(f);
  fr->r.resize(fr->fi->n);
  fr->call = call;
  unsigned k = 0;
  for (auto& a : f->args()) {
    if (a.hasByValAttr()) {
      Type* t = a.getParamByValType();
      Obj* o = mkobj(tyalloc(t), 's', "byval");
      fr->allocas.push_back(o->base);
      copy_mem(o->base, conc(args[k]).getZExtValue(), tyalloc(t));
      fr->r[k] = V(64, o->base);
    } else
      fr->r[k] = args[k];
    k++;
  }
  for (; k < args.size(); k++) fr->va.push_back(args[k]);
  fr->bb = &f->getEntryBlock();
  fr->it = fr->bb->begin();
  auto fx = fidx.find(f);
  if (fx != fidx.end()) S->fn[fx->second] = 1;
  stack.push_back(fr);
}
static void pop_frame() {
  Frame* f = stack.back();
  for (uint64_t a : f->allocas) {
    auto it = mem.find(a);
    if (it != mem.end()) {
      if (last_obj == it->second) last_obj = nullptr;
      delete it->second;
      mem.erase(it);
    }
  }
  stack.pop_back();
  delete f;
}
static void jump(Frame* f, BasicBlock* to) {
  f->prev = f->bb;
  f->bb = to;
  f->it = to->begin();
  // phis evaluated in parallel
  vector<std::pair<PHINode*, V>> ph;
  for (auto& p : to->phis()) ph.push_back({&p, val(f, p.getIncomingValueForBlock(f->prev))});
  for (auto& x : ph) { setr(f, x.first, x.second); ++f->it; }
}
static void ret_to_caller(CallBase* call, const V* v) {
  if (stack.empty()) return;
  Frame* f = stack.back();
  if (v && !call->getType()->isVoidTy()) setr(f, call, *v);
  if (auto* iv = dyn_cast<InvokeInst>(call)) jump(f, iv->getNormalDest());
}

// exceptions ----------------------------------------------------------
static string gname_at(uint64_t a) {
  Obj* o = findobj(a);
  return o && o->base == a ? o->name : "";
}
static uint64_t rd64(uint64_t a) {
  Obj* o = resolve(a, 8, false);
  return load_bytes(o, a - o->base, 8, 64).u();
}
static string ti_class(uint64_t ti) {  // which __cxxabiv1 class
  Obj* o = findobj(rd64(ti));
  return o ? o->name : "";
}
// is `ti` the type `want` or derived from it; offset of the base
static bool derives(uint64_t ti, uint64_t want, uint64_t& off) {
  off = 0;
  if (ti == want) return true;
  if (gname_at(ti) == gname_at(want) && !gname_at(ti).empty()) return true;
  Obj* o = findobj(ti);
  if (!o || o->size < 24) return false;
  string k = ti_class(ti);
  if (k.find("si_class") != string::npos) return derives(rd64(ti + 16), want, off);
  if (k.find("vmi_class") != string::npos) {
    uint32_t n = rd64(ti + 16) >> 32;
    for (uint32_t i = 0; i < n; i++) {
      uint64_t b = rd64(ti + 24 + 16 * i), fl = rd64(ti + 32 + 16 * i), o2;
      if (derives(b, want, o2)) { off = (int64_t)fl >> 8; off += o2; return true; }
    }
  }
  return false;
}
static void end_of_harness() { path_done(); }

static void do_exit(const char* what, bool abnormal) {
  if (allow_exit) path_done(true);
  violation(string("process ") + what, model());
}

static void unwind() {
  // find a landing pad
  while (!stack.empty()) {
    Frame* f = stack.back();
    // f->it is just after the call
    auto it = f->it;
    --it;
    if (auto* iv = dyn_cast<InvokeInst>(&*it)) {
      BasicBlock* ub = iv->getUnwindDest();
      auto* lp = ub->getLandingPadInst();
      uint64_t sel = 0;
      bool enter = false;
      for (unsigned i = 0; i < lp->getNumClauses() && !enter; i++) {
        if (lp->isCatch(i)) {
          V ct = constant(lp->getClause(i));
          uint64_t off;
          if (ct.u() == 0 || derives(cur_exc.type, ct.u(), off)) {
            enter = true;
            sel = ct.u() == 0 ? 0x7fffffff : (ct.u() & 0x3fffffff);
          }
        } else {
          enter = true;  // filter: treat as noexcept violation path
          sel = 0xffffffff;
        }
      }
      if (!enter && lp->isCleanup()) { enter = true; sel = 0; }
      if (enter) {
        jump(f, ub);
        V r;
        r.el = {V(64, cur_exc.obj), V(32, sel)};
        setr(f, lp, r);
        f->it = std::next(BasicBlock::iterator(lp));
        return;
      }
    }
    if (f->f->doesNotThrow()) do_exit("terminates (exception in noexcept function)", true);
    pop_frame();
  }
  do_exit("ends with an uncaught exception", true);
}

// ---------------------------------------------------------------- externals
static std::function<double(double)> mathfn(const string& n) {
  static std::map<string, double (*)(double)> m = {
    {"sqrt", sqrt}, {"log", log}, {"log2", log2}, {"log10", log10}, {"exp", exp}, {"exp2", exp2}, {"sin", sin}, {"cos", cos},
    {"tan", tan}, {"tanh", tanh}, {"floor", floor}, {"ceil", ceil}, {"round", round}, {"trunc", trunc}, {"rint", rint},
    {"nearbyint", nearbyint}, {"fabs", fabs}, {"erf", erf}, {"atan", atan}, {"log1p", log1p}, {"expm1", expm1}, {"cbrt", cbrt}, {"asin", asin}, {"acos", acos}, {"roundeven", rint}};
  auto it = m.find(n);
  if (it == m.end()) return nullptr;
  return it->second;
}
static double todbl(const V& v, Type* t) {
  APFloat f(sem(t), v.c);
  bool l;
  f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
  return f.convertToDouble();
}
static V fromdbl(double d, Type* t) {
  APFloat f(d);
  bool l;
  f.convert(sem(t), APFloat::rmNearestTiesToEven, &l);
  return V(f.bitcastToAPInt());
}
// floor, ceil, round..., sqrt, fabs on a scalar
static V math1(const string& n, const V& a, Type* t) {
  if (t->isVectorTy()) {
    V r;
    for (auto& x : a.el) r.el.push_back(math1(n, x, t->getScalarType()));
    return r;
  }
  if (!a.sym()) {
    if (t->isFloatTy()) {
      if (n == "sqrt") return fromdbl(sqrtf((float)todbl(a, t)), t);
      if (n == "log2") return fromdbl(log2f((float)todbl(a, t)), t);
      if (n == "exp") return fromdbl(expf((float)todbl(a, t)), t);
      if (n == "sin") return fromdbl(sinf((float)todbl(a, t)), t);
      if (n == "cos") return fromdbl(cosf((float)todbl(a, t)), t);
      if (n == "log") return fromdbl(logf((float)todbl(a, t)), t);
    }
    return fromdbl(mathfn(n)(todbl(a, t)), t);
  }
  unsigned w = a.w();
  if (n == "fabs") return simp(Z3_mk_bvand(Z, a.e, num(~APInt::getSignMask(w))), w);
  Z3_ast f = tofp(a, t), rm = nullptr;
  if (n == "floor") rm = Z3_mk_fpa_rtn(Z);
  if (n == "ceil") rm = Z3_mk_fpa_rtp(Z);
  if (n == "trunc") rm = Z3_mk_fpa_rtz(Z);
  if (n == "rint" || n == "nearbyint" || n == "roundeven") rm = Z3_mk_fpa_rne(Z);
  if (n == "round") rm = Z3_mk_fpa_rna(Z);
  if (rm) return unfp(Z3_mk_fpa_round_to_integral(Z, rm, f), w);
  if (n == "sqrt") return unfp(Z3_mk_fpa_sqrt(Z, Z3_mk_fpa_rne(Z), f), w);
  unsupported("symbolic " + n);
}

static V alloc(const V& n, const char* name, char kind, uint64_t align = 16) {
  uint64_t sz = conc(n).getZExtValue();
  Obj* o = mkobj(sz, kind, name, align);
  if (!o) {
    if (kind == 'h') return V(64, 0);
    violation("allocation of an absurd size", model());
  }
  return V(64, o->base);
}
static void dofree(const V& p, char kind) {
  uint64_t a = conc(p).getZExtValue();
  if (!a) return;
  auto it = mem.find(a);
  if (it == mem.end()) memerr("free of a pointer that was not allocated", a);
  Obj* o = it->second;
  if (!o->live) memerr("double free", a);
  if (o->kind != kind) memerr(string("mismatched deallocation"), a);
  o->live = false;
  o->sym.clear();
  if (last_obj == o) last_obj = nullptr;
}

static uint64_t fake_time = 1000000;

// returns true when handled; result in res (if any)
static bool external(Frame* f, CallBase* cb, const string& n, vector<V>& a, V& res) {
  auto is = [&](const char* s) { return n == s; };
  if (n.compare(0, 3, "kx_") == 0) {
    if (is("kx_u") || is("kx_i") || is("kx_pick")) {
      string nm = uniq(cstr(a[0]));
      APInt lo = conc(a[1]), hi = conc(a[2]);
      bool sg = is("kx_i");
      if (sg ? lo.sgt(hi) : lo.ugt(hi)) { S->infeasible++; finish(nullptr); }
      if (is("kx_pick")) {  // free choice: fork without asking the solver
        uint64_t l = lo.getZExtValue(), h = hi.getZExtValue();
        uint64_t v = l;
        for (; v < h; v++) {
          S->branches++;
          if (do_fork()) break;
        }
        res = V(64, v);
        inputs.push_back({nm, 64, num(res.c)});
        return true;
      }
      if (lo == hi) {
        inputs.push_back({nm, 64, num(lo)});
        res = V(lo);
        return true;
      }
      // a variable just wide enough for the range
      unsigned k = sg && lo.isNegative() ? std::max(lo.getSignificantBits(), hi.getSignificantBits()) : hi.getActiveBits();
      Z3_ast v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), bvs(k)), e = v;
      bool sx = sg && lo.isNegative();
      if (k < 64) e = sx ? Z3_mk_sign_ext(Z, 64 - k, v) : Z3_mk_zero_ext(Z, 64 - k, v);
      inputs.push_back({nm, 64, e});
      APInt l = lo.trunc(k), h = hi.trunc(k);
      if (!(sx ? l.isMinSignedValue() : l.isZero())) add(sx ? Z3_mk_bvsge(Z, v, num(l)) : Z3_mk_bvuge(Z, v, num(l)));
      if (!(sx ? h.isMaxSignedValue() : h.isAllOnes())) add(sx ? Z3_mk_bvsle(Z, v, num(h)) : Z3_mk_bvule(Z, v, num(h)));
      res = mksym(e, 64);
      return true;
    }
    if (is("kx_bytes")) {
      uint64_t p = conc(a[0]).getZExtValue(), len = conc(a[1]).getZExtValue();
      string base = cstr(a[2]);
      for (uint64_t i = 0; i < len; i++) {
        string nm = uniq(base + "[" + std::to_string(i) + "]");
        Z3_ast e = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), bvs(8));
        inputs.push_back({nm, 8, e});
        store_mem(V(64, p + i), 1, mksym(e, 8));
      }
      return true;
    }
    if (is("kx_assume")) {
      if (!a[0].sym()) {
        if (!a[0].c.getBoolValue()) { S->infeasible++; finish(nullptr); }
        return true;
      }
      Z3_ast c = Z3_mk_not(Z, Z3_mk_eq(Z, a[0].e, num(APInt(a[0].w(), 0))));
      Z3_solver_assert(Z, SOL, c);
      if (!(MODEL && eval_true(MODEL, c))) {
        MODEL = nullptr;
        model();
      }
      return true;
    }
    if (is("kx_check")) {
      S->checks++;
      if (!a[0].sym()) {
        if (!a[0].c.getBoolValue()) violation(cstr(a[1]), model());
        S->trivial++;
        return true;
      }
      Z3_ast bad = Z3_simplify(Z, Z3_mk_eq(Z, a[0].e, num(APInt(a[0].w(), 0))));
      if (Z3_get_bool_value(Z, bad) == Z3_L_FALSE) { S->trivial++; return true; }
      S->check_queries++;
      Z3_model m = nullptr;
      if (check_with(bad, &m)) violation(cstr(a[1]), m);
      return true;
    }
    if (is("kx_fail")) { S->checks++; violation(cstr(a[0]), model()); }
    if (is("kx_reach")) {
      string l = cstr(a[0]);
      // reach labels are numbered by the runner through a file of names
      for (int i = 0; i < 64; i++) {
        if (reach_names[i][0] == 0) break;
        if (l == reach_names[i]) { S->reach[i]++; return true; }
      }
      append(out_prefix + ".reach", l);
      return true;
    }
    if (is("kx_allow_exit")) { allow_exit = (int)a[0].u(); return true; }
    if (is("kx_conc")) { res = V(conc(a[0])); return true; }
    if (is("kx_sym")) { res = V(32, 1); return true; }
    if (is("kx_end")) path_done();
    if (is("kx_dbg")) {
      if (verbose) fprintf(stderr, "DBG %s %s\n", cstr(a[0]).c_str(), a[1].sym() ? Z3_ast_to_string(Z, a[1].e) : std::to_string(a[1].u()).c_str());
      return true;
    }
  }
  // allocation
  if (is("malloc")) { res = alloc(a[0], "malloc", 'h'); return true; }
  if (is("calloc")) {
    uint64_t sz = conc(a[0]).getZExtValue() * conc(a[1]).getZExtValue();
    res = alloc(V(64, sz), "calloc", 'h');
    if (res.u()) memset(findobj(res.u())->data.data(), 0, sz);
    return true;
  }
  if (is("realloc")) {
    uint64_t p = conc(a[0]).getZExtValue();
    V np = alloc(a[1], "realloc", 'h');
    if (p && np.u()) {
      Obj* o = findobj(p);
      if (!o || !o->live || o->base != p) memerr("realloc of a bad pointer", p);
      copy_mem(np.u(), p, std::min<uint64_t>(o->size, findobj(np.u())->size));
      dofree(V(64, p), 'h');
    }
    res = np;
    return true;
  }
  if (is("free") || is("cfree")) { dofree(a[0], 'h'); return true; }
  if (is("aligned_alloc") || is("memalign")) { res = alloc(a[1], n.c_str(), 'h', conc(a[0]).getZExtValue()); return true; }
  if (is("posix_memalign")) {
    V p = alloc(a[2], "posix_memalign", 'h', conc(a[1]).getZExtValue());
    store_mem(a[0], 8, p);
    res = V(32, p.u() ? 0 : 12);
    return true;
  }
  if (n.compare(0, 4, "_Znw") == 0) {
    res = alloc(a[0], "new", 'n', n.find("St11align_val_t") != string::npos ? conc(a[1]).getZExtValue() : 16);
    return true;
  }
  if (n.compare(0, 4, "_Zna") == 0) {
    res = alloc(a[0], "new[]", 'a', n.find("St11align_val_t") != string::npos ? conc(a[1]).getZExtValue() : 16);
    return true;
  }
  if (n.compare(0, 4, "_Zdl") == 0) { dofree(a[0], 'n'); return true; }
  if (n.compare(0, 4, "_Zda") == 0) { dofree(a[0], 'a'); return true; }
  if (is("memcpy") || is("memmove") || is("mempcpy")) {
    copy_mem(conc(a[0]).getZExtValue(), conc(a[1]).getZExtValue(), conc(a[2]).getZExtValue());
    res = a[0];
    return true;
  }
  if (is("memset")) {
    V b = a[1].sym() ? simp(Z3_mk_extract(Z, 7, 0, a[1].e), 8) : V(a[1].c.trunc(8));
    set_mem(conc(a[0]).getZExtValue(), b, conc(a[2]).getZExtValue());
    res = a[0];
    return true;
  }
  // process end
  if (is("exit") || is("_exit") || is("quick_exit") || is("_Exit")) do_exit("exits", false);
  if (is("abort") || is("_ZSt9terminatev") || is("__assert_fail") || is("__cxa_pure_virtual") || is("__stack_chk_fail")) do_exit("aborts", true);
  // exceptions
  if (is("__cxa_allocate_exception")) {
    Obj* o = mkobj(conc(a[0]).getZExtValue(), 'h', "exception");
    res = V(64, o->base);
    return true;
  }
  if (is("__cxa_free_exception")) return true;
  if (is("__cxa_throw")) {
    cur_exc.obj = conc(a[0]).getZExtValue();
    cur_exc.type = conc(a[1]).getZExtValue();
    exc_type[cur_exc.obj] = cur_exc.type;
    unwind();
    res.c = APInt(1, 0);
    res.el.clear();
    throw 1;  // control already transferred
  }
  if (is("__cxa_rethrow")) {
    if (caught.empty()) do_exit("terminates (rethrow)", true);
    cur_exc = caught.back();
    unwind();
    throw 1;
  }
  if (is("__cxa_begin_catch") || is("__cxa_get_exception_ptr")) {
    uint64_t o = conc(a[0]).getZExtValue();
    if (is("__cxa_begin_catch")) caught.push_back({o, exc_type[o]});
    res = V(64, o);
    return true;
  }
  if (is("__cxa_end_catch")) { if (!caught.empty()) caught.pop_back(); return true; }
  if (is("__cxa_guard_acquire")) {
    V g = load_mem(a[0], 1, 8);
    res = V(32, g.u() ? 0 : 1);
    return true;
  }
  if (is("__cxa_guard_release")) { store_mem(a[0], 1, V(8, 1)); return true; }
  if (is("__cxa_guard_abort") || is("__cxa_atexit") || is("atexit") || is("__cxa_thread_atexit")) { res = V(32, 0); return true; }
  if (is("__dynamic_cast")) {
    uint64_t p = conc(a[0]).getZExtValue(), dst = conc(a[2]).getZExtValue();
    uint64_t vt = rd64(p);
    int64_t top = (int64_t)rd64(vt - 16);
    uint64_t ti = rd64(vt - 8), off;
    res = derives(ti, dst, off) ? V(64, p + top + off) : V(64, 0);
    return true;
  }
  if (is("_ZSt18uncaught_exceptionv") || is("_ZSt19uncaught_exceptionsv")) { res = V(32, 0); return true; }
  // threads: everything runs in one thread
  if (n.compare(0, 8, "pthread_") == 0) {
    if (n.find("_self") != string::npos) { res = V(64, 1); return true; }
    if (n.find("_create") != string::npos) unsupported("pthread_create");
    res = V(32, 0);
    return true;
  }
  if (is("clock_gettime")) {
    fake_time += 1000;
    store_mem(a[1], 8, V(64, fake_time / 1000000));
    store_mem(addoff(a[1], 8), 8, V(64, fake_time % 1000000 * 1000));
    res = V(32, 0);
    return true;
  }
  if (is("_ZNSt6chrono3_V212system_clock3nowEv") || is("_ZNSt6chrono3_V212steady_clock3nowEv")) { res = V(64, fake_time += 1000); return true; }
  if (is("time")) { res = V(64, fake_time += 1000); return true; }
  if (is("getenv") || is("secure_getenv")) { res = V(64, 0); return true; }
  if (is("sysconf")) { res = V(64, 4096); return true; }
  if (is("getpid") || is("gettid")) { res = V(32, 42); return true; }
  if (is("puts") || is("printf") || is("fprintf") || is("putchar") || is("fputs") || is("fflush") || is("fwrite") || is("fputc") || is("vfprintf") || is("perror")) {
    res = is("fwrite") ? a[2] : V(32, 0);
    return true;
  }
  if (is("__errno_location")) {
    static uint64_t e = 0;
    if (!e) e = mkobj(16, 'g', "errno")->base;
    res = V(64, e);
    return true;
  }
  {
    // libm
    string m = n;
    if (m.compare(0, 2, "__") == 0) m = "";
    if (!m.empty() && cb->getType()->isFloatingPointTy() && a.size() == 1) {
      if (!mathfn(m) && m.size() > 1 && m.back() == 'f') m.pop_back();
      if (mathfn(m)) { res = math1(m, a[0], cb->getType()); return true; }
    }
    if (cb->getType()->isFloatingPointTy() && a.size() == 2 && !a[0].sym() && !a[1].sym()) {
      Type* t = cb->getType();
      double x = todbl(a[0], t);
      if (is("pow") || is("powf")) { res = fromdbl(is("powf") ? powf(x, todbl(a[1], t)) : pow(x, todbl(a[1], t)), t); return true; }
      if (is("atan2") || is("atan2f")) { res = fromdbl(atan2(x, todbl(a[1], t)), t); return true; }
      if (is("fmod") || is("fmodf")) { res = fromdbl(fmod(x, todbl(a[1], t)), t); return true; }
      if (is("fmax") || is("fmaxf")) { res = fromdbl(fmax(x, todbl(a[1], t)), t); return true; }
      if (is("fmin") || is("fminf")) { res = fromdbl(fmin(x, todbl(a[1], t)), t); return true; }
      if ((is("ldexp") || is("ldexpf"))) { res = fromdbl(ldexp(x, (int)a[1].u()), t); return true; }
    }
    if ((is("lround") || is("lroundf") || is("llround")) && !a[0].sym()) {
      res = V(64, (uint64_t)llround(todbl(a[0], cb->getArgOperand(0)->getType())));
      return true;
    }
  }
  return false;
}

static bool overflow_op(Intrinsic::ID id, const V& a, const V& b, V& res) {
  unsigned w = a.w();
  bool ov;
  APInt r;
  if (!a.sym() && !b.sym()) {
    switch (id) {
      case Intrinsic::uadd_with_overflow: r = a.c.uadd_ov(b.c, ov); break;
      case Intrinsic::sadd_with_overflow: r = a.c.sadd_ov(b.c, ov); break;
      case Intrinsic::usub_with_overflow: r = a.c.usub_ov(b.c, ov); break;
      case Intrinsic::ssub_with_overflow: r = a.c.ssub_ov(b.c, ov); break;
      case Intrinsic::umul_with_overflow: r = a.c.umul_ov(b.c, ov); break;
      case Intrinsic::smul_with_overflow: r = a.c.smul_ov(b.c, ov); break;
      default: return false;
    }
    res.el = {V(r), V(1, ov)};
    return true;
  }
  Z3_ast x = ast(a), y = ast(b), v, o;
  auto A2 = [&](Z3_ast p, Z3_ast q) { return mknot(and2(p, q)); };
  switch (id) {
    case Intrinsic::uadd_with_overflow: v = Z3_mk_bvadd(Z, x, y); o = mknot(Z3_mk_bvadd_no_overflow(Z, x, y, false)); break;
    case Intrinsic::sadd_with_overflow: v = Z3_mk_bvadd(Z, x, y); o = A2(Z3_mk_bvadd_no_overflow(Z, x, y, true), Z3_mk_bvadd_no_underflow(Z, x, y)); break;
    case Intrinsic::usub_with_overflow: v = Z3_mk_bvsub(Z, x, y); o = Z3_mk_bvult(Z, x, y); break;
    case Intrinsic::ssub_with_overflow: v = Z3_mk_bvsub(Z, x, y); o = A2(Z3_mk_bvsub_no_overflow(Z, x, y), Z3_mk_bvsub_no_underflow(Z, x, y, true)); break;
    case Intrinsic::umul_with_overflow: v = Z3_mk_bvmul(Z, x, y); o = mknot(Z3_mk_bvmul_no_overflow(Z, x, y, false)); break;
    case Intrinsic::smul_with_overflow: v = Z3_mk_bvmul(Z, x, y); o = A2(Z3_mk_bvmul_no_overflow(Z, x, y, true), Z3_mk_bvmul_no_underflow(Z, x, y)); break;
    default: return false;
  }
  res.el = {simp(v, w), frombool(o)};
  return true;
}

static V sel(Z3_ast c, const V& a, const V& b) { return simp(Z3_mk_ite(Z, c, ast(a), ast(b)), a.w()); }

static V intr_scalar(IntrinsicInst* ii, Intrinsic::ID id, Type* t, vector<V>& a) {
  unsigned w = a[0].w();
  bool cc = true;
  for (auto& x : a) cc &= !x.sym();
  switch (id) {
    case Intrinsic::umax: return cc ? V(APIntOps::umax(a[0].c, a[1].c)) : sel(Z3_mk_bvuge(Z, ast(a[0]), ast(a[1])), a[0], a[1]);
    case Intrinsic::umin: return cc ? V(APIntOps::umin(a[0].c, a[1].c)) : sel(Z3_mk_bvule(Z, ast(a[0]), ast(a[1])), a[0], a[1]);
    case Intrinsic::smax: return cc ? V(APIntOps::smax(a[0].c, a[1].c)) : sel(Z3_mk_bvsge(Z, ast(a[0]), ast(a[1])), a[0], a[1]);
    case Intrinsic::smin: return cc ? V(APIntOps::smin(a[0].c, a[1].c)) : sel(Z3_mk_bvsle(Z, ast(a[0]), ast(a[1])), a[0], a[1]);
    case Intrinsic::abs:
      if (!a[0].sym()) return V(a[0].c.abs());
      return sel(Z3_mk_bvslt(Z, a[0].e, num(APInt(w, 0))), mksym(Z3_mk_bvneg(Z, a[0].e), w), a[0]);
    case Intrinsic::ctpop: {
      if (!a[0].sym()) return V(w, a[0].c.popcount());
      Z3_ast s = num(APInt(w, 0));
      for (unsigned i = 0; i < w; i++) s = Z3_mk_bvadd(Z, s, Z3_mk_zero_ext(Z, w - 1, Z3_mk_extract(Z, i, i, a[0].e)));
      return simp(s, w);
    }
    case Intrinsic::ctlz: {
      if (!a[0].sym()) return V(w, a[0].c.countl_zero());
      Z3_ast s = num(APInt(w, w));
      for (unsigned i = 0; i < w; i++) s = Z3_mk_ite(Z, Z3_mk_eq(Z, Z3_mk_extract(Z, i, i, a[0].e), num(APInt(1, 1))), num(APInt(w, w - 1 - i)), s);
      return simp(s, w);
    }
    case Intrinsic::cttz: {
      if (!a[0].sym()) return V(w, a[0].c.countr_zero());
      Z3_ast s = num(APInt(w, w));
      for (int i = w - 1; i >= 0; i--) s = Z3_mk_ite(Z, Z3_mk_eq(Z, Z3_mk_extract(Z, i, i, a[0].e), num(APInt(1, 1))), num(APInt(w, i)), s);
      return simp(s, w);
    }
    case Intrinsic::bswap: {
      if (!a[0].sym()) return V(a[0].c.byteSwap());
      Z3_ast e = nullptr;
      for (unsigned i = 0; i < w / 8; i++) {
        Z3_ast b = Z3_mk_extract(Z, i * 8 + 7, i * 8, a[0].e);
        e = e ? Z3_mk_concat(Z, e, b) : b;
      }
      return simp(e, w);
    }
    case Intrinsic::bitreverse: {
      if (!a[0].sym()) return V(a[0].c.reverseBits());
      Z3_ast e = nullptr;
      for (unsigned i = 0; i < w; i++) {
        Z3_ast b = Z3_mk_extract(Z, i, i, a[0].e);
        e = e ? Z3_mk_concat(Z, e, b) : b;
      }
      return simp(e, w);
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      V sh = binop(Instruction::URem, t, a[2], V(APInt(w, w)));
      bool l = id == Intrinsic::fshl;
      if (!a[0].sym() && !a[1].sym() && !sh.sym()) {
        APInt s = sh.c;
        if (s.isZero()) return l ? a[0] : a[1];
        APInt inv = APInt(w, w) - s;
        return V(l ? (a[0].c.shl(s) | a[1].c.lshr(inv)) : (a[0].c.shl(inv) | a[1].c.lshr(s)));
      }
      Z3_ast cat = Z3_mk_concat(Z, ast(a[0]), ast(a[1]));
      Z3_ast s2 = Z3_mk_zero_ext(Z, w, ast(sh));
      if (l) return simp(Z3_mk_extract(Z, 2 * w - 1, w, Z3_mk_bvshl(Z, cat, s2)), w);
      return simp(Z3_mk_extract(Z, w - 1, 0, Z3_mk_bvlshr(Z, cat, s2)), w);
    }
    case Intrinsic::uadd_sat: {
      V o;
      overflow_op(Intrinsic::uadd_with_overflow, a[0], a[1], o);
      return o.el[1].sym() ? sel(is1(o.el[1]), V(APInt::getAllOnes(w)), o.el[0]) : o.el[1].c.getBoolValue() ? V(APInt::getAllOnes(w)) : o.el[0];
    }
    case Intrinsic::usub_sat: {
      V o;
      overflow_op(Intrinsic::usub_with_overflow, a[0], a[1], o);
      return o.el[1].sym() ? sel(is1(o.el[1]), V(APInt(w, 0)), o.el[0]) : o.el[1].c.getBoolValue() ? V(APInt(w, 0)) : o.el[0];
    }
    case Intrinsic::sqrt: return math1("sqrt", a[0], t);
    case Intrinsic::floor: return math1("floor", a[0], t);
    case Intrinsic::ceil: return math1("ceil", a[0], t);
    case Intrinsic::trunc: return math1("trunc", a[0], t);
    case Intrinsic::rint: return math1("rint", a[0], t);
    case Intrinsic::nearbyint: return math1("nearbyint", a[0], t);
    case Intrinsic::round: return math1("round", a[0], t);
    case Intrinsic::roundeven: return math1("roundeven", a[0], t);
    case Intrinsic::fabs: return math1("fabs", a[0], t);
    case Intrinsic::sin: return math1("sin", a[0], t);
    case Intrinsic::cos: return math1("cos", a[0], t);
    case Intrinsic::exp: return math1("exp", a[0], t);
    case Intrinsic::exp2: return math1("exp2", a[0], t);
    case Intrinsic::log: return math1("log", a[0], t);
    case Intrinsic::log2: return math1("log2", a[0], t);
    case Intrinsic::log10: return math1("log10", a[0], t);
    case Intrinsic::pow:
      if (!cc) unsupported("symbolic pow");
      return fromdbl(t->isFloatTy() ? powf(todbl(a[0], t), todbl(a[1], t)) : pow(todbl(a[0], t), todbl(a[1], t)), t);
    case Intrinsic::copysign: {
      APInt sm = APInt::getSignMask(w);
      return binop(Instruction::Or, Type::getIntNTy(LC, w), binop(Instruction::And, Type::getIntNTy(LC, w), a[0], V(~sm)), binop(Instruction::And, Type::getIntNTy(LC, w), a[1], V(sm)));
    }
    case Intrinsic::fmuladd: return fbin(Instruction::FAdd, t, fbin(Instruction::FMul, t, a[0], a[1]), a[2]);
    case Intrinsic::fma: {
      if (cc) {
        APFloat x(sem(t), a[0].c);
        x.fusedMultiplyAdd(APFloat(sem(t), a[1].c), APFloat(sem(t), a[2].c), APFloat::rmNearestTiesToEven);
        return V(x.bitcastToAPInt());
      }
      return unfp(Z3_mk_fpa_fma(Z, Z3_mk_fpa_rne(Z), tofp(a[0], t), tofp(a[1], t), tofp(a[2], t)), w);
    }
    case Intrinsic::maxnum:
    case Intrinsic::minnum:
    case Intrinsic::maximum:
    case Intrinsic::minimum: {
      bool mx = id == Intrinsic::maxnum || id == Intrinsic::maximum;
      if (cc) return V((mx ? llvm::maxnum(APFloat(sem(t), a[0].c), APFloat(sem(t), a[1].c)) : llvm::minnum(APFloat(sem(t), a[0].c), APFloat(sem(t), a[1].c))).bitcastToAPInt());
      return unfp(mx ? Z3_mk_fpa_max(Z, tofp(a[0], t), tofp(a[1], t)) : Z3_mk_fpa_min(Z, tofp(a[0], t), tofp(a[1], t)), w);
    }
    default: break;
  }
  unsupported("intrinsic " + ii->getCalledFunction()->getName().str());
}

static void run();

static bool intrinsic(Frame* f, IntrinsicInst* ii) {
  auto id = ii->getIntrinsicID();
  Type* t = ii->getType();
  auto A = [&](unsigned i) { return val(f, ii->getArgOperand(i)); };
  switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::prefetch:
    case Intrinsic::var_annotation: case Intrinsic::sideeffect: case Intrinsic::stackrestore:
      return true;
    case Intrinsic::invariant_start: setr(f, ii, V(64, 0)); return true;
    case Intrinsic::stacksave: setr(f, ii, V(64, 0)); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::arithmetic_fence:
      setr(f, ii, A(0));
      return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
      copy_mem(conc(A(0)).getZExtValue(), conc(A(1)).getZExtValue(), conc(A(2)).getZExtValue());
      return true;
    case Intrinsic::memset: case Intrinsic::memset_inline:
      set_mem(conc(A(0)).getZExtValue(), A(1), conc(A(2)).getZExtValue());
      return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: do_exit("traps", true); return true;
    case Intrinsic::objectsize: setr(f, ii, V(APInt(bitw(t), cast<ConstantInt>(ii->getArgOperand(1))->isZero() ? ~0ULL : 0))); return true;
    case Intrinsic::is_constant: setr(f, ii, V(1, 0)); return true;
    case Intrinsic::eh_typeid_for: setr(f, ii, V(32, conc(A(0)).getZExtValue() & 0x3fffffff)); return true;
    case Intrinsic::ptrmask: setr(f, ii, binop(Instruction::And, Type::getInt64Ty(LC), A(0), A(1))); return true;
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      V r;
      overflow_op(id, A(0), A(1), r);
      setr(f, ii, r);
      return true;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: {
      unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_mul ? Instruction::Mul : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::Xor;
      V v = A(0), r = v.el[0];
      for (size_t i = 1; i < v.el.size(); i++) r = binop(op, t, r, v.el[i]);
      setr(f, ii, r);
      return true;
    }
    case Intrinsic::x86_vcvtps2ph_128: case Intrinsic::x86_vcvtps2ph_256: {  // round to nearest even
      V v = A(0), r;
      for (unsigned i = 0; i < 8; i++)
        r.el.push_back(i < v.el.size() ? castop(Instruction::FPTrunc, v.el[i], Type::getFloatTy(LC), Type::getHalfTy(LC)) : V(16, 0));
      setr(f, ii, r);
      return true;
    }
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: return true;
    default: break;
  }
  vector<V> a;
  for (unsigned i = 0; i < ii->arg_size(); i++) a.push_back(A(i));
  if (t->isVectorTy()) {
    V r;
    for (size_t k = 0; k < a[0].el.size(); k++) {
      vector<V> s;
      for (auto& x : a) s.push_back(x.el.empty() ? x : x.el[k]);
      r.el.push_back(intr_scalar(ii, id, t->getScalarType(), s));
    }
    setr(f, ii, r);
    return true;
  }
  setr(f, ii, intr_scalar(ii, id, t, a));
  return true;
}

static bool stub_noop(const string& n) {
  // iostream output and the like: no effect
  static const char* pre[] = {"_ZNSo", "_ZStls", "_ZNSt8ios_base", "_ZNSt9basic_ios", "_ZSt16__ostream_insert", "_ZSt4endl", "_ZSt5flush", "_ZNSt6localeC", "_ZNSt6localeD", "_ZNSt8ios_base4InitC", "_ZNSt8ios_base4InitD", "_ZNSt6thread", "_ZNSt18condition_variable", "_ZSt20__throw_system_error"};
  for (auto* p : pre) if (n.compare(0, strlen(p), p) == 0) return true;
  return false;
}

static void call(Frame* f, CallBase* cb) {
  if (cb->isInlineAsm()) {
    auto* ia = cast<InlineAsm>(cb->getCalledOperand());
    if (ia->getAsmString().empty() || ia->getAsmString().find("pause") != string::npos || ia->getAsmString().find("nop") != string::npos) {
      if (!cb->getType()->isVoidTy()) setr(f, cb, zero(cb->getType()));
      if (auto* iv = dyn_cast<InvokeInst>(cb)) jump(f, iv->getNormalDest());
      return;
    }
    unsupported("inline asm");
  }
  Function* fn = cb->getCalledFunction();
  if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
    intrinsic(f, ii);
    return;
  }
  if (!fn) {
    V p = val(f, cb->getCalledOperand());
    uint64_t a = conc(p).getZExtValue();
    auto it = faddr.find(a);
    if (it == faddr.end()) memerr("call of a bad function pointer", a);
    fn = it->second;
  }
  vector<V> args;
  for (auto& x : cb->args()) args.push_back(val(f, x));
  if (fn->isDeclaration()) {
    V res;
    string n = fn->getName().str();
    if (fn->isIntrinsic()) unsupported("indirect intrinsic");
    if (auto* ii = dyn_cast<Function>(fn); ii && external(f, cb, n, args, res)) {
      if (!cb->getType()->isVoidTy()) setr(f, cb, res);
    } else if (stub_noop(n)) {
      if (!cb->getType()->isVoidTy()) setr(f, cb, cb->getType()->isPointerTy() && !args.empty() ? args[0] : zero(cb->getType()));
    } else
      unsupported("external function " + demangle(n));
    if (auto* iv = dyn_cast<InvokeInst>(cb)) jump(f, iv->getNormalDest());
    return;
  }
  push(fn, args, cb);
}

static void step() {
  Frame* f = stack.back();
  Instruction* I = &*f->it;
  ++f->it;
  if ((++instr_count & 0xffff) == 0) {
    if (S->stop) finish("stop");
    if (now() > deadline) finish("deadline");
    if (instr_count > max_instr) { S->nlimit++; finish("instruction limit"); }
  }
  auto O = [&](unsigned i) { return val(f, I->getOperand(i)); };
  switch (I->getOpcode()) {
    case Instruction::Ret: {
      V v;
      bool has = I->getNumOperands() > 0;
      if (has) v = O(0);
      CallBase* c = f->call;
      pop_frame();
      if (stack.empty() || !c) return;
      ret_to_caller(c, has ? &v : nullptr);
      return;
    }
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I);
      if (b->isUnconditional()) { jump(f, b->getSuccessor(0)); return; }
      V c = val(f, b->getCondition());
      jump(f, b->getSuccessor(branch(c) ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto* s = cast<SwitchInst>(I);
      V c = val(f, s->getCondition());
      if (!c.sym()) {
        auto it = s->findCaseValue(cast<ConstantInt>(ConstantInt::get(s->getCondition()->getType(), c.c)));
        jump(f, it->getCaseSuccessor());
        return;
      }
      // group cases by successor
      vector<std::pair<BasicBlock*, vector<Z3_ast>>> g;
      for (auto& k : s->cases()) {
        Z3_ast e = Z3_mk_eq(Z, c.e, num(k.getCaseValue()->getValue()));
        bool found = false;
        for (auto& x : g) if (x.first == k.getCaseSuccessor()) { x.second.push_back(e); found = true; }
        if (!found) g.push_back({k.getCaseSuccessor(), {e}});
      }
      for (auto& x : g) {
        Z3_ast e = x.second.size() == 1 ? x.second[0] : Z3_mk_or(Z, x.second.size(), x.second.data());
        if (branch_bool(e)) { jump(f, x.first); return; }
      }
      jump(f, s->getDefaultDest());
      return;
    }
    case Instruction::Unreachable: violation("unreachable code reached", model()); 
    case Instruction::Invoke:
    case Instruction::Call:
      try {
        call(f, cast<CallBase>(I));
      } catch (int x) {
        if (x == 0) throw;
      }
      return;
    case Instruction::Resume: {
      V v = O(0);
      cur_exc.obj = v.el[0].u();
      cur_exc.type = exc_type[cur_exc.obj];
      pop_frame();
      unwind();
      return;
    }
    case Instruction::LandingPad: return;
    case Instruction::Alloca: {
      auto* a = cast<AllocaInst>(I);
      uint64_t n = conc(val(f, a->getArraySize())).getZExtValue();
      Obj* o = mkobj(tyalloc(a->getAllocatedType()) * n, 's', a->hasName() ? a->getName().str() : "local", a->getAlign().value());
      f->allocas.push_back(o->base);
      setr(f, I, V(64, o->base));
      return;
    }
    case Instruction::Load: setr(f, I, loadv(O(0), I->getType())); return;
    case Instruction::Store: storev(O(1), O(0), I->getOperand(0)->getType()); return;
    case Instruction::GetElementPtr: {
      auto* g = cast<GEPOperator>(I);
      if (I->getType()->isVectorTy()) unsupported("vector gep");
      setr(f, I, gep(val(f, g->getPointerOperand()), g, [f](const Value* v) { return val(f, v); }));
      return;
    }
    case Instruction::ICmp: {
      auto* c = cast<ICmpInst>(I);
      V a = O(0), b = O(1);
      if (I->getType()->isVectorTy()) {
        V r;
        for (size_t i = 0; i < a.el.size(); i++) r.el.push_back(icmp(c->getPredicate(), a.el[i], b.el[i]));
        setr(f, I, r);
      } else
        setr(f, I, icmp(c->getPredicate(), a, b));
      return;
    }
    case Instruction::FCmp: {
      auto* c = cast<FCmpInst>(I);
      V a = O(0), b = O(1);
      Type* t = I->getOperand(0)->getType();
      if (t->isVectorTy()) {
        V r;
        for (size_t i = 0; i < a.el.size(); i++) r.el.push_back(fcmp(c->getPredicate(), t->getScalarType(), a.el[i], b.el[i]));
        setr(f, I, r);
      } else
        setr(f, I, fcmp(c->getPredicate(), t, a, b));
      return;
    }
    case Instruction::Select: {
      V c = O(0), a = O(1), b = O(2);
      if (!c.el.empty()) {
        V r;
        for (size_t i = 0; i < c.el.size(); i++)
          r.el.push_back(c.el[i].sym() ? ite(c.el[i], a.el[i], b.el[i]) : c.el[i].c.getBoolValue() ? a.el[i] : b.el[i]);
        setr(f, I, r);
      } else if (!c.sym()) setr(f, I, c.c.getBoolValue() ? a : b);
      else setr(f, I, ite(c, a, b));
      return;
    }
    case Instruction::FNeg: {
      V a = O(0);
      auto neg = [](const V& x) { return x.sym() ? simp(Z3_mk_bvxor(Z, x.e, num(APInt::getSignMask(x.w()))), x.w()) : V(x.c ^ APInt::getSignMask(x.w())); };
      if (!a.el.empty()) {
        V r;
        for (auto& x : a.el) r.el.push_back(neg(x));
        setr(f, I, r);
      } else setr(f, I, neg(a));
      return;
    }
    case Instruction::Freeze: setr(f, I, O(0)); return;
    case Instruction::ExtractValue: {
      V v = O(0);
      for (unsigned k : cast<ExtractValueInst>(I)->indices()) { V t = v.el[k]; v = t; }
      setr(f, I, v);
      return;
    }
    case Instruction::InsertValue: {
      V v = O(0), x = O(1);
      V* p = &v;
      for (unsigned k : cast<InsertValueInst>(I)->indices()) p = &p->el[k];
      *p = x;
      setr(f, I, v);
      return;
    }
    case Instruction::ExtractElement: {
      V v = O(0), k = O(1);
      setr(f, I, v.el.at(conc(k).getZExtValue()));
      return;
    }
    case Instruction::InsertElement: {
      V v = O(0), x = O(1), k = O(2);
      v.el.at(conc(k).getZExtValue()) = x;
      setr(f, I, v);
      return;
    }
    case Instruction::ShuffleVector: {
      auto* s = cast<ShuffleVectorInst>(I);
      V a = O(0), b = O(1), r;
      for (int m : s->getShuffleMask()) {
        if (m < 0) r.el.push_back(zero(s->getType()->getScalarType()));
        else if ((size_t)m < a.el.size()) r.el.push_back(a.el[m]);
        else r.el.push_back(b.el[m - a.el.size()]);
      }
      setr(f, I, r);
      return;
    }
    case Instruction::Fence: return;
    case Instruction::AtomicRMW: {
      auto* r = cast<AtomicRMWInst>(I);
      V p = O(0), x = O(1);
      Type* t = I->getType();
      V old = loadv(p, t), nv;
      switch (r->getOperation()) {
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Add: nv = binop(Instruction::Add, t, old, x); break;
        case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, t, old, x); break;
        case AtomicRMWInst::And: nv = binop(Instruction::And, t, old, x); break;
        case AtomicRMWInst::Or: nv = binop(Instruction::Or, t, old, x); break;
        case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, t, old, x); break;
        default: unsupported("atomicrmw");
      }
      storev(p, nv, t);
      setr(f, I, old);
      return;
    }
    case Instruction::AtomicCmpXchg: {
      V p = O(0), e = O(1), n = O(2);
      Type* t = I->getOperand(1)->getType();
      V old = loadv(p, t);
      bool eq = branch(icmp(CmpInst::ICMP_EQ, old, e));
      if (eq) storev(p, n, t);
      V r;
      r.el = {old, V(1, eq)};
      setr(f, I, r);
      return;
    }
    default: break;
  }
  if (I->isBinaryOp()) { setr(f, I, binop(I->getOpcode(), I->getType(), O(0), O(1))); return; }
  if (I->isCast()) { setr(f, I, castop(I->getOpcode(), O(0), I->getOperand(0)->getType(), I->getType())); return; }
  if (I->getOpcode() == Instruction::PHI) return;
  unsupported(string("instruction ") + I->getOpcodeName());
}

static void run_to(size_t depth) {
  while (stack.size() > depth) step();
}

static void init_const(uint64_t a, const Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
    Obj* o = findobj(a);
    StringRef r = d->getRawDataValues();
    memcpy(&o->data[a - o->base], r.data(), r.size());
    return;
  }
  if (auto* s = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) init_const(a + sl->getElementOffset(i), s->getOperand(i));
    return;
  }
  if (auto* s = dyn_cast<ConstantArray>(c)) {
    uint64_t es = tyalloc(s->getType()->getElementType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) init_const(a + i * es, s->getOperand(i));
    return;
  }
  storev(V(64, a), constant(c), t);
}

static void init_globals() {
  for (auto& f : *M) {
    Obj* o = mkobj(16, 'f', f.getName().str());
    gaddr[&f] = o->base;
    faddr[o->base] = &f;
    if (!f.isDeclaration()) { fidx[&f] = flist.size(); flist.push_back(&f); }
  }
  for (auto& g : M->globals()) {
    uint64_t sz = g.getValueType()->isSized() ? tyalloc(g.getValueType()) : 64;
    if (g.isDeclaration() && sz < 256) sz = 256;
    Obj* o = mkobj(sz, 'g', g.getName().str(), g.getAlign().valueOrOne().value());
    gaddr[&g] = o->base;
  }
  for (auto& g : M->globals())
    if (g.hasInitializer()) {
      init_const(gaddr[&g], g.getInitializer());
      if (g.isConstant()) mem[gaddr[&g]]->ro = true;
    } else if (g.getName() == "__libc_single_threaded")
      mem[gaddr[&g]]->data[0] = 1;
}

static void on_z3_error(Z3_context, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(Z, e));
  finish("z3 error");
}

int main(int argc, char** argv) {
  // kx module.bc out_prefix budget_s par entry reach,reach,... [-v]
  if (argc < 7) return 2;
  out_prefix = argv[2];
  double budget = atof(argv[3]);
  max_par = atoi(argv[4]);
  string entry = argv[5];
  {
    int k = 0;
    string s = argv[6], cur;
    for (size_t i = 0; i <= s.size(); i++) {
      if (i == s.size() || s[i] == ',') { if (!cur.empty() && k < 64) { strncpy(reach_names[k++], cur.c_str(), 63); } cur.clear(); }
      else cur += s[i];
    }
  }
  for (int i = 7; i < argc; i++) {
    if (string(argv[i]) == "-v") verbose = true;
    if (string(argv[i]) == "-all") max_viol = 1 << 30;
    if (string(argv[i]).compare(0, 5, "-max=") == 0) max_viol = atoi(argv[i] + 5);
    if (string(argv[i]).compare(0, 7, "-instr=") == 0) max_instr = atol(argv[i] + 7);
  }
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)S, 0, sizeof(Shared));
  double t0 = now();
  deadline = t0 + budget;
  SMDiagnostic err;
  M = parseIRFile(argv[1], err, LC);
  if (!M) { err.print("kx", errs()); return 2; }
  DL = &M->getDataLayout();
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg);
  Z3_set_error_handler(Z, on_z3_error);
  SOL = Z3_mk_simple_solver(Z);
  Z3_solver_inc_ref(Z, SOL);
  Z3_params p = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), solver_timeout_rlimit);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "random_seed"), 1);
  Z3_solver_set_params(Z, SOL, p);
  root_pid = getpid();
  S->running = 1;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  try {
    init_globals();
    // global constructors
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
      vector<std::pair<uint64_t, Function*>> cs;
      if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& op : arr->operands()) {
          auto* st = cast<ConstantStruct>(op);
          if (auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn});
        }
      std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& c : cs) {
        push(c.second, {}, nullptr);
        run_to(0);
      }
    }
    Function* h = M->getFunction(entry);
    if (!h) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    push(h, {}, nullptr);
    run_to(0);
    path_done();
  } catch (int) {
  }
  // only the root process gets here
  string fns;
  for (size_t i = 0; i < flist.size() && i < sizeof(S->fn); i++)
    if (S->fn[i]) {
      auto* sp = flist[i]->getSubprogram();
      string file = sp && sp->getFile() ? (sp->getFilename().startswith("/") ? sp->getFilename().str() : sp->getDirectory().str() + "/" + sp->getFilename().str()) : "";
      if (file.find("/repo/") == string::npos) continue;
      string d = demangle(flist[i]->getName().str());
      size_t q = d.find('(');
      if (q != string::npos && q > 0) d = d.substr(0, q);
      if (d.size() > 120) d = d.substr(0, 120);
      fns += (fns.empty() ? "" : ", ") + jstr(file.substr(file.find("/repo/") + 6) + ":" + d);
    }
  string rs;
  for (int i = 0; i < 64 && reach_names[i][0]; i++) rs += (i ? ", " : "") + jstr(reach_names[i]) + ": " + std::to_string(S->reach[i].load());
  printf("{\"paths\": %ld, \"infeasible\": %ld, \"branches\": %ld, \"queries\": %ld, \"sat\": %ld, \"unsat\": %ld, \"checks\": %ld, \"trivial\": %ld, \"check_queries\": %ld, \"incomplete\": %ld, \"unknown\": %ld, \"forks\": %ld, \"instrs\": %ld, \"rejected\": %ld, \"violations\": %d, \"solver_s\": %.3f, \"wall\": %.3f, \"stopped\": %d, \"reach\": {%s}, \"functions\": [%s]}\n",
         S->paths.load(), S->infeasible.load(), S->branches.load(), S->queries.load(), S->sat.load(), S->unsat.load(), S->checks.load(), S->trivial.load(), S->check_queries.load(), S->incomplete.load(), S->unknown.load(), S->forks.load(), S->instrs.load(), S->rejected.load(), S->nviol.load(), S->solver_us.load() / 1e6, now() - t0, S->stop.load(), rs.c_str(), fns.c_str());
  return 0;
}
