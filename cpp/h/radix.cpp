// C++ radix tree: NINS inserts of sequences up to LEN tokens over arbitrary
// token values and namespaces, then a lookup of an arbitrary query.
#include "kx.h"
#include <vector>
#include <string>
#include "mllm/engine/prefix_cache/RadixTree.hpp"
using namespace mllm::prefix_cache;
using Seq = std::vector<int64_t>;
#ifndef BLOCKS
#define BLOCKS 2
#endif
#ifndef MID
#define MID 0
#endif
#ifdef LENS                                  // fixed insertion lengths over a small alphabet
static const int lens[] = {LENS};
#endif
static std::string nm(const char* a, int i) { return std::string(a) + char('0' + i); }
static Seq arb(const char* name, int i, int minlen) {
#ifdef LENS
  uint64_t n = minlen ? lens[i] : LEN;
#else
  uint64_t n = kx_pick((nm(name, i) + "len").c_str(), minlen, LEN);
#endif
  Seq s(n);
  for (uint64_t k = 0; k < n; k++) s[k] = kx_i((nm(name, i) + "t" + char('0' + k)).c_str(), INT64_MIN, INT64_MAX);
  return s;
}
static vp_addr_t ka(int i, int b, int k) { return 1000 + i * 100 + b * 10 + k; }
static vp_addr_t va(int i, int b, int k) { return 5000 + i * 100 + b * 10 + k; }
static Seq seqs[8]; static int64_t keys[8]; static int nstored = 0;
static bool agree(const Seq& s, const Seq& q, size_t n) {  // first n tokens equal (branch-free)
  if (s.size() < n || q.size() < n) return false;
  bool ok = true;
  for (size_t k = 0; k < n; k++) ok &= s[k] == q[k];
  return ok;
}
static void lookup(RadixTree& t, const Seq& q, int64_t key) {
  auto r = t.search(RadixTreeNodeKey(VectorView<int64_t>(q), key));
  size_t n = r.matched_length;
  kx_check(r.matched_length >= 0 && n <= q.size(), "matched length within the query");
  kx_check(r.success == (n > 0), "success iff something matched");
  // longest stored prefix
  bool hit = n == 0, longer = false;
  for (int s = 0; s < nstored; s++) {
    bool same = keys[s] == key;
    hit |= same & agree(seqs[s], q, n);
    if (n < q.size()) longer |= same & agree(seqs[s], q, n + 1);
  }
  kx_check(hit, "matched prefix was stored in this namespace");
  kx_check(!longer, "no longer stored prefix exists");
  kx_check(r.k_cache_addresses.size() == BLOCKS && r.v_cache_addresses.size() == BLOCKS, "one address list per layer");
  size_t sum = 0;
  for (auto& [node, len] : r.path) sum += len;
  kx_check(sum == n, "path lengths add up to the match");
  for (int b = 0; b < BLOCKS; b++) {
    kx_check(r.k_cache_addresses[b].size() == n && r.v_cache_addresses[b].size() == n, "one address per matched token");
    for (size_t k = 0; k < n; k++) {
      bool kok = false, vok = false;
      for (int s = 0; s < nstored; s++) {
        bool same = (keys[s] == key) & agree(seqs[s], q, k + 1);
        kok |= same & (r.k_cache_addresses[b][k] == ka(s, b, k));
        vok |= same & (r.v_cache_addresses[b][k] == va(s, b, k));
      }
      kx_check(kok, "key address was stored for this prefix, position and layer");
      kx_check(vok, "value address was stored for this prefix, position and layer");
    }
  }
  if (n == q.size()) kx_reach("full match");
  if (n > 0 && n < q.size()) kx_reach("partial match");
  if (r.path.size() > 2) kx_reach("match over several nodes");
}
void harness() {
  RadixTreeOptions o;
  o.transformer_blocks_num = BLOCKS;
  RadixTree t(o);
  for (int i = 0; i < NINS; i++) {
    seqs[i] = arb("s", i, 1);
    keys[i] = NKEYS > 1 ? kx_i(nm("key", i).c_str(), INT64_MIN, INT64_MAX) : 0;
    RadixTreeNodeValue v;
    for (int b = 0; b < BLOCKS; b++) {
      std::vector<vp_addr_t> k, w;
      for (size_t j = 0; j < seqs[i].size(); j++) { k.push_back(ka(i, b, j)); w.push_back(va(i, b, j)); }
      v.k_cache_addresses.emplace_back(k);
      v.v_cache_addresses.emplace_back(w);
    }
    kx_check(t.insert(RadixTreeNodeKey(VectorView<int64_t>(seqs[i]), keys[i]), v), "insert succeeds");
    nstored = i + 1;
  }
  Seq q = arb("q", 0, 0);
  int64_t qk = NKEYS > 1 ? kx_i("qkey", INT64_MIN, INT64_MAX) : 0;
  lookup(t, q, qk);
#ifdef CLEAR
  t.clear();
  nstored = 0;
  lookup(t, q, qk);
  kx_reach("cleared");
#endif
}
