// Tokenizers. MODE 0: splitting by special tokens; 1: byte pair merging and the
// vocabulary; 2: UTF-8 conversions and the byte table; 3: the Qwen word pattern;
// 4: the Qwen3 tokenizer from text to tokens and back; 5: GPT-2 / Llama 3 pattern.
#include "kx.h"
#include <fstream>
#include <memory>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
#include "mllm/preprocessor/tokenizers/Unicode.hpp"
#include "mllm/preprocessor/tokenizers/AutoTokenizer.hpp"
#include "mllm/preprocessor/tokenizers/BPE.hpp"
#include "mllm/preprocessor/tokenizers/BPEUTF8.hpp"
#if MODE == 3 || MODE == 4
#include "mllm/models/qwen3/tokenization_qwen3.hpp"
#include "mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp"
#include "mllm/models/qwen2vl/tokenization_qwen2vl.hpp"
#include "mllm/models/qwen_npu/tokenization_qwen.hpp"
#endif
#if MODE == 5
#include "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.h"
#endif
namespace mllm { class Tensor; }
using namespace mllm::preprocessor;
using U = std::vector<uint32_t>;
static std::string nm(const char* a, int i) { return std::string(a) + char('0' + i / 10) + char('0' + i % 10); }
static uint64_t pickn(const char* a, int i, uint64_t lo, uint64_t hi) { return kx_pick(nm(a, i).c_str(), lo, hi); }
static std::string enc(const U& u) {   // the UTF-8 encoding, RFC 3629
  std::string s;
  for (uint32_t c : u) {
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  }
  return s;
}
static std::wstring wide(const U& u) { std::wstring w; for (auto c : u) w.push_back((wchar_t)c); return w; }
static bool same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i];
  return ok;
}
static bool same(const std::wstring& a, const U& b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < b.size(); i++) ok &= (uint32_t)a[i] == b[i];
  return ok;
}
// arbitrary code points from a small alphabet
static U letters(const char* n, int k, int len, const uint32_t* A, int na, bool each = false) {
  U u;
  for (int i = 0; i < len; i++) {
    uint64_t x = kx_u((nm(n, k) + nm(".", i)).c_str(), 0, na - 1);
    u.push_back(A[each ? kx_conc(x) : x]);
  }
  return u;
}
static bool at(const U& t, size_t p, const U& w) {
  if (p + w.size() > t.size()) return false;
  for (size_t i = 0; i < w.size(); i++) if (t[p + i] != w[i]) return false;
  return true;
}
#if MODE == 0
// special tokens are cut out leftmost first, the longest at each place
static void split() {
  static const uint32_t A[] = {'a', 0xe9, '<'};
  std::vector<U> sp;
#ifdef SPLENS
  static const int L[] = {SPLENS};
  for (int k = 0; k < NSP; k++) sp.push_back(letters("sp", k, L[k], A, NA, true));
#else
  int n = pickn("specials", 0, 0, NSP);
  for (int k = 0; k < n; k++) sp.push_back(letters("sp", k, pickn("splen", k, 1, SPLEN), A, NA, true));
#endif
  U text = letters("text", 0, pickn("textlen", 0, 0, TLEN), A, NA, true);
  std::vector<U> want;
  std::vector<bool> issp;
  U cur;
  for (size_t p = 0; p < text.size();) {
    size_t best = 0;
    for (auto& w : sp) if (at(text, p, w) && w.size() > best) best = w.size();
    if (!best) { cur.push_back(text[p++]); continue; }
    if (cur.size()) { want.push_back(cur); cur.clear(); }
    want.push_back(U(text.begin() + p, text.begin() + p + best));
    p += best;
  }
  if (cur.size()) want.push_back(cur);
  if (pickn("utf8", 0, 0, 1)) {
    TrieUTF8 t;
    std::vector<std::string> all;
    for (auto& w : sp) all.push_back(enc(w));
    t.update(all);
    auto got = t.split(enc(text));
    kx_check(got.size() == want.size(), "the text is cut at its special tokens");
    for (size_t i = 0; i < got.size(); i++) kx_check(same(got[i], enc(want[i])), "the text is cut at its special tokens");
    for (auto& w : sp) kx_check(t.isSpecialToken(enc(w)), "special tokens are known");
  } else {
    Trie t;
    std::vector<std::wstring> all;
    for (auto& w : sp) all.push_back(wide(w));
    t.update(all);
    auto got = t.split(wide(text));
    kx_check(got.size() == want.size(), "the text is cut at its special tokens");
    for (size_t i = 0; i < got.size(); i++) kx_check(same(got[i], want[i]), "the text is cut at its special tokens");
    for (auto& w : sp) kx_check(t.isSpecialToken(wide(w)), "special tokens are known");
  }
  kx_reach("split");
}
#endif
static void put(const std::string& s) {
  std::ofstream f("kx-tok.json", std::ios::binary);
  f.write(s.data(), s.size());
  f.close();
}
static std::string q(const std::string& s) { return "\"" + s + "\""; }
static std::string num(int n) { return n < 10 ? std::string(1, '0' + n) : num(n / 10) + std::string(1, '0' + n % 10); }
// the pair trained first is merged first, everywhere, left to right
static std::vector<U> merged(const U& word, const std::vector<std::pair<U, U>>& merges) {
  std::vector<U> want;
  for (auto c : word) want.push_back(U{c});
  for (;;) {
    int best = -1;
    for (int m = 0; m < (int)merges.size() && best < 0; m++)
      for (size_t i = 0; i + 1 < want.size(); i++) if (want[i] == merges[m].first && want[i + 1] == merges[m].second) best = m;
    if (best < 0) return want;
    std::vector<U> nw;
    for (size_t i = 0; i < want.size(); i++) {
      U x = want[i];
      if (i + 1 < want.size() && want[i] == merges[best].first && want[i + 1] == merges[best].second) { x.insert(x.end(), want[i + 1].begin(), want[i + 1].end()); i++; }
      nw.push_back(x);
    }
    want = nw;
  }
}
#if MODE == 1
static void bpe() {
  static const uint32_t A[] = {'a', 0x120, 0x1F600};
  std::vector<U> piece;
  for (int i = 0; i < NA; i++) piece.push_back(U{A[i]});
  std::vector<std::pair<U, U>> merges;
  int n = pickn("merges", 0, 0, NM);
  for (int k = 0; k < n; k++) {
    U a = piece[pickn("first", k, 0, piece.size() - 1)], b = piece[pickn("second", k, 0, piece.size() - 1)];
    for (auto& m : merges) kx_assume(!(m.first == a && m.second == b));
    merges.push_back({a, b});
    a.insert(a.end(), b.begin(), b.end());
    piece.push_back(a);
  }
  int style = pickn("style", 0, 0, 1);
  std::string s = "{\"added_tokens\": [{\"id\": 40, \"content\": \"<x>\"}], \"model\": {\"vocab\": {";
  for (size_t i = 0; i < piece.size(); i++) s += (i ? ", " : "") + q(enc(piece[i])) + ": " + num(7 + i);
  s += "}, \"merges\": [";
  for (size_t i = 0; i < merges.size(); i++) {
    std::string a = enc(merges[i].first), b = enc(merges[i].second);
    s += (i ? ", " : "") + (style ? "[" + q(a) + ", " + q(b) + "]" : q(a + " " + b));
  }
  s += "]}}";
  put(s);
  bool u8 = pickn("utf8", 0, 0, 1);
  BPE w;
  BPEUTF8 b8;
  kx_check(u8 ? b8.initFromSentencePieceJson("kx-tok.json") : w.initFromSentencePieceJson("kx-tok.json"), "the vocabulary is read");
  U word = letters("word", 0, pickn("wordlen", 0, 1, WLEN), A, NA);
  std::vector<U> want = merged(word, merges);
  size_t cnt = 0;
  bool ok = true;
  if (u8) {
    auto got = b8._bpe(enc(word));
    cnt = got.size();
    for (size_t i = 0; i < got.size() && i < want.size(); i++) ok = ok && same(got[i], enc(want[i]));
  } else {
    auto got = w._bpe(wide(word));
    cnt = got.size();
    for (size_t i = 0; i < got.size() && i < want.size(); i++) ok = ok && same(got[i], want[i]);
  }
  kx_check(ok && cnt == want.size(), "a word is merged as trained");
  // ids
  size_t i = pickn("id", 0, 0, piece.size());
  bool dup = false;
  for (size_t j = 0; j < piece.size(); j++) dup = dup || (i < piece.size() && j != i && piece[j] == piece[i]);
  if (!dup) {
    int64_t id = i < piece.size() ? 7 + i : 40;
    U t = i < piece.size() ? piece[i] : U{'<', 'x', '>'};
    if (u8) {
      kx_check(b8._lookup_vocab(enc(t)) == id, "a token has its id");
      kx_check(same(b8._lookup_inverse_vocab(id), enc(t)), "an id has its token");
    } else {
      kx_check(w._lookup_vocab(wide(t)) == id, "a token has its id");
      kx_check(same(w._lookup_inverse_vocab(id), t), "an id has its token");
    }
  }
  kx_reach("merged");
}
#endif
static U anytext(int n) {                  // arbitrary code points
  U u;
  for (int i = 0; i < n; i++) {
    uint32_t c = kx_u(nm("cp", i).c_str(), 0, 0x10FFFF);
    kx_assume(c < 0xD800 || c > 0xDFFF);
    u.push_back(c);
  }
  return u;
}
#if MODE == 2
static void conv() {
  switch (pickn("what", 0, 0, 2)) {
    case 0: {
      U u = anytext(pickn("len", 0, 0, 3));
      std::string s = enc(u);
      std::wstring w = utf8string2WideString(s);
      kx_check(same(w, u), "UTF-8 is decoded");
      kx_check(same(wideString2Utf8String(w), s), "UTF-8 is encoded");
      kx_reach("utf8");
      break;
    }
    case 1: {                              // GPT-2's bytes_to_unicode
      std::unordered_map<std::wint_t, wchar_t> d;
      makeBytes2UnicodeMap(d);
      kx_check(d.size() == 256, "every byte has a symbol");
      int n = 0;
      for (uint32_t b = 0; b < 256; b++) {
        bool printable = (b >= '!' && b <= '~') || (b >= 0xA1 && b <= 0xAC) || (b >= 0xAE && b <= 0xFF);
        kx_check((uint32_t)d[b] == (printable ? b : 256 + n), "every byte has its own symbol");
        n += !printable;
      }
      kx_reach("bytes");
      break;
    }
    case 2: {                              // broken UTF-8 is survived
      char b[3];
      size_t n = pickn("len", 0, 1, 3);
      kx_bytes(b, n, "bytes");
      std::wstring w = utf8string2WideString(std::string(b, n));
      kx_check(w.size() <= n, "no more characters than bytes");
      std::string s = wideString2Utf8String(w);
      kx_reach("broken");
      break;
    }
  }
}
#endif
#if MODE >= 3
static const uint32_t ABC[] = {'a', ' ', '\n', '1', '\'', 's', '!', '\r', 'L', 'l', '\t', 0x4e2d, 0x3000, 0x20ac, 0xe9, 0x1F600};
static bool L(uint32_t c) { return c == 'a' || c == 's' || c == 'l' || c == 'L' || c == 0x4e2d || c == 0xe9; }
static bool N(uint32_t c) { return c == '1'; }
static bool S(uint32_t c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == 0x3000; }
static bool nl(uint32_t c) { return c == '\n' || c == '\r'; }
static uint32_t low(uint32_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
// length of the match of the pattern at p
static size_t ref(const U& t, size_t p, int kind) {    // 0 Qwen, 1 GPT-2, 2 Llama 3
  auto is = [&](size_t i, bool (*f)(uint32_t)) { return i < t.size() && f(t[i]); };
  auto other = [&](size_t i) { return i < t.size() && !S(t[i]) && !L(t[i]) && !N(t[i]); };
  static const char* C[] = {"s", "t", "re", "ve", "m", "ll", "d"};
  if (t[p] == '\'')
    for (auto c : C) {
      size_t n = c[1] ? 2 : 1;
      bool ok = p + n < t.size();
      for (size_t i = 0; ok && i < n; i++) ok = (kind == 1 ? t[p + 1 + i] : low(t[p + 1 + i])) == (uint32_t)c[i];
      if (ok) return n + 1;
    }
  size_t e = p;
  if (kind != 1) {
    if (!nl(t[e]) && !L(t[e]) && !N(t[e])) e++;
    if (is(e, L)) { while (is(e, L)) e++; return e - p; }
    e = p;
    while (is(e, N) && e < p + (kind == 2 ? 3 : 1)) e++;
    if (e > p) return e - p;
    e = p + (t[p] == ' ');
    if (other(e)) { while (other(e)) e++; while (is(e, nl)) e++; return e - p; }
    size_t run = p, last = 0;
    while (is(run, S)) { run++; if (nl(t[run - 1])) last = run; }
    if (last) return last - p;
  } else {
    e = p + (t[p] == ' ');
    if (is(e, L)) { while (is(e, L)) e++; return e - p; }
    if (is(e, N)) { while (is(e, N)) e++; return e - p; }
    if (other(e)) { while (other(e)) e++; return e - p; }
  }
  e = p;
  while (is(e, S)) e++;
  return e < t.size() && e - p > 1 ? e - p - 1 : e - p;
}
static std::vector<U> words(const U& t, int kind) {
  std::vector<U> r;
  for (size_t p = 0; p < t.size();) {
    size_t n = ref(t, p, kind);
    r.push_back(U(t.begin() + p, t.begin() + p + n));
    p += n;
  }
  return r;
}
#endif
#if MODE == 3
static void pattern() {
  U t = letters("t", 0, pickn("len", 0, 0, LEN), ABC, NABC);
  auto want = words(t, 0);
  std::vector<std::wstring> got;
  switch (MODEL >= 0 ? MODEL : pickn("model", 0, 0, 3)) {
    case 0: mllm::models::qwen3::qwen3Regex(enc(t), got); break;
    case 1: mllm::models::qwen3_moe::qwen3Regex(enc(t), got); break;
    case 2: mllm::models::qwen2vl::qwen2VLRegex(enc(t), got); break;
    case 3: mllm::models::qwen_npu::qwenRegex(enc(t), got); break;
  }
  kx_check(got.size() == want.size(), "words follow the model's pattern");
  for (size_t i = 0; i < got.size(); i++) kx_check(same(got[i], want[i]), "words follow the model's pattern");
  kx_reach("pattern");
}
#endif
#if MODE == 4
static uint32_t sym(unsigned char b) {      // GPT-2's symbol of a byte
  uint32_t n = 0;
  for (uint32_t c = 0; c <= b; c++) {
    bool printable = (c >= '!' && c <= '~') || (c >= 0xA1 && c <= 0xAC) || c >= 0xAE;
    if (c == b) return printable ? c : 256 + n;
    n += !printable;
  }
  return 0;
}
static U syms(const U& t) { U r; for (unsigned char c : enc(t)) r.push_back(sym(c)); return r; }
static void whole() {
  static const uint32_t A[] = {'a', ' ', '\n', '1', 0x4e2d, 0xe9};
  static const char* SP[] = {"<|im_end|>", "</think>", "<think>", "<|im_start|>"};
  std::vector<U> vocab;
  std::vector<std::pair<U, U>> merges;
  auto merge = [&](U a, U b) { merges.push_back({a, b}); a.insert(a.end(), b.begin(), b.end()); vocab.push_back(a); };
  U chars;
  for (int i = 0; i < 6; i++)
    for (auto x : syms(U{A[i]})) { bool have = false; for (auto y : chars) have |= x == y; if (!have) { chars.push_back(x); vocab.push_back(U{x}); } }
  for (int i = 4; i < 6; i++) {             // whole characters are tokens
    U m = syms(U{A[i]}), a{m[0]};
    for (size_t k = 1; k < m.size(); k++) { merge(a, U{m[k]}); a.push_back(m[k]); }
  }
  merge(syms({'a'}), syms({'a'}));
  merge(syms({' '}), syms({'a'}));
  merge(syms({' ', 'a'}), syms({'a', 'a'}));
  merge(syms({'\n'}), syms({'\n'}));
  std::string s = "{\"added_tokens\": [";
  for (int k = 0; k < 4; k++) s += std::string(k ? ", " : "") + "{\"id\": " + num(90 + k) + ", \"content\": " + q(SP[k]) + "}";
  s += "], \"model\": {\"vocab\": {";
  for (size_t i = 0; i < vocab.size(); i++) s += (i ? ", " : "") + q(enc(vocab[i])) + ": " + num(5 + i);
  s += "}, \"merges\": [";
  for (size_t i = 0; i < merges.size(); i++) s += (i ? ", " : "") + q(enc(merges[i].first) + " " + enc(merges[i].second));
  s += "]}}";
  put(s);
  mllm::models::qwen3::Qwen3Tokenizer tok("kx-tok.json");
  U text, run;
  std::vector<int64_t> want;
  auto flush = [&] {
    for (auto& w : words(run, 0))
      for (auto& m : merged(syms(w), merges))
        for (size_t i = 0; i < vocab.size(); i++) if (vocab[i] == m) want.push_back(5 + i);
    run.clear();
  };
  int n = pickn("units", 0, 0, LEN);
  for (int i = 0; i < n; i++) {
    int k = pickn("special", i, 0, 2);
    if (k) {
      flush();
      want.push_back(90 + k - 1);
      for (const char* p = SP[k - 1]; *p; p++) text.push_back(*p);
    } else {
      uint32_t c = A[kx_conc(kx_u(nm("letter", i).c_str(), 0, 5))];
      text.push_back(c);
      run.push_back(c);
    }
  }
  flush();
  auto got = tok.tokenize(enc(text));
  kx_check(got.size() == want.size(), "the text becomes the tokens of the vocabulary");
  if (!got.empty()) {
    auto ids = tok.convert2Ids(got);
    kx_check(ids.shape() == std::vector<int32_t>({1, (int32_t)want.size()}), "one id for every token");
    U back;
    for (size_t i = 0; i < want.size(); i++) {
      kx_check(ids.ptr<int64_t>()[i] == want[i], "the text becomes the ids of its tokens");
      for (auto c : tok.detokenize(want[i])) back.push_back(c);
    }
    kx_check(back == text, "decoding the ids gives the text back");
  }
  kx_reach("tokenized");
}
#endif
#if MODE == 5
static void regex() {
  static const char* EXPR[] = {"'s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| ?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)",
    "(?:'[sS]|'[tT]|'[rR][eE]|'[vV][eE]|'[mM]|'[lL][lL]|'[dD])|[^\\r\\n\\p{L}\\p{N}]?\\p{L}+|\\p{N}{1,3}| ?[^\\s\\p{L}\\p{N}]+[\\r\\n]*|\\s*[\\r\\n]+|\\s+(?!\\S)|\\s+"};
  unicode_cpt_flags('a');                   // fill the tables before the paths part
  unicode_byte_to_utf8(1);
  int kind = pickn("pattern", 0, 1, 2);
  U t = letters("t", 0, pickn("len", 0, 1, LEN), ABC, NABC, true);
  auto want = words(t, kind);
  auto got = unicode_regex_split(enc(t), {EXPR[kind - 1]});
  kx_check(got.size() == want.size(), "words follow the model's pattern");
  for (size_t i = 0; i < got.size(); i++) {
    std::string raw, e = enc(want[i]);
    auto c = unicode_cpts_from_utf8(got[i]);
    for (auto x : c) raw += (char)unicode_utf8_to_byte(unicode_cpt_to_utf8(x));
    kx_check(same(raw, e), "words follow the model's pattern");
  }
  kx_reach("pattern");
}
#endif
int main();
void harness() {
#if MODE == 0
  split();
#elif MODE == 1
  bpe();
#elif MODE == 2
  conv();
#elif MODE == 3
  pattern();
#elif MODE == 4
  whole();
#elif MODE == 5
  regex();
#endif
}
