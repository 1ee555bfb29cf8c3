// stand-in for {fmt}: log output has no effect, format() renders strings (and,
// with KX_FMT_NUM, integers) so that generated names stay distinguishable.
#pragma once
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <cstdio>
namespace fmt {
enum class color : unsigned { green, green_yellow, red, yellow, cyan, blue, white, magenta, orange, gray, light_green, light_blue, black, purple, aqua, crimson, gold, sky_blue, dark_orange, lime_green, light_salmon, deep_sky_blue, hot_pink, steel_blue, dark_gray, light_gray };
enum class emphasis : unsigned char { bold = 1, faint = 2, italic = 4, underline = 8 };
struct text_style { unsigned v = 0; constexpr text_style() = default; constexpr text_style(emphasis) {} };
inline text_style operator|(text_style a, text_style) { return a; }
inline text_style operator|(text_style a, emphasis) { return a; }
inline text_style fg(color) { return {}; }
inline text_style bg(color) { return {}; }
template <class T> const void* ptr(T p) { return (const void*)p; }
template <class S> const S& runtime(const S& s) { return s; }
template <class T, class C = char, class E = void> struct formatter {};
template <class R> const char* join(const R&, std::string_view) { return "..."; }
template <class C> struct basic_format_parse_context { const C* begin() { return nullptr; } const C* end() { return nullptr; } };
using format_parse_context = basic_format_parse_context<char>;
using parse_context = format_parse_context;
struct format_context { using iterator = char*; iterator out() { return nullptr; } };
template <class... A> auto format_to(format_context::iterator o, A&&...) { return o; }
namespace mini {
inline void put(std::string& o, const std::string& s) { o += s; }
inline void put(std::string& o, std::string_view s) { o.append(s.data(), s.size()); }
inline void put(std::string& o, const char* s) { o += s; }
template <class T> void put(std::string& o, const T& v) {
#ifdef KX_FMT_NUM
  if constexpr (std::is_integral_v<T>) {
    char b[24]; int n = 0; bool neg = v < 0; unsigned long long x = neg ? 0ULL - (unsigned long long)(long long)v : (unsigned long long)v;
    do { b[n++] = '0' + x % 10; x /= 10; } while (x);
    if (neg) o += '-';
    while (n) o += b[--n];
    return;
  }
#endif
  o += '#';
}
inline void go(std::string& o, std::string_view f) { o.append(f.data(), f.size()); }
template <class A, class... R> void go(std::string& o, std::string_view f, const A& a, const R&... r) {
  size_t i = 0;
  while (i < f.size() && f[i] != '{') o += f[i++];
  if (i == f.size()) return;
  while (i < f.size() && f[i] != '}') i++;
  put(o, a);
  go(o, f.substr(i + 1), r...);
}
}
template <class... A> std::string format(std::string_view f, const A&... a) {
#ifdef KX_FMT
  std::string o;
  mini::go(o, f, a...);
  return o;
#else
  return std::string();
#endif
}
template <class... A> void print(A&&...) {}
template <class... A> void println(A&&...) {}
}
