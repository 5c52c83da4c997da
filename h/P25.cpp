// Parsing and formatting.
#include "pbt.h"
#include <cmath>
#include <cstdlib>
#include <list>
#include <sstream>
#include <parlay/io.h>
#include <parlay/primitives.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#endif
#endif
using namespace pbt;
#ifndef PART
#define PART 0
#endif
namespace {
// Bytes of the buffer beyond the text are poisoned under AddressSanitizer.
struct Guard { char* a; size_t n; explicit Guard(parlay::chars& c) : a(c.data() + c.size()), n(c.capacity() > 40 ? c.capacity() - c.size() : 0) {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
  if (n) __asan_poison_memory_region(a, n);
#endif
#endif
  } void off() {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
  if (n) __asan_unpoison_memory_region(a, n);
#endif
#endif
  n = 0; } ~Guard() { off(); } };
parlay::chars C(const std::string& s) { return parlay::chars(s.begin(), s.end()); }
std::string S(const parlay::chars& c) { return std::string(c.begin(), c.end()); }
// The text in a heap block of exactly its size, so that AddressSanitizer sees a read beyond it (a short chars keeps its text inline).
template <typename F> auto parse_tight(const std::string& s, F f) { return f(C(s)); }
template <typename F> std::string bitsof(F x) { char b[64]; std::snprintf(b, sizeof b, "%La", (long double)x); return b; }
template <typename F> bool same(F a, F b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
std::string digits(Gen& g, size_t k, bool all9) { std::string s; for (size_t i = 0; i < k; i++) s += (char)('0' + (all9 ? 9 : (int)g.below(10))); return s; }
std::string ftext(Gen& g) {
  std::string s; if (g.chance(15)) s += std::string(1 + g.below(3), g.pick({' ', '\t', '\n'})); s += g.pick({"", "", "", "-", "-", "+"});
  size_t form = g.weighted({10, 30, 12, 10, 4, 4, 30}); size_t tot = g.weighted({40, 30, 30}) == 0 ? 1 + g.below(7) : g.chance(50) ? 1 + g.below(19) : 1 + g.below(45); bool nines = g.chance(10);
  switch (form) {
    case 0: s += digits(g, tot, nines); break;
    case 1: { size_t a = g.below(tot + 1); s += digits(g, a, nines) + "." + digits(g, tot - a, nines); break; }
    case 2: s += digits(g, tot, nines) + "."; break;
    case 3: s += "." + digits(g, tot, nines); break;
    case 4: s += g.pick({"inf", "nan", "infinity"}); return s;
    case 5: { s += std::string(g.below(25), '0') + "." + std::string(g.below(30), '0') + digits(g, tot, false); break; }
    case 6: { double x; u64 b = g.any64(); if (g.coin()) memcpy(&x, &b, 8); else { float f; uint32_t c = (uint32_t)b; memcpy(&f, &c, 4); x = f; } if (!std::isfinite(x)) x = 1.5; char buf[64]; std::snprintf(buf, sizeof buf, g.pick({"%.17g", "%.9g", "%.11e", "%g", "%.6f", "%.3e", "%.0e"}), std::fabs(x) > 1e40 && false ? 1.0 : std::fabs(x)); s += buf; if (s.size() > 300) s.resize(300); return s; }
  }
  if (g.chance(45)) { s += g.pick({"e", "E"}); s += g.pick({"", "-", "+"}); int k = (int)g.weighted({50, 30, 20}); s += std::to_string(k == 0 ? g.below(12) : k == 1 ? g.below(40) : g.below(400)); }
  return s; }
template <typename I> void int_case(Gen& g, const char* nm, I (*parse)(const parlay::chars&)) {
  u64 b = g.any64(); if (g.coin()) b += (u64)std::numeric_limits<I>::max() - 8; I v = (I)b; std::string s = std::to_string(v); size_t zeros = g.chance(25) ? 1 + g.below(20) : 0; bool plus = g.chance(20); if (zeros) s.insert(s[0] == '-' ? 1 : 0, std::string(zeros, '0')); if (plus && s[0] != '-') s = "+" + s; g.label(nm); g.desc << nm << "(\"" << s << "\")"; g.ready(); g.mark(s.size() > 1); I r = parse(C(s)); CHECK(r == v, "parsed", r, "instead of", v);
  if (std::is_unsigned_v<I> && s[0] != '+' && v) { I q = parse(C("-" + s)); CHECK(q == (I)(0 - v), "negated unsigned", q); }
  std::string f = S(parlay::to_chars(v)); CHECK(f == std::to_string(v), "to_chars gives", f, "for", v); CHECK(parse(parlay::to_chars(v)) == v); INTERNAL_ONLY(I inner = parlay::internal::chars_to_int_t<I>(parlay::make_slice(C("x" + s + "y")).cut(1, 1 + s.size())); CHECK(inner == v, "inside a longer text", inner);)
  INTERNAL_ONLY(std::string w = "7" + s + "9"; auto all = C(w); auto sl = parlay::make_slice(all).cut(1, 1 + s.size()); I cutv = parlay::internal::chars_to_int_t<I>(sl); CHECK(cutv == v, "reads beyond its slice", cutv);) }
}
#if PART == 0
PBT_SUB(integers, 40000, 400000, 20, F_NONE) {
  switch (g.below(6)) { case 0: int_case<int>(g, "chars_to_int", parlay::chars_to_int); break; case 1: int_case<long>(g, "chars_to_long", parlay::chars_to_long); break; case 2: int_case<long long>(g, "chars_to_long_long", parlay::chars_to_long_long); break; case 3: int_case<unsigned>(g, "chars_to_uint", parlay::chars_to_uint); break; case 4: int_case<unsigned long>(g, "chars_to_ulong", parlay::chars_to_ulong); break; case 5: int_case<unsigned long long>(g, "chars_to_ulong_long", parlay::chars_to_ulong_long); break; }
  INTERNAL_ONLY(if (g.chance(5)) for (int v = -128; v < 256; v++) { std::string s = std::to_string(v); if (v < 128) CHECK(parlay::internal::chars_to_int_t<signed char>(parlay::make_slice(C(s))) == v); if (v >= 0) CHECK(parlay::internal::chars_to_int_t<unsigned char>(parlay::make_slice(C(s))) == v); short x = (short)(v * 256 + 255); CHECK(parlay::internal::chars_to_int_t<short>(parlay::make_slice(C(std::to_string(x)))) == x); })
}
PBT_SUB(floats, 80000, 800000, 20, F_NONE) {
  std::string s = ftext(g); int form = (int)g.below(3); static const char* nm[] = {"chars_to_double", "chars_to_float", "chars_to_long_double"}; g.label(nm[form]); g.desc << nm[form] << "(\"" << s << "\")"; g.ready(); g.mark(s.size() > 1); auto c = C(s); const auto before = c; c.reserve(64); Guard gd(c); size_t need = s.find_first_of("0123456789in"); if (need == std::string::npos) g.discard();
  switch (form) { case 0: { double a = parlay::chars_to_double(c), b = std::strtod(s.c_str(), nullptr); CHECK(same(a, b), bitsof(a), "instead of", bitsof(b)); break; } case 1: { float a = parlay::chars_to_float(c), b = std::strtof(s.c_str(), nullptr); CHECK(same(a, b), bitsof(a), "instead of", bitsof(b)); break; } case 2: { long double a = parlay::chars_to_long_double(c), b = std::strtold(s.c_str(), nullptr); CHECK(same(a, b), bitsof(a), "instead of", bitsof(b)); break; } }
  gd.off(); CHECK(c == before, "the text changed");
}
PBT_SUB(degenerate, 6000, 40000, 20, F_NONE) {   // texts that are no number: only memory safety, under AddressSanitizer
  static const char al[] = " \t+-0123456789.eEin"; std::string s; size_t k = g.below(24); static const char* fixed[] = {"", " ", "-", "+", "e", "1e", "1e-", "1.e+", ".", "-.", " -", "   ", "0e", "+e", "in", "n", "-i", "1e+", "                  ", "                   "}; 
  if (k < 20) s = fixed[k]; else { size_t n = g.below(21); for (size_t i = 0; i < n; i++) s += al[g.below(sizeof al - 1)]; }
  // the grammar of the fast path, possibly with parts missing: blanks, sign, digits, period, digits, exponent
  { size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; if (!(i < s.size() && (s[i] == 'i' || s[i] == 'n'))) { while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char)s[i])) i++; } if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) i = s.size(); if (i != s.size()) g.discard(); } }
  g.desc << "degenerate text \"" << s << "\""; g.ready(); g.mark(); for (int big = 0; big < 2; big++) { parlay::chars c = C(s); if (big) c.reserve(64); Guard gd(c); u64 sink = 0; 
    std::vector<char> h(s.begin(), s.end()); h.shrink_to_fit(); auto sl = parlay::slice<char*, char*>(h.data(), h.data() + h.size()); if (s.find_first_of("0123456789") == std::string::npos || s.size() < 9) { INTERNAL_ONLY(sink += (u64)parlay::internal::chars_to_int_t<long long>(sl) + parlay::internal::chars_to_int_t<unsigned>(sl);) sink += (u64)parlay::chars_to_int(c) + parlay::chars_to_ulong(c); } double d = parlay::chars_to_double(c); float f = parlay::chars_to_float(c); long double l = parlay::chars_to_long_double(c); sink += d == f; sink += l == d; volatile u64 keep = sink; (void)keep; gd.off(); }
}
#else
namespace {
// reference formatting
std::string F(char c) { return std::string(1, c); } std::string F(bool b) { return b ? "1" : "0"; } std::string F(int v) { return std::to_string(v); } std::string F(unsigned v) { return std::to_string(v); } std::string F(long v) { return std::to_string(v); } std::string F(unsigned long v) { return std::to_string(v); } std::string F(long long v) { return std::to_string(v); } std::string F(unsigned long long v) { return std::to_string(v); }
std::string F(double v) { char b[64]; std::snprintf(b, sizeof b, "%.11e", v); return b; } std::string F(float v) { return F((double)v); } std::string F(const std::string& s) { return s; } std::string F(const char* s) { return s; } std::string F(const parlay::chars& s) { return S(s); }
template <typename A, typename B> std::string F(const std::pair<A, B>& p); template <typename T> std::string F(const parlay::sequence<T>& s); template <typename T, size_t N> std::string F(const std::array<T, N>& s);
template <typename It> std::string range(It a, It b) { std::string r = "["; bool first = true; for (; a != b; ++a) { if (!first) r += ", "; first = false; r += F(*a); } return r + "]"; }
template <typename A, typename B> std::string F(const std::pair<A, B>& p) { return "(" + F(p.first) + ", " + F(p.second) + ")"; } template <typename T> std::string F(const parlay::sequence<T>& s) { return range(s.begin(), s.end()); } template <typename T, size_t N> std::string F(const std::array<T, N>& s) { return range(s.begin(), s.end()); }
template <typename T> struct Mk; u64 ctr;
template <> struct Mk<char> { static char m(Gen& g) { return (char)g.below(256); } }; template <> struct Mk<bool> { static bool m(Gen& g) { return g.coin(); } };
template <typename T> struct MkI { static T m(Gen& g) { return (T)g.any64(); } };
template <> struct Mk<int> : MkI<int> {}; template <> struct Mk<unsigned> : MkI<unsigned> {}; template <> struct Mk<long> : MkI<long> {}; template <> struct Mk<unsigned long> : MkI<unsigned long> {}; template <> struct Mk<long long> : MkI<long long> {}; template <> struct Mk<unsigned long long> : MkI<unsigned long long> {}; template <> struct Mk<short> : MkI<short> {}; template <> struct Mk<unsigned char> : MkI<unsigned char> {};
template <> struct Mk<double> { static double m(Gen& g) { switch (g.below(4)) { case 0: { u64 b = g.any64(); double d; memcpy(&d, &b, 8); return d; } case 1: return (double)g.range(-1000, 1000) / 8; case 2: return g.pick({0.0, -0.0, 1.0 / 0.0, -1.0 / 0.0, 5e-324, 1.7976931348623157e308, 9.9999999999995}); default: return std::ldexp((double)g.any64(), (int)g.range(-1000, 900)); } } };
template <> struct Mk<float> { static float m(Gen& g) { uint32_t b = (uint32_t)g.any64(); float d; memcpy(&d, &b, 4); return d; } };
template <> struct Mk<std::string> { static std::string m(Gen& g) { std::string s(g.len(40), 'x'); for (auto& c : s) c = (char)(g.chance(5) ? 0 : 32 + g.below(90)); return s; } };
template <> struct Mk<parlay::chars> { static parlay::chars m(Gen& g) { return C(Mk<std::string>::m(g)); } };
template <typename A, typename B> struct Mk<std::pair<A, B>> { static std::pair<A, B> m(Gen& g) { A a = Mk<A>::m(g); return {std::move(a), Mk<B>::m(g)}; } };
template <typename T> struct Mk<parlay::sequence<T>> { static parlay::sequence<T> m(Gen& g) { size_t n = g.chance(20) ? 0 : g.below(6); parlay::sequence<T> s; for (size_t i = 0; i < n; i++) s.push_back(Mk<T>::m(g)); return s; } };
template <typename T, size_t N> struct Mk<std::array<T, N>> { static std::array<T, N> m(Gen& g) { std::array<T, N> a; for (auto& x : a) x = Mk<T>::m(g); return a; } };
template <typename T> void fmt(Gen& g, const char* nm) { T v = Mk<T>::m(g); std::string want = F(v); g.label(nm); g.desc << "to_chars of " << nm << " expected \"" << want.substr(0, 400) << "\""; g.ready(); g.mark(want.size() > 1); const T& cv = v; std::string got = S(parlay::to_chars(cv)); CHECK(got == want, got.substr(0, 400)); std::ostringstream o; o << parlay::to_chars(cv); CHECK(o.str() == want, "stream"); T w = v; CHECK(S(parlay::to_chars(std::move(w))) == want, "rvalue"); }
}
PBT_SUB(format, 30000, 300000, 20, F_NONE) {
  switch (g.below(24)) {
    case 0: fmt<char>(g, "char"); break; case 1: fmt<bool>(g, "bool"); break; case 2: fmt<int>(g, "int"); break; case 3: fmt<unsigned>(g, "unsigned"); break; case 4: fmt<long>(g, "long"); break; case 5: fmt<unsigned long>(g, "unsigned long"); break; case 6: fmt<long long>(g, "long long"); break; case 7: fmt<unsigned long long>(g, "unsigned long long"); break;
    case 8: fmt<double>(g, "double"); break; case 9: fmt<float>(g, "float"); break; case 10: fmt<std::string>(g, "string"); break; case 11: fmt<parlay::chars>(g, "chars"); break; case 12: fmt<std::pair<int, std::string>>(g, "pair"); break; case 13: fmt<std::pair<std::pair<bool, char>, double>>(g, "nested pair"); break;
    case 14: fmt<parlay::sequence<int>>(g, "sequence<int>"); break; case 15: fmt<parlay::sequence<std::string>>(g, "sequence<string>"); break; case 16: fmt<parlay::sequence<parlay::sequence<long>>>(g, "sequence<sequence>"); break; case 17: fmt<parlay::sequence<std::pair<int, parlay::sequence<bool>>>>(g, "sequence<pair<..>>"); break; case 18: fmt<std::array<int, 3>>(g, "array<3>"); break; case 19: fmt<std::array<std::string, 1>>(g, "array<1>"); break; case 20: fmt<std::array<parlay::sequence<int>, 2>>(g, "array<sequence>"); break; case 21: fmt<parlay::sequence<parlay::chars>>(g, "sequence<chars>"); break; case 22: fmt<parlay::sequence<std::array<double, 2>>>(g, "sequence<array>"); break;
    case 23: { short a = Mk<short>::m(g); unsigned char b = Mk<unsigned char>::m(g); CHECK(S(parlay::to_chars(a)) == std::to_string(a)); CHECK(S(parlay::to_chars(b)) == std::to_string(b)); std::array<int, 0> e; CHECK(S(parlay::to_chars(e)) == "[]"); auto s = Mk<parlay::sequence<int>>::m(g); auto sl = parlay::make_slice(s); CHECK(S(parlay::to_chars(sl)) == range(s.begin(), s.end())); CHECK(S(parlay::to_chars(sl.cut(s.size() / 2, s.size()))) == range(s.begin() + (long)(s.size() / 2), s.end())); std::string t = Mk<std::string>::m(g); t = t.c_str(); CHECK(S(parlay::to_chars(t.c_str())) == t); g.mark(); break; }
  }
}
PBT_SUB(large, 600, 6000, 30, F_NONE) {
  size_t n = g.len(g.thorough ? 30000 : 6000, {1000, 2000}); std::string sh; auto v = ints(g, n, INT64_MIN + 1, INT64_MAX, &sh); g.desc << "to_chars of " << n << " longs " << sh; g.ready(); g.mark(n > 1); auto s = parlay::tabulate(n, [&](size_t i) { return (long)v[i]; }); auto c = parlay::to_chars(s); std::string w = range(s.begin(), s.end()); CHECK(S(c) == w, S(c).substr(0, 200));
  if (n) { auto t = parlay::tokens(parlay::to_chars(s).subseq(1, c.size() - 1), [](char x) { return x == ',' || x == ' '; }); CHECK(t.size() == n, t.size()); auto back = parlay::map(t, [](auto const& x) { return parlay::chars_to_long(parlay::chars(x.begin(), x.end())); }); CHECK(back == s, "format and parse again"); }
}
#endif
