#include "pbt.h"
#include "types.h"
using namespace pbt;
namespace {
struct Txt { std::string s; std::string d; };
Txt text(Gen& g, size_t n) {
  auto f = flags(g, n); Txt t; t.s.resize(n); unsigned al = (unsigned)g.below(3); u64 sd = n > 24 ? g.seed() : 0; size_t pieces = 0;
  for (size_t i = 0; i < n; i++) { u64 r = n > 24 ? mix(sd + i) : g.below(64); t.s[i] = f[i] ? " \n\t\f\v\r"[r % 6] : al == 0 ? (char)('a' + r % 26) : al == 1 ? "\0\x80\xff\x1f\x7f\xa0\x85"[r % 7] : '0'; if (!f[i] && (i == 0 || f[i - 1])) pieces++; }
  std::ostringstream o; o << "n=" << n << " pieces=" << pieces << " flags " << show(std::vector<int>(f.begin(), f.end())) << " alphabet " << al << " seed " << sd; t.d = o.str(); return t;
}
using P = std::pair<size_t, size_t>;
template <typename Pr> std::vector<P> runs(size_t n, Pr sp) { std::vector<P> w; for (size_t i = 0; i < n;) { if (sp(i)) { i++; continue; } size_t j = i; while (j < n && !sp(j)) j++; w.push_back({i, j}); i = j; } return w; }
}
#if PART == 1
PBT_SUB(tokens, 8000, 80000, 30, F_NONE) {
  size_t n = g.len(g.thorough ? 200000 : 12000, {2000, 2000, 1999, 4000, 1000}); Txt t = text(g, n); unsigned form = (unsigned)g.below(6), kind = (unsigned)g.below(4); unsigned pr = (unsigned)g.below(3);
  static const char* nm[] = {"tokens", "tokens pred", "map_tokens", "map_tokens void", "tokens string_view", "map_tokens sequence"};
  g.desc << nm[form] << " " << t.d << " pred " << pr; g.ready();
  auto pred = [&](char c) { return pr == 0 ? (bool)isspace((unsigned char)c) : pr == 1 ? (c & 1) == 1 : c == ' ' || c == '0'; }; bool custom = form == 1 || form == 2 || form == 3;
  auto w = runs(n, [&](size_t i) { return custom ? pred(t.s[i]) : (bool)isspace((unsigned char)t.s[i]); }); g.mark(w.size() > 0); g.label(nm[form]); g.label(n >= 2000 ? "n>=2000" : "n<2000"); g.label(w.size() > 1 ? "several tokens" : w.size() ? "one token" : "no token");
  auto chk = [&](auto const& r) { CHECK(r.size() == w.size(), nm[form], r.size(), "tokens, expected", w.size()); for (size_t i = 0; i < w.size(); i++) { CHECK(r[i].size() == w[i].second - w[i].first, nm[form], "length of token", i, r[i].size(), w[i].second - w[i].first); CHECK(std::equal(r[i].begin(), r[i].end(), t.s.begin() + (long)w[i].first), nm[form], "token", i, "differs"); } };
  switch (form) {
    case 0: { auto s = parlay::to_sequence(t.s); chk(parlay::tokens(s)); break; }
    case 1: { std::vector<char> v(t.s.begin(), t.s.end()); vt::AnyRange<char> r(kind, v); chk(parlay::tokens(r, pred)); break; }
    case 4: { std::string_view v(t.s); chk(parlay::tokens(v)); break; }
    case 2: case 3: case 5: {
      std::vector<std::atomic<uint32_t>> seen(n + 1); for (auto& x : seen) x = 0;
      auto go = [&](auto& r) { auto b = std::begin(r); auto f = [&](auto const& sl) { size_t i = (size_t)(sl.begin() - b); SOFT(i <= n, nm[form], "piece outside"); if (i <= n) seen[i]++; return P(i, i + sl.size()); };
        if (form == 3) { std::vector<std::atomic<size_t>> len(n + 1); for (auto& x : len) x = 0; parlay::map_tokens(r, [&](auto const& sl) { P p = f(sl); if (p.first <= n) len[p.first] = p.second - p.first; }, pred); for (auto& p : w) CHECK(len[p.first] == p.second - p.first, nm[form], "token at", p.first, "has length", len[p.first].load()); }
        else { auto o = form == 2 ? parlay::map_tokens(r, f, pred) : parlay::map_tokens(r, f); CHECK(o.size() == w.size(), nm[form], o.size(), w.size()); for (size_t i = 0; i < w.size(); i++) CHECK(o[i] == w[i], nm[form], "token", i, o[i].first, o[i].second, "expected", w[i].first, w[i].second); }
        size_t tot = 0; for (auto& x : seen) tot += x; CHECK(tot == w.size(), nm[form], "function applied", tot, "times, expected", w.size()); for (auto& p : w) CHECK(seen[p.first] == 1, nm[form], "function applied", seen[p.first].load(), "times to the token at", p.first); };
      if (form == 5) { auto s = parlay::to_sequence(t.s); go(s); } else { std::vector<char> v(t.s.begin(), t.s.end()); vt::AnyRange<char> r(kind, v); go(r); } break; }
  }
}
#else
PBT_SUB(split, 8000, 80000, 30, F_NONE) {
  size_t n = g.len(g.thorough ? 200000 : 12000, {1024, 2048, 2000}); auto f = flags(g, n); unsigned form = (unsigned)g.below(5), kind = (unsigned)g.below(4), fk = (unsigned)g.below(4);
  static const char* nm[] = {"split_at chars", "split_at ints", "map_split_at", "split_at string", "split_at int flags"};
  g.desc << nm[form] << " n=" << n << " kinds " << kind << fk << " flags " << show(std::vector<int>(f.begin(), f.end())); g.ready();
  std::vector<P> w; size_t b = 0; for (size_t i = 0; i < n; i++) if (f[i]) { w.push_back({b, i + 1}); b = i + 1; } w.push_back({b, n}); g.mark(w.size() > 1); g.label(nm[form]);
  auto chk = [&](auto const& r, auto at) { CHECK(r.size() == w.size(), nm[form], r.size(), "pieces, expected", w.size()); for (size_t i = 0; i < w.size(); i++) { CHECK(r[i].size() == w[i].second - w[i].first, nm[form], "length of piece", i, r[i].size(), w[i].second - w[i].first); for (size_t j = 0; j < r[i].size(); j++) CHECK(r[i][j] == at(w[i].first + j), nm[form], "piece", i, "position", j); } };
  auto ch = [](size_t i) { return (char)mix(i); }; std::vector<char> c(n); for (size_t i = 0; i < n; i++) c[i] = ch(i); std::vector<int64_t> v(n); for (size_t i = 0; i < n; i++) v[i] = (int64_t)i;
  std::vector<unsigned char> bf(f.begin(), f.end()); vt::AnyRange<unsigned char> fr(fk, bf); auto fs = parlay::tabulate(n, [&](size_t i) -> bool { return f[i]; });
  switch (form) {
    case 0: { vt::AnyRange<char> r(kind, c); chk(parlay::split_at(r, fs), ch); break; }
    case 1: { vt::AnyRange<int64_t> r(kind, v); chk(parlay::split_at(r, fr), [](size_t i) { return (int64_t)i; }); break; }
    case 2: { vt::AnyRange<int64_t> r(kind, v); std::vector<std::atomic<uint32_t>> seen(n + 1); for (auto& x : seen) x = 0; size_t empties = 0; std::atomic<size_t> emp{0};
      auto o = parlay::map_split_at(r, fr, [&](auto const& sl) { size_t i = (size_t)(sl.begin() - r.begin()); if (sl.size() == 0) emp++; else if (i <= n) seen[i]++; return P(i, i + sl.size()); });
      CHECK(o.size() == w.size(), nm[form], o.size(), w.size()); for (size_t i = 0; i < w.size(); i++) { CHECK(o[i] == w[i], nm[form], "piece", i, o[i].first, o[i].second, "expected", w[i].first, w[i].second); if (w[i].first == w[i].second) empties++; else CHECK(seen[w[i].first] == 1, nm[form], "function applied", seen[w[i].first].load(), "times to the piece at", w[i].first); } CHECK(emp == empties, nm[form], emp.load(), empties); break; }
    case 3: { auto s = parlay::tabulate(n, [](size_t i) { return vt::El<std::string>::make((int64_t)i, 0); }); auto r = parlay::split_at(s, fs); chk(r, [](size_t i) { return vt::El<std::string>::make((int64_t)i, 0); }); for (size_t i = 0; i < n; i++) CHECK(s[i] == vt::El<std::string>::make((int64_t)i, 0), "input changed"); break; }
    case 4: { std::vector<int> fi(n); for (size_t i = 0; i < n; i++) fi[i] = f[i] ? 1 << (i % 31) : 0; chk(parlay::split_at(parlay::iota<int64_t>((int64_t)n), fi), [](size_t i) { return (int64_t)i; }); break; }
  }
}
#endif
