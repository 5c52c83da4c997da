// default orders, pointers, ranges that are not sequences, ranks
#include "sortcase.h"
using namespace pbt;
PBT_SUB(default_order, 3000, 30000, 30, F_NONE) {
  size_t n = g.len(g.thorough ? 200000 : 40000, {16384, 256, 512, 48, 64, 2000}); std::string sh; auto v = sc::contents(g, n, sh); unsigned form = (unsigned)g.below(4), kind = (unsigned)g.below(2);
  g.desc << "default order form " << form << (kind ? " deque" : " vector") << " n=" << n << " " << sh << " " << show(v); g.ready(); g.mark(n > 1);
  auto w = v; std::sort(w.begin(), w.end()); auto chk = [&](auto const& s) { CHECK(s.size() == n); auto it = s.begin(); for (size_t i = 0; i < n; i++) CHECK(it[i] == w[i], "at", i, "of", n, it[i], w[i]); };
  if (form == 0) chk(parlay::sort(v)); else if (form == 1) chk(parlay::stable_sort(v));
  else if (kind) { std::deque<int64_t> d(v.begin(), v.end()); if (form == 2) parlay::sort_inplace(d); else parlay::stable_sort_inplace(d); chk(d); }
  else { auto x = v; if (form == 2) parlay::sort_inplace(x); else parlay::stable_sort_inplace(x); chk(x); }
}
PBT_SUB(pointers, 1500, 15000, 30, F_NONE) {
  size_t n = g.len(g.thorough ? 200000 : 40000, {16384, 256, 512, 48}); std::string sh; auto v = sc::contents(g, n, sh); sc::Order o = sc::order(g); unsigned form = (unsigned)g.below(4);
  g.desc << "pointers form " << form << " n=" << n << " " << sh << " order " << o.mode; g.ready(); g.mark(n > 1);
  auto s = parlay::tabulate(n, [&](size_t i) -> const int64_t* { return &v[i]; }); auto c = [&](const int64_t* a, const int64_t* b) { return o.less(*a, *b); };
  auto key = [](const int64_t* p) { return *p; }; auto tag = [&](const int64_t* p) { return p - v.data(); };
  if (form == 0) sc::verify(parlay::sort(s, c), v, o, false, key, tag, true, "sort"); else if (form == 1) sc::verify(parlay::stable_sort(s, c), v, o, true, key, tag, true, "stable_sort");
  else if (form == 2) { parlay::sort_inplace(s, c); sc::verify(s, v, o, false, key, tag, true, "sort_inplace"); } else { parlay::stable_sort_inplace(s, c); sc::verify(s, v, o, true, key, tag, true, "stable_sort_inplace"); }
}
// sorting part of a range leaves the rest alone
PBT_SUB(slices, 1500, 15000, 30, F_NONE) {
  size_t n = g.len(30000, {16384 + 20, 300, 600}); std::string sh; auto v = sc::contents(g, n, sh); size_t a = n ? g.below(std::min<size_t>(n, 20) + 1) : 0, b = n - (n > a ? g.below(std::min<size_t>(n - a, 20) + 1) : 0); bool st = g.coin();
  g.desc << "slice [" << a << "," << b << ") of " << n << (st ? " stable" : ""); g.ready(); g.mark(b > a + 1);
  auto s = parlay::to_sequence(v); auto w = v; std::sort(w.begin() + (long)a, w.begin() + (long)b);
  if (st) parlay::stable_sort_inplace(s.cut(a, b)); else parlay::sort_inplace(s.cut(a, b));
  for (size_t i = 0; i < n; i++) CHECK(s[i] == w[i], "at", i);
}
