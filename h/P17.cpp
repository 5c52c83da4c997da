// merge, binary search, selection, ranking, duplicate removal
#include "sortcase.h"
#ifndef VERIF_NO_INTERNAL
#include <parlay/internal/heap_tree.h>
#endif
using namespace pbt; using vt::Small; using sc::Order;
using V = std::vector<int64_t>;
#if PART == 1
PBT_SUB(merge, 4000, 40000, 30, F_NONE) {
  size_t n = g.len(g.thorough ? 100000 : 20000, {2000, 1000, 4000}), m = g.below(3) ? g.len(g.thorough ? 100000 : 20000, {2000, 1000}) : g.below(4); std::string sa, sb; auto a = sc::contents(g, n, sa), b = sc::contents(g, m, sb); Order o = sc::order(g); unsigned form = (unsigned)g.below(3);
  auto lt = [&](int64_t x, int64_t y) { return o.less(x, y); }; std::stable_sort(a.begin(), a.end(), lt); std::stable_sort(b.begin(), b.end(), lt); if (g.coin()) std::swap(a, b);
  g.desc << "merge form " << form << " n=" << a.size() << "," << b.size() << " " << sa << "/" << sb << " order " << o.mode << " " << show(a) << show(b); g.ready(); g.mark(n > 0 && m > 0); g.label(n + m >= 2000 ? "parallel" : "serial");
  auto mk = [](const V& v, int64_t base) { std::vector<Small> r; for (size_t i = 0; i < v.size(); i++) r.push_back(Small{(int)v[i], (int)(base + (int64_t)i)}); return r; };
  auto x = mk(a, 0), y = mk(b, 1000000); std::vector<Small> w; auto c = [&](const Small& p, const Small& q) { return o.less(p.v, q.v); }; std::merge(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(w), c);
  auto chk = [&](auto const& r) { CHECK(r.size() == w.size()); for (size_t i = 0; i < w.size(); i++) CHECK(r[i].v == w[i].v && r[i].tag == w[i].tag, "merge differs at", i, "of", w.size(), "got", r[i].v, r[i].tag, "want", w[i].v, w[i].tag); };
  if (form == 0) chk(parlay::merge(x, y, c)); else if (form == 1) chk(lin::merge(parlay::make_slice(x), parlay::make_slice(y), c)); else { V z; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(z)); auto r = parlay::merge(a, b); CHECK(r.size() == z.size()); for (size_t i = 0; i < z.size(); i++) CHECK(r[i] == z[i], i); }
}
PBT_SUB(search, 6000, 60000, 20, F_SINGLE) {
  size_t n = g.len(3000, {16, 17, 32, 33}); std::string sh; auto v = sc::contents(g, n, sh); std::sort(v.begin(), v.end()); int64_t q = n && g.coin() ? v[g.below(n)] + g.range(-1, 1) : g.range(-1100, 1100);
  g.desc << "binary_search n=" << n << " " << sh << " query " << q << " " << show(v); g.ready(); g.mark(n > 0);
  size_t w = (size_t)(std::lower_bound(v.begin(), v.end(), q) - v.begin()); auto s = parlay::to_sequence(v);
  size_t x = lin::binary_search(s, q, std::less<>()); CHECK(x == w, x, w); x = lin::binary_search(s, [&](int64_t e) { return e < q; }); CHECK(x == w, "predicate form", x, w);
  x = lin::binary_search(s, [&](int64_t e) { return e <= q; }); w = (size_t)(std::upper_bound(v.begin(), v.end(), q) - v.begin()); CHECK(x == w, "upper bound", x, w);
}
#ifndef VERIF_NO_INTERNAL
PBT_SUB(heap_tree, 2000, 20000, 20, F_SINGLE) {   // the pivots' tree: rank puts a key between its neighbouring pivots
  unsigned lv = 1 + (unsigned)g.below(7); size_t k = (size_t(1) << lv) - 1; V p(k); int64_t lim = g.pick<int64_t>({2, 20, 1000}); for (auto& x : p) x = g.range(0, lim); std::sort(p.begin(), p.end()); auto s = parlay::to_sequence(p); parlay::internal::heap_tree<int64_t> t(s);
  g.desc << "heap_tree of " << k << " pivots " << show(p); g.ready(); g.mark();
  size_t last = 0; for (int64_t q = -1; q <= lim + 1; q++) { size_t r = t.rank(q, std::less<>()); CHECK(r <= k, r); CHECK(r == 0 || !(q < p[r - 1]), "key", q, "ranked", r, "but smaller than pivot", p[r - 1]); CHECK(r == k || !(p[r] < q), "key", q, "ranked", r, "but greater than pivot", p[r]); CHECK(r >= last, "rank not monotone"); last = r; }
}
#endif
#elif PART == 2
PBT_SUB(kth, 3000, 30000, 10, F_NONE) {
  size_t n = 1 + g.len(g.thorough ? 60000 : 12000, {1000, 1001, 2000}); std::string sh; auto v = sc::contents(g, n, sh); Order o = sc::order(g); size_t k = g.pick<size_t>({g.below(n), g.below(n), 0, n - 1}); unsigned form = (unsigned)g.below(4), kind = (unsigned)g.below(4);
  g.desc << "kth form " << form << " k=" << k << " n=" << n << " " << sh << " order " << o.mode << "/" << o.div << " " << show(v); g.ready(); g.mark(n > 1); g.label(n > 1000 ? "n>1000" : "n<=1000"); g.label(sh);
  auto c = [&](int64_t a, int64_t b) { return o.less(a, b); }; auto w = v; std::stable_sort(w.begin(), w.end(), c); vt::AnyRange<int64_t> r(kind, v);
  auto chk = [&](int64_t x) { CHECK(!o.less(x, w[k]) && !o.less(w[k], x), "got", x, "expected", w[k]); CHECK(std::find(v.begin(), v.end(), x) != v.end(), "not an element", x); };
  if (form == 0) chk(parlay::kth_smallest_copy(r, k, c)); else if (form == 1) { auto it = parlay::kth_smallest(r, k, c); CHECK(it - r.begin() >= 0 && it - r.begin() < (long)n); chk(*it); }
  else if (form == 2) { std::sort(w.begin(), w.end()); o.mode = 0; chk(parlay::kth_smallest_copy(v, k)); }
  else { // equality finer than the order
    struct KT { int64_t k, t; bool operator!=(const KT& b) const { return k != b.k || t != b.t; } }; auto s = parlay::tabulate(n, [&](size_t i) { return KT{v[i], (int64_t)i}; }); auto x = parlay::kth_smallest_copy(s, k, [&](const KT& a, const KT& b) { return o.less(a.k, b.k); }); CHECK(v[(size_t)x.t] == x.k); chk(x.k); }
}
PBT_SUB(kth_ties, 60, 600, 10, F_NONE) {   // few classes, many members: neither the stack nor the work may blow up
  size_t n = 1001 + g.below(g.thorough ? 1000000 : 250000); int64_t m = g.pick<int64_t>({1, 2, 3, 10, 1000}); u64 seed = g.seed(); size_t k = g.below(n); unsigned form = (unsigned)g.below(3);
  g.desc << "kth_ties form " << form << " k=" << k << " n=" << n << " classes " << m << " seed " << seed; g.ready(); g.mark(); g.label("ties");
  struct KT { int64_t k, t; bool operator!=(const KT& b) const { return k != b.k || t != b.t; } }; auto v = parlay::tabulate(n, [&](size_t i) { return KT{(int64_t)(mix(seed + i) % (u64)m), (int64_t)i}; });
  std::vector<size_t> cnt((size_t)m); for (auto& x : v) cnt[(size_t)x.k]++; int64_t w = 0; { size_t acc = 0; while (acc + cnt[(size_t)w] <= k) acc += cnt[(size_t)w++]; }
  std::atomic<size_t> calls{0}; auto c = [&](const KT& a, const KT& b) { calls.fetch_add(1, std::memory_order_relaxed); return a.k < b.k; };
  int64_t r = form == 0 ? parlay::kth_smallest_copy(v, k, c).k : form == 1 ? (*parlay::kth_smallest(v, k, c)).k : parlay::kth_smallest_copy(parlay::map(v, [](const KT& x) { return x.k; }), k);
  CHECK(r == w, r, w); CHECK(calls.load() <= 100 * n + 200000, "comparisons", calls.load(), "for n", n);
}
#else
PBT_SUB(rank_unique, 4000, 40000, 30, F_NONE) {
  size_t n = g.len(20000, {48, 2000, 1024, 2048, 16384}); std::string sh; auto v = sc::contents(g, n, sh); Order o = sc::order(g); unsigned form = (unsigned)g.below(5), kind = (unsigned)g.below(4);
  static const char* nm[] = {"rank", "rank<int>", "unique", "remove_duplicates_ordered", "rank default"}; g.desc << nm[form] << " n=" << n << " " << sh << " order " << o.mode << "/" << o.div << " " << show(v); g.ready(); g.mark(n > 1); g.label(nm[form]);
  auto c = [&](int64_t a, int64_t b) { return o.less(a, b); }; vt::AnyRange<int64_t> r(kind, v);
  if (form == 0 || form == 1 || form == 4) { if (form == 4) o.mode = 0; std::vector<size_t> p(n), w(n); for (size_t i = 0; i < n; i++) p[i] = i; std::stable_sort(p.begin(), p.end(), [&](size_t a, size_t b) { return o.less(v[a], v[b]); }); for (size_t i = 0; i < n; i++) w[p[i]] = i;
    auto chk = [&](auto const& x) { CHECK(x.size() == n); for (size_t i = 0; i < n; i++) CHECK((size_t)x[i] == w[i], "rank of", i, x[i], w[i]); }; if (form == 0) chk(parlay::rank(r, c)); else if (form == 1) chk(parlay::rank<int>(r, c)); else chk(parlay::rank(v)); }
  else if (form == 2) { V w; auto eq = [&](int64_t a, int64_t b) { return o.cls(a) == o.cls(b); }; std::unique_copy(v.begin(), v.end(), std::back_inserter(w), eq); auto x = parlay::unique(r, eq); CHECK(x.size() == w.size(), x.size(), w.size()); for (size_t i = 0; i < w.size(); i++) CHECK(x[i] == w[i], i); }
  else { auto x = parlay::remove_duplicates_ordered(r, c); V w = v; std::stable_sort(w.begin(), w.end(), c); w.erase(std::unique(w.begin(), w.end(), [&](int64_t a, int64_t b) { return !c(a, b) && !c(b, a); }), w.end()); CHECK(x.size() == w.size(), x.size(), w.size()); for (size_t i = 0; i < w.size(); i++) { CHECK(!c(x[i], w[i]) && !c(w[i], x[i]), i, x[i], w[i]); CHECK(std::find(v.begin(), v.end(), x[i]) != v.end()); } }
}
#endif
