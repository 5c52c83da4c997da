// searches and comparisons against the standard algorithms
#include "pbt.h"
#include "types.h"
#include "lin.h"
using namespace pbt;
using V = std::vector<int64_t>;
static void perturb(Gen& g) { set_jitter(g.seed(), (unsigned)g.pick({0u, 0u, 0u, 5u, 30u})); }

PBT_SUB(witness, 14000, 140000, 20, F_NONE) {   // predicates over one range
  size_t n = g.len(g.thorough ? 100000 : 30000, {1000, 3000, 7000, 1024, 2048, 15000}); unsigned form = (unsigned)g.below(13), kind = (unsigned)g.below(4);
  static const char* nm[] = {"all_of", "any_of", "none_of", "count", "count_if", "find", "find_if", "find_if_not", "is_partitioned", "is_sorted", "is_sorted_until", "adjacent_find", "find_if_index"};
  auto fl = flags(g, n); if (form == 7 || form == 0 || form == 8) if (g.coin()) for (auto& x : fl) x = !x;
  V v(n);
  if (form == 9 || form == 10) { int64_t c = 0; for (size_t i = 0; i < n; i++) { if (fl[i]) c--; else if ((i & 3) == 0) c++; v[i] = c; } }
  else if (form == 11) { for (size_t i = 0; i < n; i++) v[i] = i == 0 ? 0 : fl[i] ? v[i - 1] : 1 - v[i - 1]; }
  else if (form == 8 && g.coin()) { size_t k = n ? g.below(n + 1) : 0; for (size_t i = 0; i < n; i++) v[i] = i < k; if (n && g.coin()) { size_t j = g.below(n); v[j] = 1 - v[j]; } }
  else for (size_t i = 0; i < n; i++) v[i] = fl[i] ? 1 : 0;
  perturb(g);
  g.desc << nm[form] << " " << vt::AnyRange<int>::name(kind) << " n=" << n << " " << show(v); g.ready(); g.label(nm[form]);
  vt::AnyRange<int64_t> r(kind, v); 
  auto p = [](int64_t x) { jitter((u64)x + 17); return x != 0; };
  size_t first1 = (size_t)(std::find(v.begin(), v.end(), 1) - v.begin()), cnt = (size_t)std::count(v.begin(), v.end(), 1); g.mark(n > 1 && cnt != 0 && cnt != n); g.label(first1 == n ? "absent" : first1 < 1000 ? "first<1000" : first1 < 3000 ? "first<3000" : "first>=3000");
  auto at = [&](auto it) { return (size_t)(it - std::begin(r)); };
  switch (form) {
    case 0: CHECK(parlay::all_of(r, p) == (cnt == n)); break;
    case 1: CHECK(parlay::any_of(r, p) == (cnt > 0)); break;
    case 2: CHECK(parlay::none_of(r, p) == (cnt == 0)); break;
    case 3: CHECK(parlay::count(r, (int64_t)1) == cnt); break;
    case 4: CHECK(parlay::count_if(r, p) == cnt); break;
    case 5: CHECK(at(parlay::find(r, (int64_t)1)) == first1, at(parlay::find(r, (int64_t)1)), first1); break;
    case 6: CHECK(at(parlay::find_if(r, p)) == first1, at(parlay::find_if(r, p)), first1); break;
    case 7: { size_t w = (size_t)(std::find(v.begin(), v.end(), 0) - v.begin()); size_t x = at(parlay::find_if_not(r, p)); CHECK(x == w, x, w); break; }
    case 8: CHECK(parlay::is_partitioned(r, p) == std::is_partitioned(v.begin(), v.end(), p)); break;
    case 9: CHECK(parlay::is_sorted(r, std::less<>()) == std::is_sorted(v.begin(), v.end())); CHECK(parlay::is_sorted(v) == std::is_sorted(v.begin(), v.end())); break;
    case 10: { size_t w = (size_t)(std::is_sorted_until(v.begin(), v.end()) - v.begin()); size_t x = at(parlay::is_sorted_until(r, std::less<>())); CHECK(x == w, x, w); CHECK((size_t)(parlay::is_sorted_until(v) - v.begin()) == w); break; }
    case 11: { size_t w = (size_t)(std::adjacent_find(v.begin(), v.end()) - v.begin()); size_t x = at(parlay::adjacent_find(r)); CHECK(x == w, x, w);
      size_t w2 = (size_t)(std::adjacent_find(v.begin(), v.end(), std::greater<>()) - v.begin()); size_t x2 = at(parlay::adjacent_find(r, std::greater<>())); CHECK(x2 == w2, x2, w2, "asymmetric predicate"); break; }
    case 12: { size_t gr = g.pick<size_t>({1, 2, 7, 100, 1000, 1000}); size_t x = lin::find_if_index(n, [&](size_t i) { if (i >= n) soft_fail("index outside of the range"); return v[i] != 0; }, gr); CHECK(x == first1, x, first1, "granularity", gr); CHECK(lin::count_if_index(n, [&](size_t i) { return v[i] != 0; }) == cnt); break; }
  }
}
PBT_SUB(extremes, 5000, 50000, 20, F_NONE) {
  size_t n = g.len(20000, {1024, 2048, 4096}); unsigned form = (unsigned)g.below(4), kind = (unsigned)g.below(4); std::string sh;
  auto v = ints(g, n, g.pick<int64_t>({0, -1000000}), g.pick<int64_t>({1, 5, 1000000}), &sh); perturb(g);
  static const char* nm[] = {"min_element", "max_element", "minmax_element", "comparison by key"};
  g.desc << nm[form] << " n=" << n << " " << sh << " " << show(v); g.ready(); g.mark(n > 1); g.label(nm[form]);
  vt::AnyRange<int64_t> r(kind, v); auto at = [&](auto it) { return (size_t)(it - std::begin(r)); };
  switch (form) {
    case 0: { size_t w = (size_t)(std::min_element(v.begin(), v.end()) - v.begin()), x = at(parlay::min_element(r)); CHECK(x == w, x, w); break; }
    case 1: { size_t w = (size_t)(std::max_element(v.begin(), v.end()) - v.begin()), x = at(parlay::max_element(r)); CHECK(x == w, x, w); break; }
    case 2: { auto [a, b] = parlay::minmax_element(r); if (n == 0) { CHECK(at(a) == 0 && at(b) == 0); break; } size_t w = (size_t)(std::min_element(v.begin(), v.end()) - v.begin()); CHECK(at(a) == w, at(a), w); CHECK(at(b) < n && v[at(b)] == *std::max_element(v.begin(), v.end()), "not a maximum", at(b)); 
      // first or last of the maxima
      size_t f = (size_t)(std::max_element(v.begin(), v.end()) - v.begin()), l = f; for (size_t i = f; i < n; i++) if (v[i] == v[f]) l = i; CHECK(at(b) == f || at(b) == l, at(b), f, l); break; }
    case 3: { auto key = [](int64_t x) { return ((x % 13) + 13) % 13; }; auto c = [&](int64_t a, int64_t b) { return key(a) > key(b); };
      size_t w = (size_t)(std::min_element(v.begin(), v.end(), c) - v.begin()), x = at(parlay::min_element(r, c)); CHECK(x == w, x, w); w = (size_t)(std::max_element(v.begin(), v.end(), c) - v.begin()); x = at(parlay::max_element(r, c)); CHECK(x == w, x, w); break; }
  }
}
// two ranges
PBT_SUB(pairs, 9000, 90000, 20, F_NONE) {
  size_t n = g.len(g.thorough ? 60000 : 20000, {1000, 1001, 3000, 7000}); unsigned form = (unsigned)g.below(5), kind = (unsigned)g.below(4);
  static const char* nm[] = {"mismatch", "equal", "lexicographical_compare", "sequence <", "sequence =="};
  auto a = ints(g, n, 0, 3); V b = a; size_t diffs = g.below(4), m = n;
  for (size_t i = 0; i < diffs && n; i++) b[g.below(n)] = g.range(0, 3);
  switch (g.below(4)) { case 0: m = n ? g.below(n + 1) : 0; b.resize(m); break; case 1: { m = n + 1 + g.below(5); b.resize(m, 1); break; } }
  if (g.coin()) std::swap(a, b);
  perturb(g); g.desc << nm[form] << " n=" << a.size() << "," << b.size() << " " << show(a) << show(b); g.ready(); g.label(nm[form]); g.mark(!a.empty() && !b.empty());
  vt::AnyRange<int64_t> r(kind, a), q(kind + 1, b); size_t k = std::min(a.size(), b.size()), d = 0; while (d < k && a[d] == b[d]) d++; g.label(d == k ? "prefix" : d > 1000 ? "diff>1000" : "diff<=1000");
  bool lt = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
  switch (form) {
    case 0: { auto [x, y] = parlay::mismatch(r, q); CHECK((size_t)(x - r.begin()) == d && (size_t)(y - q.begin()) == d, (size_t)(x - r.begin()), d); auto [x2, y2] = parlay::mismatch(r, q, std::less_equal<>()); auto e = std::mismatch(a.begin(), a.begin() + (long)k, b.begin(), std::less_equal<>()); CHECK((x2 - r.begin()) == (e.first - a.begin()), "asymmetric predicate"); break; }
    case 1: CHECK(parlay::equal(r, q) == (a == b)); break;
    case 2: CHECK(parlay::lexicographical_compare(r, q) == lt); { auto c = [](int64_t x, int64_t y) { return x / 2 < y / 2; }; CHECK(parlay::lexicographical_compare(r, q, c) == std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), c), "custom order"); } break;
    case 3: { auto s = parlay::to_sequence(a), t = parlay::to_sequence(b); CHECK((s < t) == lt); CHECK((t < s) == (b < a)); break; }
    case 4: { auto s = parlay::to_sequence(a), t = parlay::to_sequence(b); CHECK((s == t) == (a == b)); CHECK((s != t) == (a != b)); std::vector<char> ca(a.begin(), a.end()), cb(b.begin(), b.end()); auto cs = parlay::to_short_sequence(ca), ct = parlay::to_short_sequence(cb); CHECK((cs == ct) == (ca == cb)); std::vector<std::string> sa, sb; for (auto x : a) sa.push_back(std::string((size_t)x, 'x')); for (auto x : b) sb.push_back(std::string((size_t)x, 'x')); CHECK((parlay::to_sequence(sa) == parlay::to_sequence(sb)) == (sa == sb)); break; }
  }
}
PBT_SUB(patterns, 9000, 90000, 20, F_NONE) {
  size_t n = g.len(12000, {1000, 1001, 3000, 3001, 7000}), m = g.chance(15) ? g.len(3000, {1000}) : g.below(6); unsigned form = (unsigned)g.below(4), kind = (unsigned)g.below(4);
  static const char* nm[] = {"search", "find_end", "find_first_of", "asymmetric predicate"};
  auto a = ints(g, n, 0, 1), b = ints(g, m, 0, 1);
  if (n && m && m <= n && g.coin()) { if (g.coin()) std::fill(a.begin(), a.end(), 2); size_t reps = 1 + g.below(3); while (reps--) { size_t p = g.below(n - m + 1); std::copy(b.begin(), b.end(), a.begin() + (long)p); } }
  perturb(g); g.desc << nm[form] << " n=" << n << " m=" << m << " " << show(a) << show(b); g.ready(); g.label(nm[form]); g.mark(n > 1 && m > 0); g.label(m > n ? "pattern longer" : m == n ? "same length" : "pattern shorter");
  vt::AnyRange<int64_t> r(kind, a), q(kind + 1, b); auto at = [&](auto it) { return (size_t)(it - std::begin(r)); };
  if (form == 0) { size_t w = (size_t)(std::search(a.begin(), a.end(), b.begin(), b.end()) - a.begin()), x = at(parlay::search(r, q)); CHECK(x == w, x, w); }
  else if (form == 1) { size_t w = (size_t)(std::find_end(a.begin(), a.end(), b.begin(), b.end()) - a.begin()), x = at(parlay::find_end(r, q)); CHECK(x == w, x, w); }
  else if (form == 2) { for (auto& x : b) x *= 2; vt::AnyRange<int64_t> q2(kind, b); size_t w = (size_t)(std::find_first_of(a.begin(), a.end(), b.begin(), b.end()) - a.begin()), x = at(parlay::find_first_of(r, q2)); CHECK(x == w, x, w); }
  else { auto p = [](int64_t x, int64_t y) { return x == 2 ? false : x <= y; };
    size_t w = (size_t)(std::search(a.begin(), a.end(), b.begin(), b.end(), p) - a.begin()), x = at(parlay::search(r, q, p)); CHECK(x == w, "search", x, w);
    w = (size_t)(std::find_end(a.begin(), a.end(), b.begin(), b.end(), p) - a.begin()); x = at(parlay::find_end(r, q, p)); CHECK(x == w, "find_end", x, w);
    w = (size_t)(std::find_first_of(a.begin(), a.end(), b.begin(), b.end(), p) - a.begin()); x = at(parlay::find_first_of(r, q, p)); CHECK(x == w, "find_first_of", x, w); }
}
