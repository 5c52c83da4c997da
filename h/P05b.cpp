// Large inputs: the same call with few and with many workers.
#include "../lib/types.h"
#include <parlay/primitives.h>
#include <parlay/delayed.h>
#include <parlay/random.h>
using namespace pbt;
namespace {
using V = std::vector<int64_t>;
int64_t bits(double x) { int64_t y; memcpy(&y, &x, 8); return y; }
struct P { int32_t k, t; };
V call(int which, size_t n, u64 sd, size_t m) {
  V o; auto val = [sd](size_t i) { return double(mix(sd ^ i) % 1000003) / 7 - 60000; };
  auto key = [sd, m](size_t i) { u64 h = mix(sd + i); return (h & 7) ? size_t(h >> 8) % m : size_t(3) % m; };
  auto sum = parlay::plus<double>();
  switch (which) {
    case 0: o.push_back(bits(parlay::reduce(parlay::tabulate(n, val)))); break;
    case 1: { auto [s, t] = parlay::scan(parlay::tabulate(n, val), sum); for (size_t i = 0; i < n; i += 997) o.push_back(bits(s[i])); o.push_back(bits(t)); break; }
    case 2: { auto a = parlay::tabulate(n, val); o.push_back(bits(parlay::delayed::reduce(parlay::delayed::map(a, [](double x) { return x * 1.1; })))); auto [s, t] = parlay::delayed::scan(a, sum); o.push_back(bits(t)); auto q = parlay::delayed::to_sequence(s); for (size_t i = 0; i < n; i += 997) o.push_back(bits(q[i])); break; }
    case 3: { auto r = parlay::reduce_by_index(parlay::tabulate(n, [&](size_t i) { return std::make_pair(key(i), val(i)); }), m, sum); for (double x : r) o.push_back(bits(x)); break; }
    case 4: { auto r = parlay::reduce_by_key(parlay::tabulate(n, [&](size_t i) { return std::make_pair(key(i), val(i)); }), sum); for (auto& [k, x] : r) { o.push_back((int64_t)k); o.push_back(bits(x)); } break; }
    case 5: { auto r = parlay::sort(parlay::tabulate(n, [&](size_t i) { return P{(int32_t)key(i), (int32_t)i}; }), [](const P& a, const P& b) { return a.k < b.k; }); for (size_t i = 0; i < n; i += 101) o.push_back(r[i].t); break; }
    case 6: { auto r = parlay::tabulate(n, [&](size_t i) { return P{(int32_t)key(i), (int32_t)i}; }); parlay::sort_inplace(r, [](const P& a, const P& b) { return a.k / 2 < b.k / 2; }); for (size_t i = 0; i < n; i += 101) o.push_back(r[i].t); break; }
    case 7: { auto r = parlay::random_permutation<uint32_t>((uint32_t)n, parlay::random(sd)); for (size_t i = 0; i < n; i += 101) o.push_back(r[i]); break; }
    case 8: { auto r = parlay::group_by_key(parlay::tabulate(n, [&](size_t i) { return std::make_pair(key(i), (uint32_t)i); })); for (auto& [k, v] : r) { o.push_back((int64_t)k); u64 h = v.size(); for (auto x : v) h = mix(h ^ x); o.push_back((int64_t)h); } break; }
    case 9: { auto r = parlay::histogram_by_key(parlay::tabulate(n, key)); for (auto& [k, c] : r) { o.push_back((int64_t)k); o.push_back((int64_t)c); } auto d = parlay::remove_duplicates(parlay::tabulate(n, key)); for (auto x : d) o.push_back((int64_t)x); break; }
    case 10: { auto a = parlay::tabulate(n, val); o.push_back(bits(parlay::kth_smallest_copy(a, n / 3))); o.push_back(parlay::max_element(a, [](double x, double y) { return (int64_t)x / 100 < (int64_t)y / 100; }) - a.begin()); break; }
    case 11: { auto r = parlay::integer_sort(parlay::tabulate(n, [&](size_t i) { return P{(int32_t)key(i), (int32_t)i}; }), [](const P& p) { return (uint32_t)p.k; }); for (size_t i = 0; i < n; i += 101) o.push_back(r[i].t); break; }
    case 12: { auto f = parlay::filter(parlay::tabulate(n, key), [](size_t k) { return k % 3 != 0; }); o.push_back((int64_t)f.size()); for (size_t i = 0; i < f.size(); i += 101) o.push_back((int64_t)f[i]); auto x = parlay::tabulate(n, [&](size_t i) { return (double)val(i); }); auto mm = parlay::reduce(x, parlay::make_monoid([](double a, double b) { return a * 0.5 + b * 0.5; }, 0.0)); o.push_back(bits(mm)); break; }
  }
  return o; }
}
PBT_SUB(large, 80, 800, 90, F_NONE) {
  static const char* nm[] = {"reduce", "scan", "delayed reduce and scan", "reduce_by_index", "reduce_by_key", "sort", "sort_inplace", "random_permutation", "group_by_key", "histogram_by_key, remove_duplicates", "kth_smallest, max_element", "integer_sort", "filter, reduce by a mean"};
  int which = (int)g.below(13); size_t n = (size_t)g.range(60000, which < 3 || which == 10 || which == 12 ? 2000000 : 500000), m = g.pick<size_t>({2, 40, 3000, 100000}); u64 sd = g.seed(); int w1 = g.pick({1, 1, 2, 3}), w2 = g.pick({2, 4, 7, 8, 16, 20}); if (w1 == w2) w1 = 1;
  g.desc << nm[which] << " n=" << n << " keys below " << m << " with " << w1 << " and " << w2 << " workers"; g.label(nm[which]); g.ready(); g.mark(true);
  V a, b; parlay::execute_with_scheduler((unsigned)w1, [&] { a = call(which, n, sd, m); }); parlay::execute_with_scheduler((unsigned)w2, [&] { b = call(which, n, sd, m); });
  CHECK(a == b, nm[which], w1, w2, "results of", a.size(), b.size());
}
