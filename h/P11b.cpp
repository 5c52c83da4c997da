// reduce / scan: default sums, legacy and composed monoids
#include "pbt.h"
#include "types.h"
#include <parlay/primitives.h>
#include <parlay/monoid.h>
#include <limits>
using namespace pbt;

// Interval concatenation: associative, not commutative, has an identity, and detects any non-adjacent combination.
struct Iv {
  std::vector<u64> d;   // {} identity, {lo,hi,hash,pow}; heap allocated so that a moved-from operand is noticed
  bool operator==(const Iv& o) const { return d == o.d; }
};
constexpr u64 BASE = 0x100000001b3ull;
struct IvOp {
  Iv operator()(const Iv& a, const Iv& b) const {
    if (a.d.empty()) return b;
    if (b.d.empty()) return a;
    if (a.d[1] != b.d[0]) soft_fail("operator applied to non-adjacent segments " + std::to_string(a.d[0]) + ".." + std::to_string(a.d[1]) + " and " + std::to_string(b.d[0]) + ".." + std::to_string(b.d[1]));
    jitter(a.d[0] * 31 + b.d[1]);
    return Iv{{a.d[0], b.d[1], a.d[2] * b.d[3] + b.d[2], a.d[3] * b.d[3]}};
  }
};
static std::vector<Iv> ivs(const std::vector<int64_t>& v) {
  std::vector<Iv> r(v.size());
  for (size_t i = 0; i < v.size(); i++) r[i] = Iv{{i, i + 1, (u64)v[i], BASE}};
  return r;
}
// sum without a monoid argument, and element type different from the accumulator type
PBT_SUB(default_sum_and_mixed, 300, 6000, 20, F_NONE) {
  size_t n = g.len(20000, {1024, 2048, 4096});
  auto raw = ints(g, n, -128, 127); unsigned form = (unsigned)g.below(5);
  g.desc << "form " << form << " n=" << n; g.ready(); g.mark(n > 1);
  std::vector<signed char> c(raw.begin(), raw.end());
  std::vector<long> l(raw.begin(), raw.end());
  long tot = 0; for (auto x : raw) tot += x;
  switch (form) {
    case 0: { auto m = parlay::plus<long>(); long x = parlay::reduce(c, m); CHECK(x == tot, x, tot); break; }
    case 1: { auto [s, t] = parlay::scan(c, parlay::plus<long>()); CHECK((long)t == tot); long a = 0; CHECK(s.size() == n); for (size_t i = 0; i < n; i++) { CHECK((long)s[i] == a, i); a += c[i]; } break; }
    case 2: { CHECK(parlay::reduce(l) == tot); break; }
    case 3: { auto [s, t] = parlay::scan(l); CHECK(t == tot); auto q = parlay::scan_inclusive(l); long a = 0; CHECK(s.size() == n && q.size() == n); for (size_t i = 0; i < n; i++) { CHECK(s[i] == a, i); a += l[i]; CHECK(q[i] == a, i); } break; }
    case 4: { auto s = parlay::to_sequence(l); auto t = parlay::scan_inplace(s); CHECK(t == tot); auto q = parlay::to_sequence(l); CHECK(parlay::scan_inclusive_inplace(q) == tot); long a = 0; for (size_t i = 0; i < n; i++) { CHECK(s[i] == a, i); a += l[i]; CHECK(q[i] == a, i); } break; }
  }
}
// legacy monoids and composed monoids
struct OldConcat { using T = Iv; T identity; static T f(T a, T b) { return IvOp{}(a, b); } };
PBT_SUB(legacy, 300, 5000, 20, F_NONE) {
  size_t n = g.len(9000, {1024, 2048});
  auto raw = ints(g, n, -1000, 1000); unsigned form = (unsigned)g.below(7);
  std::vector<long> l(raw.begin(), raw.end());
  g.desc << "legacy form " << form << " n=" << n; g.ready(); g.mark(n > 1); g.label("form" + std::to_string(form));
  long mx = std::numeric_limits<long>::lowest(), mn = std::numeric_limits<long>::max(), sum = 0, xr = 0;
  for (auto x : l) { mx = std::max(mx, x); mn = std::min(mn, x); sum += x; xr ^= x; }
  switch (form) {
    case 0: CHECK(parlay::reduce(l, parlay::addm<long>()) == sum); CHECK(parlay::reduce(l, parlay::xorm<long>()) == xr); break;
    case 1: CHECK(parlay::reduce(l, parlay::maxm<long>()) == mx); CHECK(parlay::reduce(l, parlay::minm<long>()) == mn); break;
    case 2: { auto p = parlay::reduce(parlay::delayed_map(l, [](long x) { return std::make_pair(x, x); }), parlay::minmaxm<long>()); CHECK(p.first == mn && p.second == mx, p.first, p.second); break; }
    case 3: { auto p = parlay::reduce(parlay::delayed_map(l, [](long x) { return std::make_pair(x, x); }), parlay::pair_monoid(parlay::addm<long>(), parlay::maxm<long>())); CHECK(p.first == sum && p.second == mx, p.first, p.second); break; }
    case 4: { auto m = parlay::array_monoid<parlay::addm<long>, 3>(parlay::addm<long>()); auto p = parlay::reduce(parlay::delayed_map(l, [](long x) { return std::array<long, 3>{x, 2 * x, 1}; }), m); CHECK(p[0] == sum && p[1] == 2 * sum && p[2] == (long)n); break; }
    case 5: { auto v = ivs(raw); OldConcat m{}; auto [e, t] = parlay::scan(v, m); auto q = parlay::scan_inclusive(v, m); Iv a{}; CHECK(e.size() == n && q.size() == n);
      for (size_t i = 0; i < n; i++) { CHECK(e[i] == a, i); a = IvOp{}(a, v[i]); CHECK(q[i] == a, i); } CHECK(t == a); CHECK(parlay::reduce(v, m) == a);
      auto ip = v; CHECK(parlay::scan_inplace(ip, m) == a); auto iq = v; CHECK(parlay::scan_inclusive_inplace(iq, m) == a); for (size_t i = 0; i < n; i++) { CHECK(ip[i] == e[i]); CHECK(iq[i] == q[i]); } break; }
    case 6: { auto m = parlay::make_monoid([](long a, long b) { return std::max(a, b); }, std::numeric_limits<long>::lowest()); auto [s, t] = parlay::scan(l, m); CHECK(t == mx); long a = std::numeric_limits<long>::lowest(); for (size_t i = 0; i < n; i++) { CHECK(s[i] == a, i); a = std::max(a, l[i]); } break; }
  }
}
