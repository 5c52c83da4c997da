// reduce / scan against the sequential fold
#include "pbt.h"
#include "types.h"
#include <parlay/primitives.h>
#include <parlay/monoid.h>
#include <limits>
using namespace pbt;

// Interval concatenation: associative, not commutative, has an identity, and detects any non-adjacent combination.
struct Iv {
  std::vector<u64> d;   // {} identity, {lo,hi,hash,pow}; heap allocated so that a moved-from operand is noticed
  bool operator==(const Iv& o) const { return d == o.d; }
};
constexpr u64 BASE = 0x100000001b3ull;
struct IvOp {
  Iv operator()(const Iv& a, const Iv& b) const {
    if (a.d.empty()) return b;
    if (b.d.empty()) return a;
    if (a.d[1] != b.d[0]) soft_fail("operator applied to non-adjacent segments " + std::to_string(a.d[0]) + ".." + std::to_string(a.d[1]) + " and " + std::to_string(b.d[0]) + ".." + std::to_string(b.d[1]));
    jitter(a.d[0] * 31 + b.d[1]);
    return Iv{{a.d[0], b.d[1], a.d[2] * b.d[3] + b.d[2], a.d[3] * b.d[3]}};
  }
};
static std::vector<Iv> ivs(const std::vector<int64_t>& v) {
  std::vector<Iv> r(v.size());
  for (size_t i = 0; i < v.size(); i++) r[i] = Iv{{i, i + 1, (u64)v[i], BASE}};
  return r;
}
struct Mat { u64 a, b, c, d; bool operator==(const Mat& o) const { return a == o.a && b == o.b && c == o.c && d == o.d; } };
struct MatOp { Mat operator()(const Mat& x, const Mat& y) const { return {x.a * y.a + x.b * y.c, x.a * y.b + x.b * y.d, x.c * y.a + x.d * y.c, x.c * y.b + x.d * y.d}; } };

template <typename T, typename M> std::pair<std::vector<T>, T> ref_scan(const std::vector<T>& v, M&& m, bool incl) {
  std::vector<T> r; T t = m.identity;
  for (auto const& x : v) { if (!incl) r.push_back(t); t = m(t, x); if (incl) r.push_back(t); }
  return {r, t};
}
static void perturb(Gen& g) { set_jitter(g.seed(), (unsigned)g.pick({0u, 0u, 5u, 30u})); }

template <typename T, typename M>
void all_forms(Gen& g, const std::vector<T>& v, M m) {
  unsigned kind = (unsigned)g.below(5), form = (unsigned)g.below(5);
  static const char* fn[] = {"reduce", "scan", "scan_inclusive", "scan_inplace", "scan_inclusive_inplace"};
  g.desc << fn[form] << " over " << (kind == 4 ? "delayed" : vt::AnyRange<T>::name(kind)) << " n=" << v.size();
  g.ready();
  g.label(fn[form]); g.label(v.size() > 2048 ? "n>2048" : v.size() > 1024 ? "n>1024" : "n<=1024");
  g.mark(v.size() > 1);
  auto [ex, tot] = ref_scan(v, m, false);
  auto [in, tot2] = ref_scan(v, m, true);
  auto same = [&](auto const& got, auto const& want, const char* w) {
    CHECK(got.size() == want.size(), w, got.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) CHECK(got[i] == want[i], w, "differs at", i, "of", want.size());
  };
  if (form == 3) { auto s = parlay::sequence<T>(v.begin(), v.end()); T t = parlay::scan_inplace(s, m); CHECK(t == tot, "total"); same(s, ex, "scan_inplace"); return; }
  if (form == 4) { std::vector<T> s = v; T t = parlay::scan_inclusive_inplace(s, m); CHECK(t == tot, "total"); same(s, in, "scan_inclusive_inplace"); return; }
  auto go = [&](auto const& r) {
    if (form == 0) { T x = parlay::reduce(r, m); CHECK(x == tot, "n", v.size()); }
    else if (form == 1) { auto [s, t] = parlay::scan(r, m); CHECK(t == tot, "total"); same(s, ex, "scan"); }
    else { auto s = parlay::scan_inclusive(r, m); same(s, in, "scan_inclusive"); }
  };
  if (kind == 4) go(parlay::delayed_tabulate(v.size(), [p = v.data()](size_t i) -> T { return p[i]; }));
  else go(vt::AnyRange<T>(kind, v));
}

PBT_SUB(interval, 900, 20000, 30, F_NONE) {
  size_t n = g.len(g.thorough ? 400000 : 40000, {1024, 2048, 3072, 4096, 1025});
  std::string sh; auto v = ints(g, n, 0, 1000000, &sh); perturb(g);
  g.desc << "interval monoid (" << sh << ") ";
  all_forms(g, ivs(v), parlay::binary_op(IvOp{}, Iv{}));
}
PBT_SUB(matrix_large, 160, 3000, 30, F_NONE) {
  size_t n = g.len(g.thorough ? 3000000 : 600000, {65536, 66000, 1 << 18, 262144 + 512, 1024 * 1024});
  u64 s = g.seed(); Rng r(s); perturb(g);
  std::vector<Mat> v(n); for (auto& x : v) x = Mat{r.next(), r.next(), r.next(), r.next()};
  g.desc << "matrix monoid ";
  all_forms(g, v, parlay::binary_op(MatOp{}, Mat{1, 0, 0, 1}));
}
PBT_SUB(concat, 120, 2000, 30, F_NONE) {
  size_t n = g.len(1500 + (g.thorough ? 2500 : 1000), {1024, 2048, 2049});
  auto v = ints(g, n, 0, 25); std::vector<std::string> w; for (auto x : v) w.push_back(x > 20 ? std::string() : std::string(1, (char)('a' + x)));
  g.desc << "string concatenation ";
  all_forms(g, w, parlay::binary_op([](const std::string& a, const std::string& b) { return a + b; }, std::string()));
}

