// reduce / scan against the sequential fold
#include "pbt.h"
#include "types.h"
#include <parlay/primitives.h>
#include <parlay/monoid.h>
#include <limits>
using namespace pbt;

// built-in monoids over arithmetic types
template <typename T, typename M> static void builtin(Gen& g, const char* name, M m, const std::vector<T>& v) {
  bool sc = g.coin(); g.desc << name << (sc ? " scan" : " reduce") << " n=" << v.size(); g.ready(); g.mark(v.size() > 1); g.label(name);
  T t = m.identity; std::vector<T> ex; for (auto x : v) { ex.push_back(t); t = m(t, x); }
  if (!sc) { T x = parlay::reduce(v, m); CHECK(x == t, x, t); return; }
  auto [s, u] = parlay::scan(v, m); CHECK(u == t); CHECK(s.size() == v.size()); for (size_t i = 0; i < v.size(); i++) CHECK(s[i] == ex[i], i);
}
template <typename T> static void pick_builtin(Gen& g, const std::vector<int64_t>& raw) {
  std::vector<T> v; for (auto x : raw) v.push_back((T)x);
  switch (g.below(std::is_integral_v<T> ? 6 : 3)) {
    case 0: return builtin<T>(g, "plus", parlay::plus<T>(), v);
    case 1: return builtin<T>(g, "maximum", parlay::maximum<T>(), v);
    case 2: return builtin<T>(g, "minimum", parlay::minimum<T>(), v);
    default: if constexpr (std::is_integral_v<T>) switch (g.below(4)) {
      case 0: return builtin<T>(g, "bit_or", parlay::bit_or<T>(), v);
      case 1: return builtin<T>(g, "bit_xor", parlay::bit_xor<T>(), v);
      case 2: if constexpr (std::is_unsigned_v<T>) return builtin<T>(g, "multiplies", parlay::multiplies<T>(), v);
              else return builtin<T>(g, "bit_and", parlay::bit_and<T>(), v);
      default: return builtin<T>(g, "bit_and", parlay::bit_and<T>(), v); }
  }
}
PBT_SUB(arithmetic, 700, 12000, 20, F_NONE) {
  size_t n = g.len(9000, {1024, 2048});
  auto small = ints(g, n, -100, 27);
  switch (g.below(3)) {
    case 0: return pick_builtin<unsigned>(g, small);
    case 1: return pick_builtin<long>(g, small);
    case 2: return pick_builtin<double>(g, small);
  }
}
