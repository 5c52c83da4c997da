// the built-in monoids obey the monoid laws
#include "pbt.h"
#include <parlay/monoid.h>
#include <limits>
#include <utility>
using namespace pbt;
// identity is neutral, operation is associative
template <typename T, typename M> static void law(const char* nm, const M& m, T a, T b, T c, bool assoc = true) {
  CHECK((T)m(m.identity, a) == a, nm, "left identity"); CHECK((T)m(a, m.identity) == a, nm, "right identity");
  if (assoc) CHECK((T)m(T(m(a, b)), c) == (T)m(a, T(m(b, c))), nm, "associativity");
}
template <typename T> static void laws_for(Gen& g, T a, T b, T c) {
  if constexpr (std::is_unsigned_v<T>) { law<T>("plus", parlay::plus<T>(), a, b, c); law<T>("multiplies", parlay::multiplies<T>(), a, b, c); }
  else { law<T>("plus", parlay::plus<T>(), a, b, c, false); law<T>("multiplies", parlay::multiplies<T>(), a, b, c, false); }
  law<T>("maximum", parlay::maximum<T>(), a, b, c); law<T>("minimum", parlay::minimum<T>(), a, b, c);
  law<T>("maxm", parlay::legacy_monoid_adapter(parlay::maxm<T>()), a, b, c); law<T>("minm", parlay::legacy_monoid_adapter(parlay::minm<T>()), a, b, c);
  if constexpr (std::is_integral_v<T>) { law<T>("bit_or", parlay::bit_or<T>(), a, b, c); law<T>("bit_and", parlay::bit_and<T>(), a, b, c); law<T>("bit_xor", parlay::bit_xor<T>(), a, b, c); law<T>("xorm", parlay::legacy_monoid_adapter(parlay::xorm<T>()), a, b, c); }
  { using P = std::pair<T, T>; law<P>("maxm pair", parlay::legacy_monoid_adapter(parlay::maxm<P>()), P(a, b), P(b, c), P(c, a)); law<P>("minm pair", parlay::legacy_monoid_adapter(parlay::minm<P>()), P(a, b), P(b, c), P(c, a));
    T lo = std::min(a, b), hi = std::max(a, b); law<P>("minmaxm", parlay::legacy_monoid_adapter(parlay::minmaxm<T>()), P(lo, hi), P(lo, lo), P(hi, hi)); }
  (void)g;
}
PBT_SUB(monoid_laws, 1500, 20000, 20, F_SINGLE) {
  u64 a = g.any64(), b = g.any64(), c = g.any64(); unsigned t = (unsigned)g.below(8);
  g.desc << "type " << t << " values " << a << " " << b << " " << c; g.ready(); g.mark();
  switch (t) {
    case 0: laws_for<unsigned char>(g, (unsigned char)a, (unsigned char)b, (unsigned char)c); break;
    case 1: laws_for<short>(g, (short)a, (short)b, (short)c); break;
    case 2: laws_for<int>(g, (int)a, (int)b, (int)c); break;
    case 3: laws_for<unsigned>(g, (unsigned)a, (unsigned)b, (unsigned)c); break;
    case 4: laws_for<long>(g, (long)a, (long)b, (long)c); break;
    case 5: laws_for<unsigned long>(g, a, b, c); break;
    case 6: laws_for<double>(g, (double)(int64_t)a * 1e280, (double)(int64_t)b * 1e-300, (double)(int64_t)c); break;
    case 7: laws_for<float>(g, (float)(int64_t)a * 1e15f, (float)(int64_t)b * 1e-30f, (float)(int64_t)c); break;
  }
  bool x = a & 1, y = b & 1, z = c & 1;
  law<bool>("logical_and", parlay::logical_and<bool>(), x, y, z); law<bool>("logical_or", parlay::logical_or<bool>(), x, y, z);
}
