#include "P16.h"
using namespace pbt;
template <typename T> static void plain(Gen& g) {
  size_t n = g.len(g.thorough ? is::MAXN_T : is::MAXN, {128, 8192, 256, 1 << 17}); unsigned bits; auto k = is::keys(g, n, sizeof(T) * 8, bits); bool inpl = g.coin();
  std::vector<T> v(k.begin(), k.end()), w = v; std::sort(w.begin(), w.end());
  g.desc << "integer_sort" << (inpl ? "_inplace" : "") << " of u" << sizeof(T) * 8 << " bits " << bits << " n=" << n << " " << show(v); g.ready(); g.mark(n > 1 && bits > 0);
  auto chk = [&](auto const& s) { CHECK(s.size() == n); for (size_t i = 0; i < n; i++) CHECK(s[i] == w[i], "at", i, "of", n, +s[i], +w[i]); };
  if (inpl) { auto x = v; parlay::integer_sort_inplace(x); chk(x); } else { auto c = v; chk(parlay::integer_sort(v)); CHECK(c == v, "input changed"); }
}
#if PART == 1
PBT_SUB(plain_u8, 500, 5000, 30, F_NONE) { plain<unsigned char>(g); }
PBT_SUB(plain_u32, 500, 5000, 30, F_NONE) { plain<unsigned>(g); }
#elif PART == 2
PBT_SUB(plain_u64, 700, 7000, 30, F_NONE) { plain<unsigned long>(g); }
#else
PBT_SUB(plain_counting, 700, 7000, 30, F_NONE) {
  size_t n = g.len(60000, {8192, 20000}), nb = 1 + g.len(g.pick<size_t>({4, 300, 5000})); Rng r(g.seed()); std::vector<unsigned> v(n); for (auto& x : v) x = (unsigned)r.below(nb); auto w = v; std::sort(w.begin(), w.end());
  bool inpl = g.coin(); g.desc << "counting_sort of integers, n=" << n << " buckets " << nb; g.ready(); g.mark(n > 1 && nb > 1);
  auto chk = [&](auto const& s, auto const& o) { CHECK(s.size() == n && o.size() == nb + 1); for (size_t i = 0; i < n; i++) CHECK(s[i] == w[i], i); for (size_t b = 0; b <= nb; b++) CHECK(o[b] == (size_t)(std::lower_bound(w.begin(), w.end(), b) - w.begin()), "offset", b); };
  if (inpl) { auto x = v; auto o = parlay::counting_sort_inplace(x, nb); chk(x, o); } else { auto [s, o] = parlay::counting_sort(v, nb); chk(s, o); }
}
#endif
