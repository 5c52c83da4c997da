#include "P16.h"
PBT_SUB(pair8_u64, 1000, 10000, 30, F_NONE) { is::key_case<vt::Small, uint64_t>(g, 64); }
PBT_SUB(pair8_u8, 500, 5000, 30, F_NONE) { is::key_case<vt::Small, unsigned char>(g, 8); }
// plain integers sorted by their own value: many narrow elements, so that one block holds more of a key than a narrow counter counts
template <typename T> static void narrow_case(is::Gen& g, const char* ty) {
  size_t n = g.len(g.chance(20) ? 700000 : 60000, {8192, 65536, 128000, 1 << 17, 1 << 18}); unsigned bits; auto k = is::keys(g, n, 8 * sizeof(T), bits); parlay::sequence<T> s(n), c; for (size_t i = 0; i < n; i++) s[i] = (T)k[i]; c = s;
  auto w = s; std::sort(w.begin(), w.end()); unsigned form = (unsigned)g.below(bits <= 16 ? 6 : 4); static const char* nm[] = {"integer_sort", "stable_integer_sort", "integer_sort_inplace", "stable_integer_sort_inplace", "counting_sort", "counting_sort_inplace"}; auto id = [](const T& x) { return x; };
  g.desc << nm[form] << " of " << n << " " << ty << " bits " << bits << " " << pbt::show(k); g.ready(); g.mark(n > 1 && bits > 0); g.label(ty); size_t nb = size_t(1) << (form >= 4 ? bits : 1); parlay::sequence<size_t> off; bool dflt = g.coin();
  auto cmp = [&](auto const& r) { CHECK(r.size() == n, nm[form]); for (size_t i = 0; i < n; i++) CHECK(r[i] == w[i], nm[form], "of", ty, "place", i, "of", n, "holds", (uint64_t)r[i], "expected", (uint64_t)w[i]); };
  switch (form) {
    case 0: if (dflt) cmp(parlay::integer_sort(s)); else cmp(parlay::integer_sort(s, id)); break;
    case 1: if (dflt) cmp(parlay::integer_sort(s)); else cmp(parlay::stable_integer_sort(s, id)); break;
    case 2: if (dflt) parlay::integer_sort_inplace(s); else parlay::integer_sort_inplace(s, id); cmp(s); return;
    case 3: parlay::stable_integer_sort_inplace(s, id); cmp(s); return;
    case 4: { auto [o, of] = parlay::counting_sort(s, nb, id); cmp(o); off = of; break; }
    case 5: { INTERNAL_ONLY(auto kk = s; off = parlay::internal::count_sort_inplace(parlay::make_slice(s), parlay::make_slice(kk), nb); cmp(s); break;) return; }
  }
  if (form >= 4) { CHECK(off.size() == nb + 1, off.size(), nb); std::vector<size_t> o(nb + 1, 0); for (auto x : w) o[(size_t)x + 1]++; for (size_t i = 0; i < nb; i++) o[i + 1] += o[i]; for (size_t i = 0; i <= nb; i++) CHECK(off[i] == o[i], "bucket offset", i, off[i], o[i]); }
  if (form != 5) CHECK(s == c, "input changed");
}
PBT_SUB(narrow, 250, 3000, 40, F_NONE) { switch (g.below(4)) { case 0: narrow_case<unsigned char>(g, "unsigned char"); break; case 1: narrow_case<uint16_t>(g, "uint16_t"); break; case 2: narrow_case<uint32_t>(g, "uint32_t"); break; case 3: narrow_case<uint64_t>(g, "uint64_t"); break; } }
