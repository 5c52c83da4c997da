#include "pbt.h"
#include "types.h"
#include <parlay/primitives.h>
#include "lin.h"
namespace is {
using namespace pbt; using vt::El;
#ifdef DEBUG
constexpr size_t MAXN = 40000, MAXN_T = 200000;
#else
constexpr size_t MAXN = 150000, MAXN_T = 600000;
#endif
// keys below 2^bits with a chosen distribution
inline std::vector<u64> keys(Gen& g, size_t n, unsigned maxbits, unsigned& bits) {
  bits = (unsigned)g.below(maxbits + 1); unsigned shape = (unsigned)g.below(6); std::vector<u64> v(n);
  u64 top = bits == 0 ? 0 : bits == 64 ? ~u64(0) : (u64(1) << bits) - 1;
  if (n <= 24) { for (auto& x : v) { x = g.chance(15) ? top : g.below(0) & top; } return v; }
  Rng r(g.seed()); u64 fix = r.next() & top;
  for (size_t i = 0; i < n; i++) switch (shape) {
    case 0: v[i] = r.next() & top; break;
    case 1: v[i] = fix; break;
    case 2: v[i] = (fix & ~u64(255)) | (r.next() & 255 & top); break;          // high bits equal
    case 3: v[i] = (r.next() & top & ~u64(255)) | (fix & 255); break;          // low bits equal
    case 4: v[i] = r.below(50) ? fix : r.next() & top; break;
    case 5: v[i] = std::min<u64>(top, i); break; }
  if (r.below(4) == 0) v[r.below(n)] = top;
  return v;
}
template <typename T, typename S> void verify(const S& out, const std::vector<u64>& k, const char* w, const std::vector<size_t>& ord) {
  CHECK(out.size() == k.size(), w, out.size(), k.size()); auto it = out.begin();
  for (size_t i = 0; i < k.size(); i++) CHECK(El<T>::tag(it[i]) == (int64_t)ord[i], w, "position", i, "of", k.size(), "holds element", El<T>::tag(it[i]), "key", k[(size_t)El<T>::tag(it[i])], "expected element", ord[i], "key", k[ord[i]]);
}
inline std::vector<size_t> stable_order(const std::vector<u64>& k) { std::vector<size_t> o(k.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i; std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return k[a] < k[b]; }); return o; }
// the element carries its index; the key function looks the key up
template <typename T, typename K> void key_case(Gen& g, unsigned maxbits) {
  size_t n = g.len(g.thorough ? MAXN_T : MAXN, {128, 8192, 256, 4096, 1 << 17}); unsigned bits; auto k = keys(g, n, maxbits, bits); for (auto& x : k) x = (u64)(K)x;
  constexpr bool cp = std::is_copy_constructible_v<T>;
  unsigned form = (unsigned)g.below(cp ? 6 : 2); static const char* nm[] = {"integer_sort_inplace", "stable_integer_sort_inplace", "integer_sort", "stable_integer_sort", "integer_sort with bits", "integer_sort_with_counts"};
  if (form == 5 && bits > 17) form = 2;
  g.desc << nm[form] << " sizeof(T)=" << sizeof(T) << " key " << sizeof(K) * 8 << " bits " << bits << " n=" << n << " " << show(k); g.ready(); g.mark(n > 1 && bits > 0); g.label(nm[form]); g.label("bits " + std::to_string(bits / 8 * 8) + "+"); g.label(n >= 8192 ? "n>=8192" : n >= 128 ? "n>=128" : "n<128");
  std::vector<int64_t> z(n, 0); auto s = vt::make_seq<T>(z); auto ord = stable_order(k); auto kf = [&](const T& x) -> K { return (K)k[(size_t)El<T>::tag(x)]; };
  switch (form) {
    case 0: parlay::integer_sort_inplace(s, kf); verify<T>(s, k, nm[form], ord); return;
    case 1: parlay::stable_integer_sort_inplace(s, kf); verify<T>(s, k, nm[form], ord); return;
    default: if constexpr (cp) {
      if (form == 2) verify<T>(parlay::integer_sort(s, kf), k, nm[form], ord);
      else if (form == 3) verify<T>(parlay::stable_integer_sort(s, kf), k, nm[form], ord);
      else if (form == 4) { unsigned b = bits ? bits : 1; verify<T>(lin::integer_sort(parlay::make_slice(s), kf, b), k, nm[form], ord); }
      else { size_t nb = (size_t(1) << bits) + g.below(3); auto [r, c] = lin::integer_sort_with_counts(parlay::make_slice(s), kf, nb); verify<T>(r, k, nm[form], ord); std::vector<size_t> w(nb, 0); for (auto x : k) w[x]++; CHECK(c.size() == nb); for (size_t i = 0; i < nb; i++) CHECK(c[i] == w[i], "count", i, c[i], w[i]); }
      for (size_t i = 0; i < n; i++) CHECK(El<T>::tag(s[i]) == (int64_t)i, nm[form], "changed its input");
    } }
}
template <typename T> void counting_case(Gen& g) {
  size_t n = g.len(g.thorough ? 300000 : 60000, {8192, 5000, 20000}), nb = 1 + g.len(g.pick<size_t>({4, 300, 70000}), {256, 2}); Rng r(g.seed()); unsigned shape = (unsigned)g.below(4); std::vector<u64> k(n); u64 f = r.below(nb);
  for (size_t i = 0; i < n; i++) k[i] = shape == 0 ? r.below(nb) : shape == 1 ? f : shape == 2 ? (r.below(40) ? f : r.below(nb)) : i * nb / n;
  unsigned form = (unsigned)g.below(3); static const char* nm[] = {"counting_sort_inplace", "counting_sort", "counting_sort_by_keys"}; if (!std::is_copy_constructible_v<T>) form = 0;
  g.desc << nm[form] << " sizeof(T)=" << sizeof(T) << " n=" << n << " buckets " << nb << " shape " << shape << " " << show(k); g.ready(); g.mark(n > 1 && nb > 1); g.label(nm[form]); g.label(n >= 8192 ? "n>=8192" : "n<8192");
  auto ord = stable_order(k); std::vector<size_t> off(nb + 1, 0); for (auto x : k) off[x + 1]++; for (size_t i = 0; i < nb; i++) off[i + 1] += off[i];
  auto offs = [&](auto const& o) { CHECK(o.size() == nb + 1, "offsets", o.size(), nb + 1); for (size_t i = 0; i <= nb; i++) CHECK(o[i] == off[i], "bucket offset", i, "is", o[i], "expected", off[i]); };
  std::vector<int64_t> z(n, 0); auto s = vt::make_seq<T>(z); auto kf = [&](const T& x) -> unsigned { return (unsigned)k[(size_t)El<T>::tag(x)]; };
  if (form == 0) { parlay::sequence<unsigned> kk(k.begin(), k.end()); INTERNAL_ONLY(offs(parlay::internal::count_sort_inplace(parlay::make_slice(s), parlay::make_slice(kk), nb)); verify<T>(s, k, nm[form], ord);) return; }
  if constexpr (std::is_copy_constructible_v<T>) {
    if (form == 1) { auto [o, of] = parlay::counting_sort(s, nb, kf); verify<T>(o, k, nm[form], ord); offs(of); }
    else { auto ps = parlay::tabulate(n, [&](size_t i) { return std::pair<unsigned, T>((unsigned)k[i], s[i]); }); auto [o, of] = parlay::counting_sort_by_keys(ps, nb); verify<T>(o, k, nm[form], ord); offs(of); }
  }
}
}  // namespace is
