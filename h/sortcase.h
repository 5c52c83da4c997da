// One sorting case for element type T: entry point, order, contents all chosen.
#include "pbt.h"
#include "types.h"
#include "lin.h"
namespace sc {
using namespace pbt;
using vt::El;
struct Order { int mode; int64_t div;   // strict weak orders over keys
  int64_t cls(int64_t k) const { switch (mode) { case 0: return k; case 1: return k; case 2: return k / div; case 3: return ((k % div) + div) % div; default: return 0; } }
  bool less(int64_t a, int64_t b) const { return mode == 1 ? b < a : cls(a) < cls(b); } };
inline Order order(Gen& g) { Order o; o.mode = (int)g.weighted({5, 2, 2, 2, 1}); o.div = 1 + (int64_t)g.below(g.coin() ? 8 : 2000); return o; }
template <typename T> struct Cmp { Order o; bool operator()(const T& a, const T& b) const { return o.less(El<T>::key(a), El<T>::key(b)); } };

inline std::vector<int64_t> contents(Gen& g, size_t n, std::string& sh) {
  int64_t lim = g.pick<int64_t>({1, 3, 30, 1000, 1000000000});
  return ints(g, n, g.coin() ? 0 : -lim, lim, &sh);
}
// checks that out (keys, tags) is an ordered permutation of v
template <typename S, typename K, typename G>
void verify(const S& out, const std::vector<int64_t>& v, const Order& o, bool stable, K key, G tag, bool has_tag, const char* what) {
  size_t n = v.size(); CHECK(out.size() == n, what, "size", out.size(), n);
  auto it = out.begin();
  std::vector<char> seen(n, 0); std::vector<int64_t> ks;
  for (size_t i = 0; i < n; i++) {
    int64_t k = key(it[i]);
    if (has_tag) { int64_t t = tag(it[i]); CHECK(t >= 0 && t < (int64_t)n && v[(size_t)t] == k && !seen[(size_t)t], what, "not a permutation: element", i, "of", n, "key", k, "tag", t); seen[(size_t)t] = 1; } else ks.push_back(k);
    if (i) { int64_t pk = key(it[i - 1]); CHECK(!o.less(k, pk), what, "out of order at", i, "of", n, ":", pk, k);
      if (has_tag && stable && !o.less(pk, k)) CHECK(tag(it[i - 1]) < tag(it[i]), what, "equivalent elements reordered at", i, "of", n); }
  }
  if (!has_tag) { auto w = v; std::sort(w.begin(), w.end()); std::sort(ks.begin(), ks.end()); CHECK(w == ks, what, "not a permutation"); }
}
template <typename T> void sort_case(Gen& g, size_t maxn) {
  constexpr bool tagged = !std::is_integral_v<T>;
  size_t n = g.len(maxn, {16384, 256, 512, 48, 64, 2000, 33}); std::string sh; auto v = contents(g, n, sh); Order o = order(g);
  unsigned form = (unsigned)g.below(std::is_copy_constructible_v<T> ? 7 : 4);
  static const char* nm[] = {"sort_inplace", "stable_sort_inplace", "quicksort", "stable bucket_sort", "sort", "stable_sort", "merge_sort"};
  set_jitter(g.seed(), (unsigned)g.pick({0u, 0u, 0u, 1u}));
  g.desc << nm[form] << " sizeof(T)=" << sizeof(T) << " n=" << n << " " << sh << " order " << o.mode << "/" << o.div << " " << show(v); g.ready();
  g.mark(n > 1); g.label(nm[form]); g.label(n >= 16384 ? "n>=16384" : n >= 512 ? "n>=512" : n >= 48 ? "n>=48" : "n<48"); g.label(sh);
  auto key = [](const T& x) { return El<T>::key(x); }; auto tag = [](const T& x) { return El<T>::tag(x); };
  Cmp<T> c{o}; auto s = vt::make_seq<T>(v);
  bool st = form == 1 || form == 3 || form == 5 || form == 6;
  switch (form) {
    case 0: parlay::sort_inplace(s, c); break;
    case 1: parlay::stable_sort_inplace(s, c); break;
    case 2: lin::quicksort(parlay::make_slice(s), c); break;
    case 3: lin::bucket_sort(parlay::make_slice(s), c, true); break;
    default: if constexpr (std::is_copy_constructible_v<T>) {
      auto r = form == 4 ? parlay::sort(s, c) : form == 5 ? parlay::stable_sort(s, c) : lin::merge_sort(parlay::make_slice(s), c);
      verify(r, v, o, st, key, tag, tagged, nm[form]);
      CHECK(s.size() == n); for (size_t i = 0; i < n; i++) CHECK(El<T>::key(s[i]) == v[i] && (!tagged || El<T>::tag(s[i]) == (int64_t)i), nm[form], "changed its input at", i);
      return; }
  }
  verify(s, v, o, st, key, tag, tagged, nm[form]);
}
}  // namespace sc
