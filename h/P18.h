// Grouping by key, for key type K and value type V. Equality may be coarser than identity; the hash may collide.
#include "sortcase.h"
#include <map>
namespace gk {
using namespace pbt; using vt::El; using vt::Tracked;
struct KM { int mode; int64_t div; u64 salt;
  int64_t cls(int64_t k) const { return mode == 5 ? (k >= 0 ? k / div : -1 - (-1 - k) / div) : k; }
  size_t hash(int64_t k) const { u64 c = (u64)cls(k); switch (mode) { case 0: return salt; case 1: return (size_t)(c & 3); case 2: return (size_t)c; case 3: return (size_t)(mix(c ^ salt) << 32); case 4: return (size_t)(c << 10); default: return (size_t)mix(c ^ salt); } } };
inline KM kmode(Gen& g) { KM m; m.mode = (int)g.weighted({1, 1, 2, 1, 2, 2, 4}); m.div = 1 + (int64_t)g.below(5); m.salt = g.seed(); return m; }
inline const char* kname(int m) { static const char* n[] = {"constant hash", "4 hash values", "identity hash", "high-bits hash", "low-zero hash", "coarse equality", "good hash"}; return n[m]; }
template <typename K> struct Hash { KM m; size_t operator()(const K& k) const { return m.hash(El<K>::key(k)); } };
template <typename K> struct Eq { KM m; bool operator()(const K& a, const K& b) const { return m.cls(El<K>::key(a)) == m.cls(El<K>::key(b)); } };
inline std::vector<int64_t> keys(Gen& g, size_t n, const KM& m, std::string& sh) {
  // few keys / skewed keys / all distinct; collisions only with few distinct keys (linear probing is quadratic)
  int64_t lim = m.mode <= 1 ? (int64_t)g.pick({1, 4, 40, 150}) : m.mode == 3 ? (int64_t)g.pick({1, 40, 300}) : g.pick<int64_t>({1, 2, 10, 100, 4000, 1000000000});
  unsigned k = (unsigned)g.below(4);
  if (k == 3 && n > 24) { sh = "heavy"; u64 s = g.seed(); u64 h = 1 + g.below(20), pc = g.pick<u64>({30, 60, 90, 99}); std::vector<int64_t> v(n); for (size_t i = 0; i < n; i++) { u64 r = mix(s + i); v[i] = (int64_t)(r % 100 < pc ? mix(s ^ (mix(r) % h)) % (u64)(lim + 1) : mix(r ^ 5) % (u64)(lim + 1)); } return v; }
  if (k == 2 && m.mode >= 2 && m.mode != 3) { sh = "distinct"; u64 mul = g.pick<u64>({1, 16, 3}); std::vector<int64_t> v(n); for (size_t i = 0; i < n; i++) v[i] = (int64_t)(i * mul); return v; }
  return ints(g, n, g.coin() ? 0 : -lim, lim, &sh);
}
// affine maps mod a prime: associative, not commutative
struct Aff { static constexpr u64 P = 1000003; static u64 mk(u64 v) { return ((v * 2 + 1) % P) << 32 | (v % P); } u64 identity = u64(1) << 32;
  u64 operator()(u64 a, u64 b) const { u64 a1 = a >> 32, a0 = a & 0xffffffff, b1 = b >> 32, b0 = b & 0xffffffff; return (a1 * b1 % P) << 32 | ((a0 * b1 + b0) % P); } };
struct TMon { Tracked identity{0, 0}; Tracked operator()(const Tracked& a, const Tracked& b) const { return Tracked(a.get() + b.get(), 0); } };
template <typename K, typename V> void key_case(Gen& g, size_t maxn, bool ordered_default) {
  size_t n = g.len(maxn, {10000, 10000, 1024, 2000}); KM m = kmode(g); std::string sh; auto v = keys(g, n, m, sh); n = v.size();
  if constexpr (std::is_unsigned_v<K>) { u64 s = g.pick<u64>({0, 0, 0x8000000000000000ull}); for (auto& x : v) x = (int64_t)(K)((u64)x ^ s); if (m.mode == 5) m.mode = 6; }
  static const char* nm[] = {"group_by_key", "group_by_key&&", "reduce_by_key", "reduce_by_key&&", "histogram_by_key", "histogram_by_key&&", "remove_duplicates", "remove_duplicates&&", "group_by_key_ordered", "histogram_by_key<int>", "reduce_by_key noncommutative"};
  unsigned form = (unsigned)g.below(std::is_same_v<V, uint64_t> ? 11 : 10); unsigned kind = (unsigned)g.below(4);
  sc::Order o = sc::order(g); bool dfl = ordered_default && g.coin(); if (dfl) { o.mode = 0; }
  set_jitter(g.seed(), (unsigned)g.pick({0u, 0u, 1u}));
  g.desc << nm[form] << " sizeof=" << sizeof(K) << "," << sizeof(V) << " n=" << n << " " << sh << " " << kname(m.mode) << (form == 8 ? " order " + std::to_string(o.mode) + "/" + std::to_string(o.div) : "") << " kind " << kind << " " << show(v); g.ready();
  g.mark(n > 1); g.label(nm[form]); g.label(kname(m.mode)); g.label(sh); g.label(n >= 10000 ? "n>=10000" : "n<10000");
  long live0 = Tracked::live.load();
  auto cls = [&](int64_t k) { return m.cls(k); };
  auto lt = [&](int64_t a, int64_t b) { return std::is_unsigned_v<K> && o.mode == 0 ? (u64)a < (u64)b : o.less(a, b); };
  { using KV = std::pair<K, V>; Hash<K> h{m}; Eq<K> e{m};
    auto val = [&](size_t i) -> int64_t { return (int64_t)(mix(i) % 1000); };
    std::vector<KV> kv; std::vector<K> ks; kv.reserve(n); ks.reserve(n);
    for (size_t i = 0; i < n; i++) { if (form >= 4 && form <= 7 || form == 9) ks.push_back(El<K>::make(v[i], (int64_t)i)); else if constexpr (std::is_same_v<V, uint64_t>) kv.emplace_back(El<K>::make(v[i], (int64_t)i), form == 10 ? Aff::mk((u64)i) : (u64)i); else kv.emplace_back(El<K>::make(v[i], (int64_t)i), El<V>::make(val(i), (int64_t)i)); }
    // reference: class -> positions in order
    std::map<int64_t, std::vector<size_t>> ref; if (form != 8) for (size_t i = 0; i < n; i++) ref[cls(v[i])].push_back(i);
    auto vkey = [&](const V& x) -> int64_t { if constexpr (std::is_same_v<V, uint64_t>) return (int64_t)x; else return El<V>::key(x); };
    auto want_v = [&](size_t i) -> int64_t { if constexpr (std::is_same_v<V, uint64_t>) return (int64_t)i; else return val(i); };
    auto classes = [&](auto const& r, auto getk, auto chk) { std::map<int64_t, int> seen; CHECK(r.size() == ref.size(), nm[form], "returned", r.size(), "keys, expected", ref.size());
      for (auto const& x : r) { int64_t k = El<K>::key(getk(x)); auto it = ref.find(cls(k)); CHECK(it != ref.end(), nm[form], "key", k, "is not in the input"); CHECK(seen[cls(k)]++ == 0, nm[form], "key", k, "listed twice"); bool some = false; if (m.mode == 5) { for (auto i : it->second) some |= v[i] == k; CHECK(some, nm[form], "key", k, "is not in the input"); } chk(x, it->second, k); } };
    auto first = [](auto const& p) -> const K& { return p.first; }; auto self = [](auto const& p) -> const K& { return p; };
    auto unchanged = [&](auto const& in) { size_t i = 0; for (auto const& x : in) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, KV>) CHECK(El<K>::key(x.first) == v[i], nm[form], "changed its input at", i); else CHECK(El<K>::key(x) == v[i], nm[form], "changed its input at", i); i++; } };
    auto grp = [&](auto const& x, std::vector<size_t> const& pos, int64_t k) { CHECK(x.second.size() == pos.size(), nm[form], "group of", k, "has", x.second.size(), "values, expected", pos.size()); std::vector<int64_t> a, b; for (auto const& y : x.second) a.push_back(vkey(y)); for (auto i : pos) b.push_back(want_v(i)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, nm[form], "group of", k, "has wrong values"); };
    auto red = [&](auto const& x, std::vector<size_t> const& pos, int64_t k) { int64_t s = 0; for (auto i : pos) s += want_v(i); CHECK(vkey(x.second) == s, nm[form], "sum of", k, vkey(x.second), s); };
    auto cnt = [&](auto const& x, std::vector<size_t> const& pos, int64_t k) { CHECK((size_t)x.second == pos.size(), nm[form], "count of", k, x.second, pos.size()); };
    auto none = [&](auto const&, std::vector<size_t> const&, int64_t) {};
    auto mon = [] { if constexpr (std::is_same_v<V, uint64_t>) return parlay::plus<V>(); else return TMon{}; }();
    switch (form) {
      case 0: { vt::AnyRange<KV> r(kind, kv); classes(parlay::group_by_key(r, h, e), first, grp); unchanged(r); break; }
      case 1: { auto s = parlay::to_sequence(kv); classes(parlay::group_by_key(std::move(s), h, e), first, grp); break; }
      case 2: { vt::AnyRange<KV> r(kind, kv); classes(parlay::reduce_by_key(r, mon, h, e), first, red); unchanged(r); break; }
      case 3: { auto s = parlay::to_sequence(kv); classes(parlay::reduce_by_key(std::move(s), mon, h, e), first, red); break; }
      case 4: { vt::AnyRange<K> r(kind, ks); classes(parlay::histogram_by_key(r, h, e), first, cnt); unchanged(r); break; }
      case 5: { auto s = parlay::to_sequence(ks); classes(parlay::histogram_by_key(std::move(s), h, e), first, cnt); break; }
      case 6: { vt::AnyRange<K> r(kind, ks); classes(parlay::remove_duplicates(r, h, e), self, none); unchanged(r); break; }
      case 7: { auto s = parlay::to_sequence(ks); classes(parlay::remove_duplicates(std::move(s), h, e), self, none); break; }
      case 9: { auto s = parlay::to_sequence(ks); classes(parlay::histogram_by_key<int>(s, h, e), first, cnt); unchanged(s); break; }
      case 10: if constexpr (std::is_same_v<V, uint64_t>) { auto s = parlay::to_sequence(kv); Aff a; classes(parlay::reduce_by_key(s, a, h, e), first, [&](auto const& x, auto const& pos, int64_t k) { u64 w = a.identity; for (auto i : pos) w = a(w, Aff::mk((u64)i)); CHECK(x.second == w, nm[form], "fold of", k, "differs"); }); break; }
      case 8: {
        vt::AnyRange<KV> r(kind, kv); std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i;
        bool radix = std::is_unsigned_v<K>;    // documented to order by the key itself in that case
        if (radix) o.mode = 0;
        std::stable_sort(p.begin(), p.end(), [&](size_t a, size_t b) { return lt(v[a], v[b]); });
        std::vector<std::vector<size_t>> w; for (size_t i = 0; i < n; i++) { if (i == 0 || lt(v[p[i - 1]], v[p[i]])) w.emplace_back(); w.back().push_back(p[i]); }
        auto chk = [&](auto const& x) { CHECK(x.size() == w.size(), nm[form], "groups", x.size(), w.size()); for (size_t j = 0; j < w.size(); j++) { int64_t k = El<K>::key(x[j].first); CHECK(!lt(k, v[w[j][0]]) && !lt(v[w[j][0]], k), nm[form], "key of group", j, k, v[w[j][0]]); CHECK(x[j].second.size() == w[j].size(), nm[form], "size of group", j, x[j].second.size(), w[j].size()); for (size_t t = 0; t < w[j].size(); t++) CHECK(vkey(x[j].second[t]) == want_v(w[j][t]), nm[form], "value", t, "of group", j); } };
        if (ordered_default && (dfl || radix)) { if constexpr (std::is_unsigned_v<K> || std::is_same_v<K, int64_t>) chk(parlay::group_by_key_ordered(r)); }
        else if (std::is_unsigned_v<K>) return;
        else chk(parlay::group_by_key_ordered(r, sc::Cmp<K>{o}));
        unchanged(r); break; }
    }
  }
  if (std::is_same_v<K, Tracked>) CHECK(Tracked::live.load() == live0, nm[form], "leaves", Tracked::live.load() - live0, "elements alive");
}
}
namespace vt { template <> struct El<uint32_t> { static uint32_t make(int64_t v, int64_t) { return (uint32_t)v; } static int64_t key(uint32_t x) { return x; } static int64_t tag(uint32_t) { return 0; } };
template <> struct El<uint64_t> { static uint64_t make(int64_t v, int64_t) { return (uint64_t)v; } static int64_t key(uint64_t x) { return (int64_t)x; } static int64_t tag(uint64_t) { return 0; } }; }
