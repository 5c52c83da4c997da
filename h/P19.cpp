// Grouping by index: key type I, any number of buckets, any length.
#include "sortcase.h"
#include <limits>
using namespace pbt; using vt::El; using vt::Tracked;
namespace {
const char* nm[] = {"group_by_index", "reduce_by_index plus", "reduce_by_index max", "reduce_by_index noncommutative", "histogram_by_index", "remove_duplicate_integers", "group_by_index tracked", "reduce_by_index tracked"};
struct LastSet { uint64_t identity = 0; uint64_t operator()(uint64_t a, uint64_t b) const { return b ? b : a; } };
struct TMon { Tracked identity{0, 0}; Tracked operator()(const Tracked& a, const Tracked& b) const { return Tracked(a.get() + b.get(), 0); } };
// the number of buckets relative to n
size_t buckets(Gen& g, size_t n, size_t lim) {
  size_t r = 0; while (r * r < n) r++;
  size_t m = g.pick<size_t>({1, 2, 3, 2 + g.below(14), r, r + 1, r > 1 ? r - 1 : 1, 63 + g.below(4), 64 * (1 + g.below(20)), n, n + 1 + g.below(5), 2 * n + g.below(100), 1 + g.below(100000)});
  return std::max<size_t>(1, std::min(m, lim));
}
template <typename I, unsigned F> void index_case(Gen& g, size_t maxn, std::initializer_list<unsigned> forms) {
  unsigned form = *(forms.begin() + g.below(forms.size()));
  size_t lim = (size_t)std::min<uint64_t>((uint64_t)std::numeric_limits<I>::max(), 1 << 20);
  if (form == 4 && sizeof(I) == 1) maxn = lim;                // counts are returned as I
  size_t n = g.len(maxn, {8192, 8192, 10000, 2048}); if (form == 4 && n > lim) n = lim;
  size_t m = buckets(g, n, lim); std::string sh; std::vector<int64_t> v;
  if (g.below(3) == 0 && n > 24) { sh = "heavy"; u64 s = g.seed(), h = 1 + g.below(12), pc = g.pick<u64>({20, 60, 95}); v.resize(n); for (size_t i = 0; i < n; i++) { u64 r = mix(s + i); v[i] = (int64_t)(r % 100 < pc ? mix(s ^ (mix(r) % h)) % m : mix(r ^ 9) % m); } }
  else if (g.below(6) == 0 && n > 24) { sh = "stride16"; for (size_t i = 0; i < n; i++) v.push_back((int64_t)((i * 16) % m)); }
  else v = ints(g, n, 0, (int64_t)m - 1, &sh);
  unsigned kind = (unsigned)g.below(4);
  set_jitter(g.seed(), (unsigned)g.pick({0u, 0u, 1u}));
  g.desc << nm[form] << " sizeof(index)=" << sizeof(I) << (std::is_signed_v<I> ? "s" : "u") << " m=" << m << " n=" << n << " " << sh << " kind " << kind << " " << show(v); g.ready();
  g.mark(n > 0 && m > 1); g.label(nm[form]); g.label(n == 0 ? "n=0" : n > m * m ? "n>m*m" : m > n ? "m>n" : "m<=n<=m*m"); g.label(n >= 8192 ? "n>=8192" : "n<8192");
  long live0 = Tracked::live.load();
  std::vector<std::vector<size_t>> ref(m); for (size_t i = 0; i < n; i++) ref[(size_t)v[i]].push_back(i);
  auto kv = [&] { std::vector<std::pair<I, uint64_t>> r; r.reserve(n); for (size_t i = 0; i < n; i++) r.emplace_back((I)v[i], i + 1); return r; };
  auto on = [&](auto const& data, auto f) { using T = typename std::decay_t<decltype(data)>::value_type; vt::AnyRange<T> r(kind, data); f(r); for (size_t i = 0; i < n; i++) CHECK(r[i] == data[i], nm[form], "changed its input at", i); };
  auto chk_groups = [&](auto const& r, auto val) { CHECK(r.size() == m, nm[form], "buckets", r.size(), m); for (size_t b = 0; b < m; b++) { CHECK(r[b].size() == ref[b].size(), nm[form], "bucket", b, "of", m, "has", r[b].size(), "values, expected", ref[b].size()); for (size_t j = 0; j < ref[b].size(); j++) CHECK(val(r[b][j]) == ref[b][j] + 1, nm[form], "bucket", b, "value", j, val(r[b][j]), ref[b][j] + 1); } };
  auto chk_vals = [&](auto const& r, auto want, auto get) { CHECK(r.size() == m, nm[form], "buckets", r.size(), m); for (size_t b = 0; b < m; b++) CHECK(get(r[b]) == want(ref[b]), nm[form], "bucket", b, "of", m, get(r[b]), want(ref[b])); };
  auto id = [](auto x) { return (u64)x; };
  switch (form) {
    case 0: if constexpr (F >> 0 & 1) { on(kv(), [&](auto& r) { chk_groups(parlay::group_by_index(r, (I)m), id); }); } break;
    case 1: if constexpr (F >> 1 & 1) { on(kv(), [&](auto& r) { chk_vals(parlay::reduce_by_index(r, m), [](auto const& p) { u64 s = 0; for (auto i : p) s += i + 1; return s; }, id); }); } break;
    case 2: if constexpr (F >> 2 & 1) { on(kv(), [&](auto& r) { chk_vals(parlay::reduce_by_index(r, m, parlay::maximum<uint64_t>()), [](auto const& p) { u64 s = 0; for (auto i : p) s = std::max<u64>(s, i + 1); return s; }, id); }); } break;
    case 3: if constexpr (F >> 3 & 1) { on(kv(), [&](auto& r) { chk_vals(parlay::reduce_by_index(r, m, LastSet{}), [](auto const& p) { return p.empty() ? u64(0) : (u64)p.back() + 1; }, id); }); } break;
    case 4: if constexpr (F >> 4 & 1) { { std::vector<I> k(v.begin(), v.end()); on(k, [&](auto& r) { chk_vals(parlay::histogram_by_index(r, (I)m), [](auto const& p) { return (u64)p.size(); }, id); }); } } break;
    case 5: if constexpr (F >> 5 & 1) { { std::vector<I> k(v.begin(), v.end()); std::vector<I> w; for (size_t b = 0; b < m; b++) if (!ref[b].empty()) w.push_back((I)b); on(k, [&](auto& r) { auto x = parlay::remove_duplicate_integers(r, (I)m); CHECK(x.size() == w.size(), nm[form], x.size(), "integers, expected", w.size()); for (size_t i = 0; i < w.size(); i++) CHECK(x[i] == w[i], nm[form], i, (u64)x[i], (u64)w[i]); }); } } break;
    case 6: case 7: if constexpr ((F >> 6 & 3) == 3) { { std::vector<std::pair<I, Tracked>> d; d.reserve(n); for (size_t i = 0; i < n; i++) d.emplace_back((I)v[i], Tracked((int64_t)i + 1, 0)); auto s = parlay::to_sequence(d);
        if (form == 6) chk_groups(parlay::group_by_index(s, (I)m), [](auto const& t) { return (u64)t.get(); });
        else chk_vals(parlay::reduce_by_index(s, m, TMon{}), [](auto const& p) { u64 s = 0; for (auto i : p) s += i + 1; return s; }, [](auto const& t) { return (u64)t.get(); });
        for (size_t i = 0; i < n; i++) CHECK(s[i].second.get() == (int64_t)i + 1, nm[form], "changed its input at", i); }
      CHECK(Tracked::live.load() == live0, nm[form], "leaves", Tracked::live.load() - live0, "elements alive"); } break;
  }
}
}
// mask, forms
#if PART == 1
PBT_SUB(int32_group, 3000, 30000, 30, F_NONE) { index_case<int, 0b100001>(g, g.thorough ? 100000 : 30000, {0, 5}); }
#elif PART == 2
PBT_SUB(int32_tracked, 2000, 20000, 30, F_NONE) { index_case<int, 0b11000000>(g, g.thorough ? 100000 : 30000, {6, 7}); }
#elif PART == 3
PBT_SUB(int32_reduce, 3000, 30000, 30, F_NONE) { index_case<int, 0b11010>(g, g.thorough ? 100000 : 30000, {1, 3, 4}); }
#elif PART == 4
PBT_SUB(u8_group, 3000, 30000, 30, F_NONE) { index_case<uint8_t, 0b100001>(g, g.thorough ? 100000 : 30000, {0, 5}); }
#elif PART == 5
PBT_SUB(u8_reduce, 3000, 30000, 30, F_NONE) { index_case<uint8_t, 0b10010>(g, g.thorough ? 100000 : 30000, {1, 4}); }
#elif PART == 6
PBT_SUB(u16, 3000, 30000, 30, F_NONE) { index_case<uint16_t, 0b110001>(g, g.thorough ? 100000 : 30000, {0, 4, 5}); }
#elif PART == 7
PBT_SUB(size_group, 3000, 30000, 30, F_NONE) { index_case<size_t, 0b110001>(g, g.thorough ? 200000 : 30000, {0, 4, 5}); }
#else
PBT_SUB(size_reduce, 3000, 30000, 30, F_NONE) { index_case<size_t, 0b000110>(g, g.thorough ? 200000 : 30000, {1, 2}); }
#endif
