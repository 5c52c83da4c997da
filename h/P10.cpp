// Move-only elements through everything that accepts them; identities (tags) are followed from input to output.
#if PART < 4
#include "sortcase.h"
#include <parlay/delayed.h>
#include <parlay/hash_table.h>
#include <optional>
using namespace pbt; using vt::El; using I = int64_t; using Vec = std::vector<I>; namespace pd = parlay::delayed; namespace p = parlay;
namespace {
struct Box { static inline std::atomic<long> live{0}; I k, t; Box(I a, I b) : k(a), t(b) { live++; } ~Box() { live--; k = -77; t = -77; } Box(const Box& o) : k(o.k), t(o.t) { live++; } };
using UP = std::unique_ptr<Box>;                                             // trivially relocatable
struct MV { UP p; explicit MV(UP q) : p(std::move(q)) {} MV(MV&& o) : p(std::move(o.p)) {} MV& operator=(MV&& o) { p = std::move(o.p); return *this; } ~MV() {} };          // its moves may throw as far as the library knows
struct CC { static inline std::atomic<long> copies{0}; UP p; explicit CC(UP q) : p(std::move(q)) {} CC(CC&&) noexcept = default; CC& operator=(CC&&) noexcept = default; CC(const CC& o) : p(o.p ? new Box(*o.p) : nullptr) { copies++; } CC& operator=(const CC& o) { p.reset(o.p ? new Box(*o.p) : nullptr); copies++; return *this; } };  // copying is possible but must not happen
struct BG { UP p; char pad[200]; explicit BG(UP q) : p(std::move(q)) {} BG(BG&&) noexcept = default; BG& operator=(BG&&) noexcept = default; };
const Box none(-5, -5);
inline const Box& bx(const UP& u) { if (!u) { soft_fail("moved-from element read"); return none; } return *u; }
template <typename T> const Box& box(const T& x) { if constexpr (std::is_same_v<T, UP>) return bx(x); else return bx(x.p); }
template <typename T> bool full(const T& x) { if constexpr (std::is_same_v<T, UP>) return (bool)x; else return (bool)x.p; }
template <typename T> T mk(I k, I t) { return T(UP(new Box(k, t))); }
template <typename T> p::sequence<T> mks(const Vec& v, I t0 = 0) { return p::sequence<T>::from_function(v.size(), [&](size_t i) { return mk<T>(v[i], t0 + (I)i); }); }
template <typename S> auto moving(S& s) { return p::make_slice(std::make_move_iterator(s.begin()), std::make_move_iterator(s.end())); }
template <typename S> Vec tags(const S& s) { Vec r; for (auto const& x : s) r.push_back(box(x).t); return r; }
// the elements are those of v, in the order given by their tags
template <typename S> void own(const S& s, const Vec& v, const Vec& want, const char* nm) { CHECK((size_t)parlay::size(s) == want.size(), nm, "size", parlay::size(s), want.size()); size_t i = 0; for (auto const& x : s) { const Box& b = box(x); CHECK(b.t == want[i] && b.k == v[(size_t)b.t], nm, "element", i, "is", b.t, "key", b.k, "expected", want[i]); i++; } }
template <typename T> void left(const p::sequence<T>& s, const std::vector<char>& taken, const char* nm) { for (size_t i = 0; i < s.size(); i++) CHECK(full(s[i]) == !taken[i], nm, "element", i, taken[i] ? "was not moved out" : "was moved out though not selected"); }
const char* names[] = {"sort_inplace", "stable_sort_inplace", "integer_sort_inplace", "stable_integer_sort_inplace", "counting_sort_inplace", "reverse_inplace", "flatten &&", "to_sequence of moves", "filter of moves", "pack of moves", "map of moves", "map by reference", "tabulate", "delayed to_sequence", "delayed map filter", "delayed flatten map", "merge_move", "kth_smallest", "rank", "reading algorithms", "unique of moves", "pack_into of moves", "filter_into of moves", "copy of moves", "quicksort", "bucket_sort", "for_each", "split_at of moves", "map_split_at", "delayed enumerate", "nested sort", "remove_if of moves"};
template <typename T> void mo(Gen& g, const char* type) {
  unsigned form = (unsigned)g.below(32); size_t maxn = g.thorough ? 60000 : 20000; const char* nm = names[form];
  size_t n = g.len(maxn, {1024, 2000, 2048, 8192, 16384, 512, 24}); std::string sh; I hi = g.pick<I>({1, 9, 200, 70000, 1000000000}); Vec v = ints(g, n, 0, hi, &sh); auto fl = flags(g, n); I div = g.pick<I>({1, 1, 3, 1000}); u64 r1 = g.seed(); set_jitter(r1, g.pick({0u, 0u, 0u, 1u})); bool by_key = g.coin();
  g.desc << nm << " of " << type << " n=" << n << " " << sh << " below " << hi << " /" << div << " " << show(v); g.ready(); g.label(nm); g.mark(n > 1);
  long live0 = Box::live, cp0 = CC::copies;
  {
    auto lt = [&](const T& a, const T& b) { return box(a).k / div < box(b).k / div; }; auto eq = [&](const T& a, const T& b) { return box(a).k / div == box(b).k / div; }; auto sel = [&](I k, I t) { return by_key ? k % 3 != 1 : (bool)fl[(size_t)t]; }; auto pred = [&](const T& a) { const Box& b = box(a); jitter((u64)b.t); return sel(b.k, b.t); };
    auto s = mks<T>(v); Vec id(n); for (size_t i = 0; i < n; i++) id[i] = (I)i; Vec sorted = id; std::stable_sort(sorted.begin(), sorted.end(), [&](I a, I b) { return v[(size_t)a] / div < v[(size_t)b] / div; });
    auto by = [&](auto f) { Vec w = id; std::stable_sort(w.begin(), w.end(), [&](I a, I b) { return f(v[(size_t)a]) < f(v[(size_t)b]); }); return w; };
    Vec chosen; std::vector<char> taken(n, 0); for (size_t i = 0; i < n; i++) if (sel(v[i], (I)i)) { chosen.push_back((I)i); taken[i] = 1; }
    auto any_order = [&](const p::sequence<T>& r, const char* what) { CHECK(r.size() == n, what); std::vector<char> seen(n, 0); for (size_t i = 0; i < n; i++) { const Box& b = box(r[i]); CHECK(b.t >= 0 && b.t < (I)n && !seen[(size_t)b.t] && b.k == v[(size_t)b.t], what, "position", i, "tag", b.t); seen[(size_t)b.t] = 1; if (i) CHECK(!lt(r[i], r[i - 1]), what, "out of order at", i); } };
    std::vector<char> all(n, 1);
    switch (form) {
      case 0: p::sort_inplace(s, lt); any_order(s, nm); break;
      case 1: p::stable_sort_inplace(s, lt); own(s, v, sorted, nm); break;
      case 2: p::integer_sort_inplace(s, [](const T& x) { return (uint32_t)box(x).k; }); own(s, v, by([](I k) { return (uint32_t)k; }), nm); break;
      case 3: { if (by_key) { p::stable_integer_sort_inplace(s, [](const T& x) { return (u64)box(x).k * 1000003; }); own(s, v, by([](I k) { return (u64)k * 1000003; }), nm); } else { p::stable_integer_sort_inplace(s, [](const T& x) { return (unsigned char)box(x).k; }); own(s, v, by([](I k) { return (unsigned char)k; }), nm); } break; }
      case 4: { size_t m = 1 + r1 % 400; auto off = p::counting_sort_inplace(s, m, [m](const T& x) { return (unsigned)((u64)box(x).k % m); }); own(s, v, by([m](I k) { return (u64)k % m; }), nm); CHECK(off.size() >= m && off[0] == 0, nm, off.size()); break; }
      case 5: { p::reverse_inplace(s); Vec w = id; std::reverse(w.begin(), w.end()); own(s, v, w, nm); break; }
      case 6: { p::sequence<p::sequence<T>> ss; size_t i = 0; Rng q(r1); while (i < n) { size_t l = q.below(4) ? q.below(5) : q.below(4000); if (q.below(9) == 0) l = n - i; l = std::min(l, n - i); p::sequence<T> a; for (size_t j = 0; j < l; j++) a.push_back(std::move(s[i + j])); ss.push_back(std::move(a)); i += l; } auto r = p::flatten(std::move(ss)); own(r, v, id, nm); break; }
      case 7: { auto r = p::to_sequence(moving(s)); own(r, v, id, nm); left(s, all, nm); break; }
      case 8: { auto r = p::filter(moving(s), pred); own(r, v, chosen, nm); left(s, taken, nm); break; }
      case 9: { auto r = p::pack(moving(s), taken); own(r, v, chosen, nm); left(s, taken, nm); break; }
      case 10: { auto r = p::map(moving(s), [](T&& x) { jitter((u64)box(x).t); return std::move(x); }); own(r, v, id, nm); left(s, all, nm); break; }
      case 11: { auto r = p::map(s, [](T& x) { return std::move(x); }); own(r, v, id, nm); left(s, all, nm); break; }
      case 12: { std::atomic<size_t> calls{0}; auto r = p::tabulate(n, [&](size_t i) { calls++; return mk<T>(v[i], (I)i); }); own(r, v, id, nm); CHECK(calls == n, nm, calls.load()); break; }
      case 13: { std::atomic<size_t> calls{0}; auto r = pd::to_sequence(p::delayed_tabulate(n, [&](size_t i) { calls++; return mk<T>(v[i], (I)i); })); own(r, v, id, nm); CHECK(calls == n, nm, calls.load()); auto q = p::to_sequence(p::delayed_tabulate(n, [&](size_t i) { return mk<T>(v[i], (I)i); })); own(q, v, id, nm); break; }
      case 14: { auto r = pd::to_sequence(pd::map(pd::filter(s, pred), [](T& x) { return std::move(x); })); own(r, v, chosen, nm); left(s, taken, nm); break; }
      case 15: { p::sequence<p::sequence<T>> ss; size_t i = 0; Rng q(r1); while (i < n) { size_t l = std::min<size_t>(q.below(3) ? q.below(5) : q.below(5000), n - i); p::sequence<T> a; for (size_t j = 0; j < l; j++) a.push_back(std::move(s[i + j])); ss.push_back(std::move(a)); i += l; } auto r = pd::to_sequence(pd::map(pd::flatten(ss), [](T& x) { return std::move(x); })); own(r, v, id, nm); for (auto& a : ss) for (auto& x : a) CHECK(!full(x), nm, "left behind"); break; }
      case 16: { size_t k = n ? r1 % (n + 1) : 0; Vec a(id.begin(), id.begin() + (I)k), b(id.begin() + (I)k, id.end()); auto f = [&](I x, I y) { return v[(size_t)x] / div < v[(size_t)y] / div; }; std::stable_sort(a.begin(), a.end(), f); std::stable_sort(b.begin(), b.end(), f); p::sequence<T> x, y; for (I i : a) x.push_back(std::move(s[(size_t)i])); for (I i : b) y.push_back(std::move(s[(size_t)i])); Vec w; std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(w), f); p::sequence<T> r; INTERNAL_ONLY(r = p::internal::merge_move(p::make_slice(x), p::make_slice(y), lt);) if (r.size() != n) break; own(r, v, w, nm); for (auto& e : x) CHECK(!full(e), nm, "left behind"); for (auto& e : y) CHECK(!full(e), nm, "left behind"); break; }
      case 17: if (n) { size_t k = r1 % n; auto it = p::kth_smallest(s, k, lt); CHECK(box(*it).k / div == v[(size_t)sorted[k]] / div, nm, k); own(s, v, id, nm); } break;
      case 18: { auto r = p::rank(s, lt); CHECK(r.size() == n, nm); for (size_t i = 0; i < n; i++) CHECK((size_t)r[(size_t)sorted[i]] == i, nm, i, r[(size_t)sorted[i]]); own(s, v, id, nm); break; }
      case 19: { const auto& c = s; Vec k(n); for (size_t i = 0; i < n; i++) k[i] = v[i] / div; size_t sum = 0; for (char t : taken) sum += (size_t)t; CHECK((size_t)p::count_if(c, pred) == sum, "count_if"); auto f = p::find_if(c, pred) - c.begin(); CHECK(f == std::find(taken.begin(), taken.end(), 1) - taken.begin(), "find_if"); CHECK(p::min_element(c, lt) - c.begin() == std::min_element(k.begin(), k.end()) - k.begin(), "min_element"); CHECK(p::is_sorted(c, lt) == std::is_sorted(k.begin(), k.end())); CHECK(p::adjacent_find(c, eq) - c.begin() == std::adjacent_find(k.begin(), k.end()) - k.begin()); CHECK(p::equal(c, c, eq)); CHECK(p::all_of(c, pred) == (sum == n)); own(c, v, id, nm); break; }
      case 20: { Vec w; for (size_t i = 0; i < n; i++) if (i == 0 || v[i] / div != v[i - 1] / div) w.push_back((I)i); auto flg = p::delayed_tabulate(n, [&](size_t i) { return i == 0 || v[i] / div != v[i - 1] / div; }); auto r = p::pack(moving(s), flg); own(r, v, w, nm); break; }
      case 21: case 22: { T* raw = (T*)::operator new(n * sizeof(T) + 1); auto o = p::make_slice(raw, raw + n); size_t k = form == 21 ? p::pack_into_uninitialized(moving(s), taken, o) : p::filter_into_uninitialized(moving(s), o, pred); bool ok = k == chosen.size(); if (ok) for (size_t i = 0; i < k; i++) if (box(raw[i]).t != chosen[i]) { ok = false; break; } for (size_t i = 0; i < k && i < n; i++) raw[i].~T(); ::operator delete((void*)raw); CHECK(ok, nm, k, chosen.size()); left(s, taken, nm); break; }
      case 23: { auto o = mks<T>(Vec(n, 3), 100); p::copy(moving(s), o); own(o, v, id, nm); left(s, all, nm); break; }
      case 24: lin::quicksort(p::make_slice(s), lt); any_order(s, nm); break;
      case 25: lin::bucket_sort(p::make_slice(s), lt, true); own(s, v, sorted, nm); break;
      case 26: { p::sequence<T> o = mks<T>(Vec(n, 0)); p::for_each(p::iota(n), [&](size_t i) { o[i] = std::move(s[i]); }); own(o, v, id, nm); p::for_each(o, [](T& x) { T y = std::move(x); (void)y; }); for (auto& x : o) CHECK(!full(x), nm, "not visited"); break; }
      case 27: { auto r = p::split_at(moving(s), taken); Vec w; size_t k = 0; for (auto& x : r) for (auto& y : x) { CHECK(box(y).t == (I)k && box(y).k == v[k], nm, k); k++; } CHECK(k == n, nm, k); CHECK(r.size() == chosen.size() + 1, nm, "pieces", r.size()); left(s, all, nm); break; }
      case 28: { auto r = p::map_split_at(s, taken, [](auto sl) { std::optional<T> o; p::sequence<T> q; for (auto& x : sl) q.push_back(std::move(x)); return q; }); size_t k = 0; for (auto& x : r) for (auto& y : x) { CHECK(box(y).t == (I)k && box(y).k == v[k], nm, k); k++; } CHECK(k == n, nm, k); break; }
      case 29: { auto r = pd::to_sequence(pd::map(pd::enumerate(s), [](auto&& t) { if (box(std::get<1>(t)).t != (I)std::get<0>(t)) soft_fail("enumerate pairs wrongly"); return std::move(std::get<1>(t)); })); own(r, v, id, nm); left(s, all, nm); break; }
      case 30: { p::sequence<p::sequence<T>> ss; size_t i = 0; Rng q(r1); while (i < n) { size_t l = std::min<size_t>(1 + q.below(3000), n - i); p::sequence<T> a; for (size_t j = 0; j < l; j++) a.push_back(std::move(s[i + j])); ss.push_back(std::move(a)); i += l; } p::sort_inplace(ss, [](const auto& a, const auto& b) { return box(a[0]).t > box(b[0]).t; }); p::parallel_for(0, ss.size(), [&](size_t j) { p::stable_sort_inplace(ss[ss.size() - 1 - j], lt); }); size_t at = 0; for (size_t j = ss.size(); j-- > 0;) { Vec w(id.begin() + (I)at, id.begin() + (I)(at + ss[j].size())); std::stable_sort(w.begin(), w.end(), [&](I a, I b) { return v[(size_t)a] / div < v[(size_t)b] / div; }); own(ss[j], v, w, nm); at += w.size(); } CHECK(at == n, nm); break; }
      case 31: { auto r = p::remove_if(moving(s), pred); Vec w; std::vector<char> t2(n, 0); for (size_t i = 0; i < n; i++) if (!taken[i]) { w.push_back((I)i); t2[i] = 1; } own(r, v, w, nm); left(s, t2, nm); break; }
    }
    for (size_t i = 0; i < s.size(); i++) if (full(s[i])) { const Box& b = box(s[i]); CHECK(b.t >= 0 && b.t < (I)n && v[(size_t)b.t] == b.k, nm, "an element that stays is damaged"); }
  }
  CHECK(Box::live == live0, nm, Box::live - live0, "elements lost or duplicated"); CHECK(CC::copies == cp0, nm, CC::copies - cp0, "copies made");
}
}
#define M_(NAME, T) PBT_SUB(NAME, 3000, 30000, 60, F_NONE) { mo<T>(g, #T); }
#if PART == 0
M_(unique_ptr, UP)
#elif PART == 1
M_(throwing_move, MV)
#elif PART == 2
M_(counted_copies, CC)
#elif PART == 3
M_(padded, BG)
#endif
#else
// Everything applied to lvalues leaves the input as it was (elements that would notice being moved from).
#include "algos.h"
using namespace al;
namespace { template <typename T, int Part> void keep_case(Gen& g, const char* type) {
  int which = Part + NP * (int)g.below(NALGO / NP); Ctx c = ctx(g, g.thorough ? 60000 : 18000); Dig d; const char* nm = algo<T, Part>(which, c, d, true);
  g.desc << nm << " of " << type << " " << describe(c); g.ready(); g.label(nm); g.mark(c.n > 1); set_jitter(c.sd, c.jit); algo<T, Part>(which, c, d); } }
#define A_(K, T) PBT_SUB(lvalues##K, 400, 4000, 60, F_NONE) { keep_case<T, K>(g, #T); }
#if PART == 4
A_(0, std::string)
#elif PART == 5
A_(1, std::string)
#elif PART == 6
A_(2, std::string)
#elif PART == 7
A_(3, std::string)
#elif PART == 8
A_(4, std::string)
#elif PART == 9
A_(5, std::string)
#endif
#endif
