// Whatever converts to bool is a truth value: the same call with predicates, orders, equalities or flags of another type gives the same result.
#include "algos.h"
#ifndef PART
#define PART 0
#endif
using namespace al;
namespace {
struct Cls { short v; operator bool() const { return v != 0; } };
template <typename R> R truth(bool b, u64 s) { s = mix(s);
  if constexpr (std::is_same_v<R, bool>) return b;
  else if constexpr (std::is_same_v<R, Cls>) { static const short t[] = {1, 2, -1, 256, 7}; return {b ? t[s % 5] : short(0)}; }
  else if constexpr (std::is_pointer_v<R>) { static const char c[4] = "abc"; return b ? c + s % 3 : nullptr; }
  else if constexpr (std::is_floating_point_v<R>) { static const double t[] = {1, 0.25, -3, 1e300, 1e-300}; return b ? R(t[s % 5]) : (s & 64 ? R(-0.0) : R(0)); }
  else if constexpr (sizeof(R) == 1) { static const unsigned char t[] = {1, 2, 0x80, 0xff, 0x10}; return b ? (R)t[s % 5] : R(0); }
  else if constexpr (sizeof(R) == 4) { static const unsigned t[] = {1, 2, 256, 0x10000, 0xffffffffu, 0x80000000u}; return b ? (R)t[s % 6] : R(0); }
  else { static const u64 t[] = {1, 2, 256, u64(1) << 32, ~u64(0), u64(1) << 63}; return b ? (R)t[s % 6] : R(0); } }
constexpr int NC = 36;
#define CALL(K, NAME, ...) case K: { nm = NAME; if (d) { __VA_ARGS__; } break; }
// One call with truth values of type R; the digest must not depend on R. X: its elements
template <typename R, typename X> const char* calls(int which, const Ctx& c, Dig* dp) {
  namespace p = parlay; namespace pd = parlay::delayed; const char* nm = "?"; Dig* d = dp; size_t n = c.n; u64 sd = c.sd; Vec empty; const Vec& k = d ? c.k : empty; const Vec& k2 = d ? c.k2 : empty;
  auto key = [](const X& x) { return El<X>::key(x); };
  auto pr = [=](const X& x) -> R { return truth<R>((mix((u64)key(x) + sd) & 3) != 0, (u64)El<X>::tag(x)); }; int co = c.coarse;
  auto lt = [=](const X& a, const X& b) -> R { return truth<R>(key(a) / co < key(b) / co, (u64)El<X>::tag(a) * 31 + (u64)El<X>::tag(b)); };
  auto eq = [=](const X& a, const X& b) -> R { return truth<R>(key(a) / co == key(b) / co, (u64)El<X>::tag(a) * 31 + (u64)El<X>::tag(b)); };
  auto hs = [=](const X& a) { return (size_t)mix((u64)(key(a) / co) ^ sd); };
  auto s = mkseq<X>(k); auto q = mkseq<X>(k2); auto fl = p::sequence<R>::from_function(d ? n : 0, [&](size_t i) { return truth<R>(c.fl[i], i + sd); });
  switch (which) {
    CALL(0, "pack", d->seq<X>(p::pack(s, fl)))
    CALL(1, "pack_index", d->nums(p::pack_index(fl)); d->nums(p::pack_index<int>(fl)))
    CALL(2, "pack_into_uninitialized", Raw<X> o(n); o.done(p::pack_into_uninitialized(s, fl, o.slice())); d->seq<X>(o))
    CALL(3, "filter", d->seq<X>(p::filter(s, pr)))
    CALL(4, "filter_into_uninitialized", Raw<X> o(n); o.done(p::filter_into_uninitialized(s, o.slice(), pr)); d->seq<X>(o))
    CALL(5, "remove_if", d->seq<X>(p::remove_if(s, pr)))
    CALL(6, "count_if", d->add((I)p::count_if(s, pr)))
    CALL(7, "all_of any_of none_of", auto rare = [=](const X& x) -> R { return truth<R>(mix((u64)key(x) ^ sd) % (n + 1) == 0, (u64)El<X>::tag(x)); }; auto often = [=](const X& x) -> R { return truth<R>(mix((u64)key(x) ^ sd) % (n + 1) != 0, (u64)El<X>::tag(x)); }; d->add((bool)p::all_of(s, often)); d->add((bool)p::any_of(s, rare)); d->add((bool)p::none_of(s, rare)))
    CALL(8, "find_if find_if_not", auto rare = [=](const X& x) -> R { return truth<R>(mix((u64)key(x) ^ sd) % 977 == 0, (u64)El<X>::tag(x)); }; d->add(p::find_if(s, rare) - s.begin()); d->add(p::find_if_not(s, pr) - s.begin()))
    CALL(9, "is_partitioned", auto half = [=](const X& x) -> R { return truth<R>(El<X>::tag(x) < (I)(n / 2), (u64)El<X>::tag(x)); }; d->add((bool)p::is_partitioned(s, half)); d->add((bool)p::is_partitioned(s, pr)))
    CALL(10, "find_first_of", size_t m = std::min<size_t>(q.size(), 40); auto z = p::to_sequence(q.cut(0, m)); d->add(p::find_first_of(s, z, eq) - s.begin()))
    CALL(11, "adjacent_find", d->add(p::adjacent_find(s, eq) - s.begin()))
    CALL(12, "mismatch equal", auto t = s; if (n) t[sd % n] = El<X>::make(1 << 30, 7); d->add(p::mismatch(s, t, eq).first - s.begin()); d->add((bool)p::equal(s, t, eq)); d->add((bool)p::equal(s, s, eq)))
    CALL(13, "search find_end", size_t l = std::min<size_t>(n, 3), at = n ? std::min<size_t>(sd % n, n - l) : 0; auto pat = p::to_sequence(s.cut(at, at + l)); d->add(p::search(s, pat, eq) - s.begin()); d->add(p::find_end(s, pat, eq) - s.begin()))
    CALL(14, "lexicographical_compare", auto t = s; if (n) t[sd % n] = El<X>::make(1 << 30, 7); auto ltx = [=](const X& a, const X& b) -> std::conditional_t<std::is_pointer_v<R>, bool, R> { return static_cast<std::conditional_t<std::is_pointer_v<R>, bool, R>>(lt(a, b)); }; d->add((bool)p::lexicographical_compare(s, t, ltx)); d->add((bool)p::lexicographical_compare(t, s, ltx)); d->add((bool)p::lexicographical_compare(s, q, ltx)))
    CALL(15, "unique", d->seq<X>(p::unique(s, eq)))
    CALL(16, "min max", d->add(p::min_element(s, lt) - s.begin()); d->add(p::max_element(s, lt) - s.begin()); auto mm = p::minmax_element(s, lt); d->add(mm.first - s.begin()); d->add(mm.second - s.begin()))
    CALL(17, "is_sorted", d->add((bool)p::is_sorted(s, lt)); d->add(p::is_sorted_until(s, lt) - s.begin()); auto t = p::stable_sort(s, Lt<X>{co}); d->add((bool)p::is_sorted(t, lt)); d->add(p::is_sorted_until(t, lt) - t.begin()))
    CALL(18, "merge", auto a = p::stable_sort(s, Lt<X>{co}); auto b = p::stable_sort(q, Lt<X>{co}); d->seq<X>(p::merge(a, b, lt)))
    CALL(19, "sort", auto t = p::sort(s, lt); Vec o; for (auto& x : t) o.push_back(key(x) / co); d->nums(o))
    CALL(20, "sort_inplace", p::sort_inplace(s, lt); Vec o; for (auto& x : s) o.push_back(key(x) / co); d->nums(o))
    CALL(21, "stable_sort", d->seq<X>(p::stable_sort(s, lt)))
    CALL(22, "stable_sort_inplace", p::stable_sort_inplace(s, lt); d->seq<X>(s))
    CALL(23, "remove_duplicates_ordered", d->seq<X>(p::remove_duplicates_ordered(s, lt)))
    CALL(24, "rank", d->nums(p::rank(s, lt)))
    CALL(25, "kth_smallest", if (n) { d->add(key(p::kth_smallest_copy(s, sd % n, lt)) / co); d->add(key(*p::kth_smallest(s, sd % n, lt)) / co); })
    CALL(26, "group_by_key_ordered", auto r = p::group_by_key_ordered(p::tabulate(n, [&](size_t i) { return std::make_pair(s[i], (I)i); }), lt); d->add((I)r.size()); for (auto& x : r) { d->add(key(x.first) / co); d->nums(x.second); })
    CALL(27, "group_by_key", auto r = p::group_by_key(p::tabulate(n, [&](size_t i) { return std::make_pair(s[i], (I)i); }), hs, eq); std::map<I, Vec> m; for (auto& x : r) m[key(x.first) / co].assign(x.second.begin(), x.second.end()); d->add((I)r.size()); for (auto& x : m) { d->add(x.first); d->nums(x.second); })
    CALL(28, "reduce_by_key", auto r = p::reduce_by_key(p::tabulate(n, [&](size_t i) { return std::make_pair(s[i], (I)i); }), p::plus<I>(), hs, eq); std::map<I, I> m; for (auto& x : r) m[key(x.first) / co] += x.second; d->add((I)r.size()); for (auto& x : m) { d->add(x.first); d->add(x.second); })
    CALL(29, "histogram_by_key remove_duplicates", auto r = p::histogram_by_key(s, hs, eq); std::map<I, I> m; for (auto& x : r) m[key(x.first) / co] += (I)x.second; d->add((I)r.size()); for (auto& x : m) { d->add(x.first); d->add(x.second); } d->add((I)p::remove_duplicates(s, hs, eq).size()))
    CALL(30, "tokens", auto t = p::tabulate(n, [&](size_t i) { return (char)(k[i] % 11 + 'a'); }); auto sp = [=](char x) -> R { return truth<R>(x < 'd', (u64)x); }; auto r = p::tokens(t, sp); d->add((I)r.size()); for (auto& x : r) d->nums(x); d->nums(p::map_tokens(t, [](auto const& y) { return y.size(); }, sp)))
    CALL(31, "split_at map_split_at", auto r = p::split_at(s, fl); d->add((I)r.size()); for (auto& x : r) d->seq<X>(x); d->nums(p::map_split_at(s, fl, [](auto const& y) { return y.size(); })))
    CALL(32, "delayed filter", d->seq<X>(pd::to_sequence(pd::filter(s, pr))); d->add(pd::reduce(pd::map(pd::filter(p::delayed_map(s, [](const X& x) { return x; }), pr), key), p::plus<I>())))
    CALL(33, "quicksort merge_sort bucket_sort", auto a = s; lin::quicksort(p::make_slice(a), lt); Vec o; for (auto& x : a) o.push_back(key(x) / co); d->nums(o); d->seq<X>(lin::merge_sort(p::make_slice(s), lt)); lin::bucket_sort(p::make_slice(s), lt, true); d->seq<X>(s))
    CALL(34, "binary_search", auto a = p::stable_sort(s, Lt<X>{co}); for (size_t i = 0; i < std::min<size_t>(q.size(), 50); i++) d->add((I)lin::binary_search(p::make_slice(a), q[i], lt)))
    CALL(35, "delayed map filter zip", auto a = pd::zip(s, p::iota<I>(n)); auto f = pd::filter(a, [=](auto&& x) -> R { return pr(std::get<0>(x)); }); d->nums(pd::to_sequence(pd::map(f, [](auto&& x) { return std::get<1>(x); }))))
  }
  return nm;
}
template <typename R, typename X> void one(Gen& g, const char* rn) {
  int which = (int)g.below(NC); Ctx c = ctx(g, g.thorough ? 60000 : 20000); const char* nm = calls<R, X>(which, c, nullptr); g.desc << nm << " with truth values of type " << rn << " " << describe(c); g.ready(); g.label(nm); g.mark(c.n > 1); Dig a, b; calls<bool, X>(which, c, &a); calls<R, X>(which, c, &b); CHECK(a.v == b.v, nm, rn, diff(a, b));
}
}
#define T_(NAME, R) PBT_SUB(NAME, 1200, 20000, 40, F_NONE) { one<R, vt::Small>(g, #R); }
#if PART == 0
T_(ints, int)
#elif PART == 1
T_(words, u64)
#elif PART == 2
T_(bytes, unsigned char)
#elif PART == 3
T_(doubles, double)
#elif PART == 4
T_(objects, Cls)
#elif PART == 5
T_(pointers, const char*)
#endif
