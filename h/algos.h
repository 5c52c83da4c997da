// A catalogue of calls of the library, each giving a digest of everything it returns or leaves behind.
#ifndef ALGOS_H
#define ALGOS_H
#include "sortcase.h"
#include <parlay/delayed.h>
#include <parlay/random.h>
#include <parlay/hash_table.h>
#include <parlay/io.h>
#include <parlay/worker_specific.h>
#include <parlay/thread_specific.h>
#ifndef VERIF_NO_INTERNAL
#include <parlay/internal/concurrency/hazptr_stack.h>
#endif
#include <parlay/alloc.h>
namespace al {
using namespace pbt; using vt::El; using I = int64_t; using Vec = std::vector<I>;
struct Dig { std::vector<I> v; void add(I x) { v.push_back(x); } void dbl(double x) { I y; memcpy(&y, &x, 8); v.push_back(y); }
  template <typename T, typename R> void seq(const R& r) { v.push_back((I)r.size()); for (auto const& x : r) { v.push_back(El<T>::key(x)); v.push_back(El<T>::tag(x)); } }
  template <typename R> void nums(const R& r) { v.push_back((I)r.size()); for (auto const& x : r) v.push_back((I)x); } template <typename R> void dbls(const R& r) { v.push_back((I)r.size()); for (double x : r) dbl(x); } };
inline std::string diff(const Dig& a, const Dig& b) { std::ostringstream o; o << "results of " << a.v.size() << " and " << b.v.size() << " numbers"; for (size_t i = 0; i < std::min(a.v.size(), b.v.size()); i++) if (a.v[i] != b.v[i]) { o << ", number " << i << ": " << a.v[i] << " and " << b.v[i]; break; } return o.str(); }
struct Ctx { size_t n; Vec k, k2; std::vector<char> fl; u64 sd; size_t m; int coarse; unsigned jit; std::string sh; };
constexpr int NALGO = 90, NP = 6;
inline Ctx ctx(Gen& g, size_t maxn) { Ctx c; c.n = g.len(maxn, {1000, 1024, 2000, 2048, 8192, 10000, 16384}); I hi = g.pick<I>({1, 5, 60, 5000, 1000000}); c.k = ints(g, c.n, 0, hi, &c.sh); c.k2 = ints(g, g.len(c.n + 3, {2000, 1024}), 0, hi); c.fl = flags(g, c.n); c.sd = g.seed(); c.m = (size_t)hi + 1; c.coarse = 1 + (int)g.below(4); c.jit = g.pick({0u, 0u, 1u}); return c; }
inline std::string describe(const Ctx& c) { std::ostringstream o; o << "n=" << c.n << "," << c.k2.size() << " keys " << c.sh << " below " << c.m << " /" << c.coarse << " " << show(c.k, 12); return o.str(); }
template <typename T> struct Lt { int c; bool operator()(const T& a, const T& b) const { return El<T>::key(a) / c < El<T>::key(b) / c; } };
template <typename T> struct Hs { u64 s; size_t operator()(const T& a) const { return (size_t)mix((u64)El<T>::key(a) ^ s); } };
template <typename T> struct Eq { bool operator()(const T& a, const T& b) const { return El<T>::key(a) == El<T>::key(b); } };
template <typename T> struct Even { bool operator()(const T& a) const { jitter((u64)El<T>::key(a)); return (mix((u64)El<T>::key(a)) & 3) != 0; } };
struct AffM { static constexpr u64 P = 1000003; u64 identity = u64(1) << 32; u64 operator()(u64 a, u64 b) const { u64 a1 = a >> 32, a0 = a & 0xffffffff, b1 = b >> 32, b0 = b & 0xffffffff; return (a1 * b1 % P) << 32 | ((a0 * b1 + b0) % P); } };
struct DSum { double identity = 0; double operator()(double a, double b) const { return a + b; } };
template <typename T> parlay::sequence<T> mkseq(const Vec& k) { return parlay::sequence<T>::from_function(k.size(), [&](size_t i) { return El<T>::make(k[i], (I)i); }); }
template <typename T> struct Raw { size_t n, k = 0; T* p; Raw(size_t n_) : n(n_), p((T*)::operator new(n_ * sizeof(T) + 1, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)))) {} Raw(const Raw&) = delete; auto slice() { return parlay::make_slice(p, p + n); } void done(size_t c) { if (c > n) { soft_fail("more written than there are"); c = n; } k = c; } size_t size() const { return k; } const T* begin() const { return p; } const T* end() const { return p + k; } ~Raw() { for (size_t i = 0; i < k; i++) p[i].~T(); ::operator delete((void*)p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T))); } };
struct HI { using eType = I; using kType = I; eType empty() { return -1; } kType getKey(eType v) { return v; } size_t hash(kType v) { return (size_t)mix((u64)v); } int cmp(kType v, kType b) { return v > b ? 1 : v == b ? 0 : -1; } bool replaceQ(eType, eType) { return false; } eType update(eType v, eType) { return v; } bool cas(eType* p, eType o, eType n) { return __sync_bool_compare_and_swap(p, o, n); } };
#define ALGO(K, NAME, ...) if constexpr ((K) % NP == Part) { if (which == (K)) { static const char* nm_ = NAME; if (name_only) return nm_; __VA_ARGS__; return nm_; } }
// Runs algorithm `which` on fresh copies of the inputs. s: the elements; they must come back unchanged.
template <typename T, int Part> const char* algo(int which, const Ctx& c, Dig& d, bool name_only = false) {
  namespace p = parlay; namespace pd = parlay::delayed; size_t n = c.n; static_assert(NALGO % NP == 0);
  auto in = [&] { return mkseq<T>(c.k); }; auto in2 = [&] { return mkseq<T>(c.k2); }; auto key = [](const T& x) { return El<T>::key(x); }; (void)key;
  const Lt<T> lt{c.coarse}; const Even<T> ev; const Eq<T> eq; const Hs<T> hs{c.sd}; (void)lt; (void)ev; (void)eq; (void)hs;
  auto keep = [&](const p::sequence<T>& s, const Vec& k) { if (s.size() != k.size()) { soft_fail("input changed size"); return; } for (size_t i = 0; i < k.size(); i++) if (El<T>::key(s[i]) != k[i]) { soft_fail("input changed at " + std::to_string(i)); return; } }; (void)keep;
  auto dv = [&](size_t i) { return 1.0 / (double)(1 + (mix(c.sd + i) % 1000)) * (double)(1 + c.k[i]); }; (void)dv;
  auto fb = p::sequence<bool>::from_function(n, [&](size_t i) { return (bool)c.fl[i]; });
  ALGO(0, "map", auto s = in(); auto r = p::map(s, [](const T& x) { jitter((u64)El<T>::key(x)); return El<T>::make(El<T>::key(x) + 1, El<T>::tag(x)); }); d.seq<T>(r); keep(s, c.k))
  ALGO(1, "tabulate", auto r = p::tabulate(n, [&](size_t i) { return El<T>::make(c.k[i], (I)i); }); d.seq<T>(r))
  ALGO(2, "copy to_sequence", auto s = in(); auto r = p::to_sequence(s); auto q = in2(); auto r2 = p::sequence<T>(r); p::copy(s, r2); d.seq<T>(r); d.seq<T>(r2); keep(s, c.k))
  ALGO(3, "reduce double", auto x = p::tabulate(n, dv); d.dbl(p::reduce(x, DSum{})); d.dbl(p::reduce(p::delayed_tabulate(n, dv))))
  ALGO(4, "scan double", auto x = p::tabulate(n, dv); auto [r, t] = p::scan(x, DSum{}); d.dbls(r); d.dbl(t); auto y = p::scan_inclusive(x); d.dbls(y); d.dbl(p::scan_inplace(x)); d.dbls(x); d.dbl(p::scan_inclusive_inplace(y, DSum{})); d.dbls(y))
  ALGO(5, "scan affine", auto x = p::tabulate(n, [&](size_t i) { return (u64)((c.k[i] % 1000) + 1) << 32 | (u64)(i % 1000003); }); auto [r, t] = p::scan(x, AffM{}); d.nums(r); d.add((I)t); d.nums(p::scan_inclusive(x, AffM{})); d.add((I)p::reduce(x, AffM{})))
  ALGO(6, "pack", auto s = in(); d.seq<T>(p::pack(s, fb)); d.nums(p::pack_index(fb)); d.nums(p::pack_index<int>(fb)); keep(s, c.k))
  ALGO(7, "pack_into", auto s = in(); Raw<T> o(n); o.done(p::pack_into_uninitialized(s, fb, o.slice())); d.seq<T>(o); keep(s, c.k))
  ALGO(8, "filter", auto s = in(); d.seq<T>(p::filter(s, ev)); keep(s, c.k))
  ALGO(9, "filter_into", auto s = in(); Raw<T> o(n); o.done(p::filter_into_uninitialized(s, o.slice(), ev)); d.seq<T>(o); keep(s, c.k))
  ALGO(10, "merge", auto a = in(); auto b = in2(); p::stable_sort_inplace(a, lt); p::stable_sort_inplace(b, lt); d.seq<T>(p::merge(a, b, lt)))
  ALGO(11, "sort", auto s = in(); d.seq<T>(p::sort(s, lt)); keep(s, c.k))
  ALGO(12, "sort &&", d.seq<T>(p::sort(in(), lt)))
  ALGO(13, "sort_inplace", auto s = in(); p::sort_inplace(s, lt); d.seq<T>(s))
  ALGO(14, "stable_sort", auto s = in(); d.seq<T>(p::stable_sort(s, lt)); keep(s, c.k))
  ALGO(15, "stable_sort_inplace", auto s = in(); p::stable_sort_inplace(s, lt); d.seq<T>(s))
  ALGO(16, "integer_sort", auto s = in(); d.seq<T>(p::integer_sort(s, [&](const T& x) { return (uint32_t)El<T>::key(x); })); keep(s, c.k))
  ALGO(17, "integer_sort_inplace", auto s = in(); p::integer_sort_inplace(s, [&](const T& x) { return (u64)El<T>::key(x) * 77; }); d.seq<T>(s); auto t = in(); p::stable_integer_sort_inplace(t, [&](const T& x) { return (unsigned char)El<T>::key(x); }); d.seq<T>(t))
  ALGO(18, "counting_sort", auto s = in(); auto r = p::counting_sort(s, 50, [&](const T& x) { return (unsigned)(El<T>::key(x) % 50); }); d.seq<T>(r.first); d.nums(r.second); keep(s, c.k))
  ALGO(19, "counting_sort_inplace", auto s = in(); d.nums(p::counting_sort_inplace(s, 300, [&](const T& x) { return (unsigned)(El<T>::key(x) % 300); })); d.seq<T>(s))
  ALGO(20, "find_if find", auto s = in(); d.add(p::find_if(s, [&](const T& x) { jitter((u64)El<T>::tag(x)); return El<T>::key(x) % 97 == 13; }) - s.begin()); d.add(p::find_if_not(s, ev) - s.begin()); d.add((I)p::count_if(s, ev)); d.add(p::all_of(s, ev)); d.add(p::any_of(s, [&](const T& x) { return El<T>::key(x) == 3; })); d.add(p::none_of(s, ev)))
  ALGO(21, "search find_end", auto s = in(); size_t l = std::min<size_t>(n, 3); size_t at = n ? c.sd % n : 0; auto pat = p::to_sequence(s.cut(std::min(at, n - l), std::min(at, n - l) + l)); d.add(p::search(s, pat, eq) - s.begin()); d.add(p::find_end(s, pat, eq) - s.begin()); d.add(p::find_first_of(s, pat, eq) - s.begin()); d.add(p::adjacent_find(s, eq) - s.begin()); auto q = in2(); d.add(p::mismatch(s, q, eq).first - s.begin()); d.add(p::equal(s, q, eq)); d.add(p::lexicographical_compare(s, q, lt)))
  ALGO(22, "unique", auto s = in(); d.seq<T>(p::unique(s, eq)); keep(s, c.k))
  ALGO(23, "min max", auto s = in(); d.add(p::min_element(s, lt) - s.begin()); d.add(p::max_element(s, lt) - s.begin()); auto mm = p::minmax_element(s, lt); d.add(mm.first - s.begin()); d.add(mm.second - s.begin()))
  ALGO(24, "reverse rotate", auto s = in(); d.seq<T>(p::reverse(s)); if (n) d.seq<T>(p::rotate(s, c.sd % n)); keep(s, c.k); p::reverse_inplace(s); d.seq<T>(s))
  ALGO(25, "is_sorted is_partitioned", auto s = in(); d.add(p::is_sorted(s, lt)); d.add(p::is_sorted_until(s, lt) - s.begin()); d.add(p::is_partitioned(s, ev)))
  ALGO(26, "remove_if", auto s = in(); d.seq<T>(p::remove_if(s, ev)); keep(s, c.k))
  ALGO(27, "append", auto s = in(); auto q = in2(); d.seq<T>(p::append(s, q)); keep(s, c.k); keep(q, c.k2))
  ALGO(28, "flatten", auto s = p::tabulate(std::min<size_t>(n, 3000), [&](size_t i) { return p::sequence<T>::from_function((size_t)c.k[i] % 7, [&](size_t j) { return El<T>::make((I)j, (I)i); }); }); d.seq<T>(p::flatten(s)); d.seq<T>(p::flatten(std::move(s))))
  ALGO(29, "flatten large", auto s = p::tabulate(7, [&](size_t i) { return p::sequence<T>::from_function(i % 3 * n / 2, [&](size_t j) { return El<T>::make((I)j, (I)i); }); }); d.seq<T>(p::flatten(s)))
  ALGO(30, "split_at", auto s = in(); auto r = p::split_at(s, fb); d.add((I)r.size()); for (auto& x : r) d.seq<T>(x); keep(s, c.k))
  ALGO(31, "map_split_at", auto s = in(); d.nums(p::map_split_at(s, fb, [](auto const& sl) { u64 h = 7; for (auto const& x : sl) h = h * 31 + (u64)El<T>::key(x); return (I)h; })))
  ALGO(32, "map_maybe", auto s = in(); d.seq<T>(p::map_maybe(s, [&](const T& x) -> std::optional<T> { if (ev(x)) return El<T>::make(El<T>::key(x) * 2, El<T>::tag(x)); return std::nullopt; })); keep(s, c.k))
  ALGO(33, "remove_duplicates_ordered", auto s = in(); d.seq<T>(p::remove_duplicates_ordered(s, lt)); keep(s, c.k))
  ALGO(34, "kth_smallest", if (n) { auto s = in(); d.add(El<T>::key(p::kth_smallest_copy(s, c.sd % n, lt))); auto it = p::kth_smallest(s, c.sd % n, lt); d.add(El<T>::key(*it)); d.add(El<T>::tag(*it)); keep(s, c.k); })
  ALGO(35, "rank", auto s = in(); d.nums(p::rank(s, lt)); keep(s, c.k))
  ALGO(36, "random_shuffle", auto s = in(); d.seq<T>(p::random_shuffle(s, p::random(c.sd))); d.nums(p::random_permutation((int)n, p::random(c.sd))); keep(s, c.k))
  ALGO(37, "random generators", p::random_generator gen(c.sd); auto r = p::tabulate(n, [&](size_t i) { auto q = gen[i]; return (I)q(); }); d.nums(r))
  ALGO(38, "group_by_key", auto s = p::tabulate(n, [&](size_t i) { return std::make_pair(El<T>::make(c.k[i], (I)i), (I)i); }); auto r = p::group_by_key(s, hs, eq); d.add((I)r.size()); for (auto& x : r) { d.add(El<T>::key(x.first)); d.nums(x.second); })
  ALGO(39, "group_by_key &&", auto r = p::group_by_key(p::tabulate(n, [&](size_t i) { return std::make_pair(El<T>::make(c.k[i], (I)i), El<T>::make((I)i, 0)); }), hs, eq); d.add((I)r.size()); for (auto& x : r) { d.add(El<T>::key(x.first)); d.seq<T>(x.second); })
  ALGO(40, "reduce_by_key double", auto s = p::tabulate(n, [&](size_t i) { return std::make_pair(El<T>::make(c.k[i], (I)i), dv(i)); }); auto r = p::reduce_by_key(s, DSum{}, hs, eq); d.add((I)r.size()); for (auto& x : r) { d.add(El<T>::key(x.first)); d.dbl(x.second); })
  ALGO(41, "histogram_by_key", auto s = in(); auto r = p::histogram_by_key(s, hs, eq); d.add((I)r.size()); for (auto& x : r) { d.add(El<T>::key(x.first)); d.add((I)x.second); } keep(s, c.k))
  ALGO(42, "remove_duplicates", auto s = in(); d.seq<T>(p::remove_duplicates(s, hs, eq)); keep(s, c.k))
  ALGO(43, "group_by_key_ordered", auto s = p::tabulate(n, [&](size_t i) { return std::make_pair(El<T>::make(c.k[i], (I)i), (I)i); }); auto r = p::group_by_key_ordered(s, lt); d.add((I)r.size()); for (auto& x : r) { d.add(El<T>::key(x.first)); d.nums(x.second); })
  ALGO(44, "group_by_index", auto s = p::tabulate(n, [&](size_t i) { return std::make_pair((size_t)c.k[i], El<T>::make((I)i, c.k[i])); }); auto r = p::group_by_index(s, c.m); d.add((I)r.size()); for (auto& x : r) d.seq<T>(x))
  ALGO(45, "reduce_by_index double", auto s = p::tabulate(n, [&](size_t i) { return std::make_pair((size_t)c.k[i], dv(i)); }); d.dbls(p::reduce_by_index(s, c.m, DSum{})))
  ALGO(46, "histogram_by_index", auto s = p::tabulate(n, [&](size_t i) { return (unsigned)c.k[i]; }); d.nums(p::histogram_by_index(s, (unsigned)c.m)); d.nums(p::remove_duplicate_integers(s, (unsigned)c.m)))
  ALGO(47, "reduce_by_index few", auto s = p::tabulate(n, [&](size_t i) { return std::make_pair((size_t)(c.k[i] % 3), dv(i)); }); d.dbls(p::reduce_by_index(s, 3, DSum{})))
  ALGO(48, "delayed filter map", auto s = in(); auto v = pd::map(pd::filter(s, ev), [](const T& x) { return El<T>::key(x); }); d.nums(pd::to_sequence(v)); d.add(pd::reduce(v)); keep(s, c.k))
  ALGO(49, "delayed scan double", auto v = pd::scan(p::delayed_tabulate(n, dv), DSum{}); d.dbl(v.second); d.dbls(pd::to_sequence(v.first)); d.dbls(pd::to_sequence(pd::scan_inclusive(p::delayed_tabulate(n, dv)))))
  ALGO(50, "delayed reduce filter double", d.dbl(pd::reduce(pd::filter(p::delayed_tabulate(n, dv), [](double x) { return x > 0.05; }), DSum{})))
  ALGO(51, "delayed flatten", auto s = p::tabulate(std::min<size_t>(n, 3000), [&](size_t i) { return p::sequence<T>::from_function((size_t)c.k[i] % 7, [&](size_t j) { return El<T>::make((I)j, (I)i); }); }); d.seq<T>(pd::to_sequence(pd::flatten(s))); d.seq<T>(pd::to_sequence(pd::filter(pd::flatten(s), ev))))
  ALGO(52, "delayed map_maybe to sequence", auto s = in(); d.seq<T>(pd::to_sequence(pd::map_maybe(s, [&](const T& x) -> std::optional<T> { if (ev(x)) return x; return std::nullopt; }))); keep(s, c.k))
  ALGO(53, "delayed zip enumerate", auto s = in(); auto v = pd::zip_with([](const T& a, I b) { return El<T>::key(a) * 3 + b; }, pd::filter(s, ev), pd::iota((I)n)); d.nums(pd::to_sequence(v)); keep(s, c.k))
  ALGO(54, "hashtable", p::hashtable<HI> h(n, HI{}); p::parallel_for(0, n, [&](size_t i) { jitter((u64)c.k[i]); h.insert(c.k[i]); }); d.nums(h.entries()); d.add((I)h.count()); p::parallel_for(0, n, [&](size_t i) { if (c.k[i] % 3 == 0) h.deleteVal(c.k[i]); }); d.nums(h.entries()); auto f = p::tabulate(n, [&](size_t i) { return h.find(c.k[i]); }); d.nums(f))
  ALGO(55, "tokens", auto s = p::tabulate(n, [&](size_t i) { return (char)(c.fl[i] ? ' ' : 'a' + c.k[i] % 26); }); auto r = p::tokens(s); d.add((I)r.size()); for (auto& x : r) d.nums(x); d.nums(p::map_tokens(s, [](auto const& t) { return t.size(); })))
  ALGO(56, "to_chars", auto s = p::tabulate(std::min<size_t>(n, 4000), [&](size_t i) { return (long)c.k[i]; }); d.nums(p::to_chars(s)); auto x = p::tabulate(std::min<size_t>(n, 2000), dv); d.nums(p::to_chars(x)))
  ALGO(57, "write_min", std::atomic<I> a{1000000000}; std::atomic<I> b{-1}; p::parallel_for(0, n, [&](size_t i) { p::write_min(&a, c.k[i], std::less<I>()); p::write_max(&b, c.k[i], std::less<I>()); }); d.add(a); d.add(b))
  ALGO(58, "sequence ops", auto s = in(); auto q = in2(); s.append(q); s.insert(s.begin() + (I)(n / 2), q.begin(), q.end()); s.erase(s.begin() + (I)(n / 3), s.begin() + (I)(n / 2)); s.push_back(El<T>::make(1, 2)); d.seq<T>(s); auto t = s; t.append(std::move(s)); d.seq<T>(t); t.clear(); d.seq<T>(t))
  ALGO(59, "sequence assign", auto s = in(); auto t = p::sequence<T>(n + 5, El<T>::make(4, 4)); t = s; d.seq<T>(t); t.assign(3, El<T>::make(9, 1)); t.resize(n + 40, El<T>::make(8, 1)); t.resize(n / 2 + 1, El<T>::make(8, 1)); d.seq<T>(t); auto u = t.pop_tail(t.size() / 2); d.seq<T>(u); d.seq<T>(t))
  ALGO(60, "nested sort", auto s = p::tabulate(std::min<size_t>(n / 16, 64), [&](size_t i) { return p::sequence<T>::from_function(16 + i * 20 % n, [&](size_t j) { return El<T>::make(c.k[(i * 31 + j) % n], (I)j); }); }); auto r = p::map(s, [&](auto const& x) { return p::sort(x, lt); }); for (auto& x : r) d.seq<T>(x))
  ALGO(61, "par_do tree", std::function<u64(size_t, size_t)> f = [&](size_t a, size_t b) -> u64 { if (b - a < 40) { u64 h = 1; for (size_t i = a; i < b; i++) h = h * 31 + (u64)c.k[i]; return h; } size_t m = (a + b) / 2; u64 x, y; p::par_do([&] { x = f(a, m); }, [&] { y = f(m, b); }); return x * 1000003 + y; }; d.add((I)f(0, n)))
  ALGO(62, "for_each", auto s = in(); p::for_each(s, [](T& x) { x = El<T>::make(El<T>::key(x) + 5, El<T>::tag(x)); }); d.seq<T>(s); std::atomic<u64> h{0}; p::blocked_for(0, n, 300, [&](size_t b, size_t lo, size_t hi) { u64 z = b; for (size_t i = lo; i < hi; i++) z = z * 31 + (u64)c.k[i]; h += z; }); d.add((I)h.load()))
  ALGO(63, "merge &&", auto a = in(); p::sort_inplace(a, lt); d.seq<T>(p::merge(a, a, lt)))
  ALGO(64, "stable_sort &&", d.seq<T>(p::stable_sort(in(), lt)); auto s = in(); d.seq<T>(p::stable_integer_sort(s, [&](const T& x) { return (uint16_t)El<T>::key(x); })))
  ALGO(65, "delayed for_each apply", auto s = in(); std::atomic<u64> h{0}; pd::for_each(pd::filter(s, ev), [&](const T& x) { h += mix((u64)El<T>::key(x) ^ (u64)El<T>::tag(x) << 32); }); d.add((I)h.load()); keep(s, c.k))
  ALGO(66, "counting_sort_by_keys", auto s = p::tabulate(n, [&](size_t i) { return std::make_pair((unsigned)(c.k[i] % 100), El<T>::make((I)i, c.k[i])); }); auto r = p::counting_sort_by_keys(s, 100); d.seq<T>(r.first); d.nums(r.second))
  ALGO(67, "zip to_sequence", auto s = in(); auto z = p::zip(s, p::iota((I)n)); u64 h = 0; for (size_t i = 0; i < n; i++) h = h * 31 + (u64)El<T>::key(std::get<0>(z[i])) + (u64)std::get<1>(z[i]); d.add((I)h); keep(s, c.k))
  ALGO(68, "reduce_by_key noncommutative", auto s = p::tabulate(n, [&](size_t i) { return std::make_pair(El<T>::make(c.k[i], (I)i), (u64)(i % 1000 + 1) << 32 | (u64)(i % 1000003)); }); auto r = p::reduce_by_key(s, AffM{}, hs, eq); d.add((I)r.size()); for (auto& x : r) { d.add(El<T>::key(x.first)); d.add((I)x.second); })
  ALGO(69, "reduce_by_index noncommutative", auto s = p::tabulate(n, [&](size_t i) { return std::make_pair((size_t)c.k[i], (u64)(i % 1000 + 1) << 32 | (u64)(i % 1000003)); }); d.nums(p::reduce_by_index(s, c.m, AffM{})))
  ALGO(70, "remove count", auto s = in(); auto v = El<T>::make(c.n ? c.k[0] : 1, 0); auto q = p::map(s, [](const T& x) { return El<T>::key(x) % 5; }); d.nums(p::remove(q, 3)); d.add((I)p::count(q, 2)); d.add(p::find(q, 4) - q.begin()); d.nums(p::unique(q)); d.nums(p::sort(q)); d.add(El<T>::key(v)))
  ALGO(71, "histogram_by_key &&", auto r = p::histogram_by_key(in(), hs, eq); d.add((I)r.size()); for (auto& x : r) { d.add(El<T>::key(x.first)); d.add((I)x.second); } d.seq<T>(p::remove_duplicates(in(), hs, eq)))
  ALGO(72, "parse", auto xs = p::tabulate(std::min<size_t>(n, 1500), [&](size_t i) { return p::to_chars((long)(mix(c.sd + i) >> (c.k[i] % 60)) * (c.fl[i] ? -1 : 1)); }); d.nums(p::map(xs, [](const p::chars& t) { return p::chars_to_long(t); })); auto ys = p::tabulate(std::min<size_t>(n, 1500), [&](size_t i) { return p::to_chars(dv(i)); }); d.dbls(p::map(ys, [](const p::chars& t) { return p::chars_to_double(t); })); d.dbl(p::chars_to_double(p::to_chars("  "))); d.add(p::chars_to_int(p::chars())); d.add((I)p::chars_to_uint(p::to_chars("+"))); d.dbl(p::chars_to_float(p::to_chars("-1.5e-3"))))
  ALGO(73, "unique_array", size_t l = std::min<size_t>(n, 3000); auto a = p::make_unique_array<T>(l, [&](size_t i) { return El<T>::make(c.k[i], (I)i); }); auto b = std::move(a); for (size_t i = 0; i < l; i++) d.add(El<T>::key(b[i])); a = std::move(b); d.add(b == nullptr); swap(a, b); d.add(a == nullptr); if (l) d.add(El<T>::key(b[l - 1])); b.reset(); d.add(b == nullptr))
  ALGO(74, "worker specific", p::WorkerSpecific<I> ws([](size_t) { return I(0); }); p::parallel_for(0, n, [&](size_t i) { jitter((u64)c.k[i]); *ws += c.k[i]; }); I tot = 0; for (auto& x : ws) tot += x; d.add(tot))
  ALGO(75, "thread specific", p::ThreadSpecific<I> ts([](size_t) { return I(0); }); p::parallel_for(0, n, [&](size_t i) { jitter((u64)c.k[i]); *ts += c.k[i]; }); I tot = 0; ts.for_each([&](I& x) { tot += x; }); d.add(tot))
  ALGO(76, "allocators", std::atomic<I> h{0}; p::parallel_for(0, std::min<size_t>(n, 4000), [&](size_t i) { size_t z = (size_t)c.k[i] % 3000 + 1; char* b = (char*)p::p_malloc(z); memset(b, (int)(i & 127), z); jitter(i); I t = 0; for (size_t j = 0; j < z; j += 17) t += b[j]; h += t; p::p_free(b); using TA = p::type_allocator<T>; T* q = TA::create(El<T>::make(c.k[i], (I)i)); h += El<T>::key(*q); TA::destroy(q); }, 1); d.add(h))
  ALGO(77, "stack", INTERNAL_ONLY(p::internal::hazptr_stack<I> st; I sum = 0; p::parallel_for(0, n, [&](size_t i) { st.push(c.k[i]); }); d.add((I)st.size()); std::atomic<I> h{0}; p::parallel_for(0, n / 2, [&](size_t) { auto x = st.pop(); if (!x) soft_fail("stack lost an element"); else h += *x; }); while (auto x = st.pop()) sum += *x; d.add(h + sum); d.add(st.empty())))
  ALGO(78, "search long pattern", auto s = in(); auto q = in2(); d.add(p::search(s, q, eq) - s.begin()); d.add(p::find_end(s, q, eq) - s.begin()); d.add(p::search(q, s, eq) - q.begin()); d.add(p::find_end(q, s, eq) - q.begin()); d.add(p::find_first_of(s, q, [&](const T& a, const T& b) { return El<T>::key(a) == El<T>::key(b) + 7; }) - s.begin()); d.add(p::lexicographical_compare(q, s, lt)); d.add(p::equal(s, s, eq)); keep(s, c.k); keep(q, c.k2))
  ALGO(79, "quicksort merge_sort bucket_sort", auto s = in(); lin::quicksort(p::make_slice(s), lt); Vec ks; for (auto& x : s) ks.push_back(El<T>::key(x) / c.coarse); d.nums(ks); auto t = in(); d.seq<T>(lin::merge_sort(p::make_slice(t), lt)); keep(t, c.k); lin::bucket_sort(p::make_slice(t), lt, true); d.seq<T>(t); if (n) d.add((I)lin::binary_search(p::make_slice(t), t[c.sd % n], lt)))
  ALGO(80, "to_sequence of ranges", auto s = in(); std::vector<T> v(s.begin(), s.end()); auto r = p::to_sequence(v); d.seq<T>(r); p::sequence<T> w(v.begin(), v.end()); d.seq<T>(w); auto e = p::to_sequence(p::delayed_map(s, [](const T& x) -> const T& { return x; })); d.seq<T>(e); d.add(p::equal(r, w, eq)); d.add(El<T>::key(s.empty() ? El<T>::make(1, 1) : s[n / 2])); auto sh = p::short_sequence<char>(n % 40, 'x'); d.nums(sh); auto s2 = sh; s2.append(sh); d.nums(s2))
  ALGO(81, "histogram few and many", auto s = p::tabulate(n, [&](size_t i) { return (unsigned char)c.k[i]; }); d.nums(p::histogram_by_index(s, 256)); u64 f = c.m < 10000 ? 20 : 1; auto w = p::tabulate(n, [&](size_t i) { return (u64)c.k[i] * f; }); auto hw = p::histogram_by_index(w, (u64)c.m * f); u64 hh = 7; for (auto x : hw) hh = mix(hh ^ (u64)x); d.add((I)hh); d.nums(p::remove_duplicate_integers(w, (u64)c.m * f)))
  ALGO(82, "delayed nested", auto s = in(); auto v = pd::map(p::iota(std::min<size_t>(n, 300)), [&](size_t i) { return pd::map(p::iota(i % 37), [i, &c](size_t j) { return (I)(i * j) + c.k[i]; }); }); d.nums(pd::to_sequence(pd::flatten(std::move(v)))); auto z = pd::zip(s, p::delayed_tabulate(n, [](size_t i) { return i + 1; }), p::delayed_tabulate(n, [](size_t i) { return i; })); d.add((I)pd::reduce(pd::map(z, [](auto&& t) { return (I)std::get<1>(t) * El<T>::key(std::get<0>(t)); }))); keep(s, c.k))
  ALGO(83, "format nested", auto xs = p::tabulate(std::min<size_t>(n, 60), [&](size_t i) { return p::tabulate((size_t)c.k[i] % 5, [&](size_t j) { return std::make_pair((int)j, c.fl[i] != 0); }); }); d.nums(p::to_chars(xs)); d.nums(p::to_chars(std::array<int, 3>{{1, 2, (int)n}})); d.nums(p::to_chars(std::string("ab\0c", 4))); d.nums(p::to_chars(1e100)))
  ALGO(84, "sequence comparison", auto x = p::tabulate(n, [&](size_t i) { return c.k[i]; }); auto y = x; size_t at = n ? c.sd % n : 0; for (size_t i = at; i < n; i += 1 + c.sd % 7) if (c.fl[i]) y[i]++; d.add(x == y); d.add(x != y); d.add(x < y); d.add(y < x); auto sx = p::sequence<T>::from_function(n, [&](size_t i) { return El<T>::make(x[i], (I)i); }); d.add(p::equal(x, y)); d.add(p::lexicographical_compare(x, y)); d.add(p::mismatch(x, y).first - x.begin()); auto cs = p::tabulate(n, [&](size_t i) { return (char)x[i]; }); auto cy = p::tabulate(n, [&](size_t i) { return (char)y[i]; }); d.add(cs == cy); d.add(cs < cy); d.add((I)(std::hash<p::sequence<char>>()(cs) == std::hash<p::sequence<char>>()(cy)) & (I)(cs == cy)); keep(sx, c.k))
  ALGO(85, "files", auto s = p::tabulate(n, [&](size_t i) { return (char)(c.k[i] + (I)i); }); static std::atomic<int> nr{0}; std::string f = pbt::tmp_dir() + "/cat" + std::to_string(getpid()) + "_" + std::to_string(Part) + "_" + std::to_string((size_t)&nr % 999983) + "_" + std::to_string(nr++); p::chars_to_file(s, f); d.nums(p::chars_from_file(f)); d.nums(p::chars_from_file(f, false, n / 3, n)); p::file_map m(f); d.add((I)m.size()); d.add((I)p::count(m, 'a')); d.nums(p::filter(m, [](char x) { return x > 50; })); m.close(); std::ostringstream o; o << s; d.add(o.str() == std::string(s.begin(), s.end())); unlink(f.c_str()))
  ALGO(86, "words", auto text = p::tabulate(n, [&](size_t i) { return (char)(c.fl[i] ? ' ' : 'a' + c.k[i] % 3); }); auto w = p::tokens(text); auto h = p::histogram_by_key(w); auto hs2 = p::sort(p::map(h, [](auto const& x) { return std::make_pair(x.first, (I)x.second); })); d.add((I)hs2.size()); for (auto& x : hs2) { d.nums(x.first); d.add(x.second); } auto u = p::remove_duplicates_ordered(w); d.add((I)u.size()); for (auto& x : u) d.nums(x); auto ix = p::group_by_key(p::tabulate(w.size(), [&](size_t i) { return std::make_pair(w[i], i); })); auto so = p::sort(ix); for (auto& x : so) { d.nums(x.first); d.nums(x.second); } auto ws = p::sort(w); for (auto& x : ws) d.nums(x))
  ALGO(87, "sequence edits", auto s = in(); auto q = in2(); auto at = [&] { return s.begin() + (I)(s.size() ? c.sd % (s.size() + 1) : 0); }; s.insert(at(), El<T>::make(5, 6)); s.insert(at(), 3 + c.sd % 5, El<T>::make(7, 8)); s.insert(at(), q.begin(), q.end()); s.erase(s.begin()); auto t = p::to_sequence(s.subseq(s.size() / 3, s.size() / 2)); d.seq<T>(t); d.seq<T>(s.head(s.size() / 4)); d.seq<T>(s.tail(s.size() / 4)); d.seq<T>(s); swap(s, t); d.seq<T>(s); s.emplace_back(El<T>::make(2, 1)); s.append(5, El<T>::make(3, 3)); if (s.size() > 3) s.pop_back(); auto v = std::move(s); s = t; s.append(std::move(v)); d.seq<T>(s); s.reserve(s.size() * 2 + 1); d.seq<T>(s); std::vector<T> vec(t.begin(), t.end()); s.assign(vec.begin(), vec.end()); s.append(vec.begin(), vec.end()); d.seq<T>(s))
  ALGO(88, "delayed long pipelines", auto s = in(); auto v = pd::scan_inclusive(pd::map(pd::filter(pd::flatten(pd::map(p::iota(std::min<size_t>(n, 2500)), [&](size_t i) { return pd::map(p::iota((size_t)c.k[i] % 9), [i](size_t j) { return (I)(i * 7 + j); }); })), [](I x) { return x % 3 != 1; }), [](I x) { return x % 1000; }), p::plus<I>()); d.nums(pd::to_sequence(v)); auto e = pd::enumerate(pd::filter(s, ev)); d.add((I)pd::reduce(pd::map(e, [](auto&& t) { return (I)(std::get<0>(t) * (u64)El<T>::key(std::get<1>(t))); }))); auto z = pd::zip(pd::scan(p::delayed_tabulate(n, [&](size_t i) { return c.k[i]; }), p::plus<I>()).first, s); d.nums(pd::to_sequence(pd::map(pd::keys_view(z), [](I x) { return x + 1; }))); auto fo = pd::map_maybe(z, [](auto&& t) -> std::optional<I> { if (std::get<0>(t) % 2) return std::get<0>(t); return std::nullopt; }); d.nums(pd::to_sequence(fo)); d.add(pd::reduce(fo, p::maximum<I>())); auto [sc, tt] = pd::scan(pd::filter(p::delayed_tabulate(n, [&](size_t i) { return c.k[i]; }), [](I x) { return x % 2 == 0; }), p::plus<I>()); d.add(tt); d.nums(pd::to_sequence(sc)); keep(s, c.k))
  ALGO(89, "random draws", p::random_generator gen(c.sd); std::uniform_int_distribution<int> di(0, 99); std::uniform_real_distribution<double> dr(-1, 1); std::normal_distribution<double> dn; auto r = p::tabulate(n, [&](size_t i) { auto q = gen[i]; auto a = di; auto b = dr; auto e = dn; return (double)a(q) + b(q) + e(q); }); d.dbls(r); auto pm = p::random_permutation(n, p::random(c.sd)); d.nums(pm); auto sh = p::random_shuffle(pm, p::random(c.sd + 1)); d.nums(p::sort(sh)); p::random rr(c.sd); auto f = rr.fork(7); auto nx = rr.next(); d.nums(p::tabulate(n / 3, [&](size_t i) { return (I)(f.ith_rand(i) ^ nx.ith_rand(i) ^ f[i]); })))
  soft_fail("no such algorithm"); return "?";
}
}
#endif
