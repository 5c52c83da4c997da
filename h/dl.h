// Delayed pipelines with their eager models. A pipeline is a maker mk(w) (w = 0,1: which of two data sets) that returns
// a view by value, and a model m(w).
#include "pbt.h"
#include "types.h"
#include <list>
#include <optional>
#include <parlay/delayed.h>
namespace dl {
using namespace pbt; namespace d = parlay::delayed;
using I = int64_t; using Vec = std::vector<I>; using Nest = parlay::sequence<parlay::sequence<I>>;
// functors own heap memory, so that a use after their destruction is seen
struct Own { std::vector<u64> v; Own(u64 x = 0) : v(1, x) {} u64 get() const { return v[0]; } };
struct Fn { Own s; I operator()(I x) const { return (I)(mix((u64)x ^ s.get()) % 2001) - 1000; } };
struct Pred { Own s; unsigned mode; bool operator()(I x) const { switch (mode) { case 0: return mix((u64)x + s.get()) & 1; case 1: return true; case 2: return false; case 3: return mix((u64)x + s.get()) % 50 == 0; default: return mix((u64)x + s.get()) % 50 != 0; } } };
struct Maybe { Pred p; Fn f; std::optional<I> operator()(I x) const { return p(x) ? std::make_optional(f(x)) : std::nullopt; } };
struct Inner { Own s; unsigned mode; size_t len(I x) const { u64 r = mix((u64)x * 31 + s.get()); switch (mode) { case 0: return r % 4; case 1: return r % 100 == 0 ? 2500 + r % 3000 : 0; case 2: return 1; case 3: return r % 700 == 0 ? 10000 : r % 3; default: return r % 60; } }
  parlay::sequence<I> operator()(I x) const { return parlay::sequence<I>::from_function(len(x), [&](size_t i) { return x * 7 + (I)i; }); }
  Vec vec(I x) const { Vec v(len(x)); for (size_t i = 0; i < v.size(); i++) v[i] = x * 7 + (I)i; return v; } };
struct Data { size_t n; Vec a, b; parlay::sequence<I> s; Nest nest; std::vector<std::list<I>> lists; Vec flat, lflat; Fn f, f2; Pred p, p2; Maybe mb; Inner in; };
inline void fill(Gen& g, Data& x, size_t maxn) {
  x.n = g.len(maxn, {2000, 2000, 4000, 6000}); auto seed = g.seed(); x.a.resize(x.n); for (size_t i = 0; i < x.n; i++) x.a[i] = (I)(mix(seed + i) % 5000); x.b = x.a; for (auto& y : x.b) y = y * 3 + 1;
  x.f = {g.seed()}; x.f2 = {g.seed()}; x.p = {g.seed(), (unsigned)g.weighted({5, 2, 1, 3, 3})}; x.p2 = {g.seed(), (unsigned)g.weighted({5, 2, 1, 2, 2})}; x.mb = {{g.seed(), (unsigned)g.weighted({5, 2, 1, 3, 3})}, x.f2}; x.in = {g.seed(), (unsigned)g.below(5)};
  x.s = parlay::sequence<I>(x.a.begin(), x.a.end()); size_t outer = std::min<size_t>(x.n, x.in.mode == 4 ? 500 : x.in.mode == 1 || x.in.mode == 3 ? 3000 : 9000);
  x.nest = Nest::from_function(outer, [&](size_t i) { return x.in(x.a[i]); }); for (auto& v : x.nest) x.flat.insert(x.flat.end(), v.begin(), v.end());
  x.lists.resize(std::min<size_t>(outer, 300)); for (size_t i = 0; i < x.lists.size(); i++) { auto v = x.in.vec(x.a[i]); if (v.size() > 3000) v.resize(3000); x.lists[i].assign(v.begin(), v.end()); x.lflat.insert(x.lflat.end(), v.begin(), v.end()); }
}
inline std::string describe(const Data& x) { std::ostringstream o; o << "n=" << x.n << " pred " << x.p.mode << x.p2.mode << x.mb.p.mode << " inner " << x.in.mode << " flat=" << x.flat.size() << " " << show(x.a); return o.str(); }
// eager models
template <typename F> Vec mmap(const Vec& v, F f) { Vec r; for (auto x : v) r.push_back(f(x)); return r; }
template <typename F> Vec mfilter(const Vec& v, F f) { Vec r; for (auto x : v) if (f(x)) r.push_back(x); return r; }
template <typename F> Vec mmaybe(const Vec& v, F f) { Vec r; for (auto x : v) if (auto o = f(x)) r.push_back(*o); return r; }
struct Aff { static constexpr I P = 46337; I x; };                       // a non-commutative associative operation on encoded affine maps
inline I aff(I p, I q) { u64 a = (u64)p & 0xffff, b = ((u64)p >> 16) & 0xffff, c = (u64)q & 0xffff, e = ((u64)q >> 16) & 0xffff; constexpr u64 M = 65521; return (I)((a * c % M) | ((b * c + e) % M) << 16); }
inline I enc(I x) { return (I)(((u64)(x % 65521 + 65521) % 65521) | ((u64)(x * 5 + 3) % 65521) << 16); }
constexpr I affid = 1;
struct AffOp { I operator()(I a, I b) const { return aff(a, b); } };
inline Vec mscan(const Vec& v) { Vec r; I a = affid; for (auto x : v) { r.push_back(a); a = aff(a, x); } return r; }
inline Vec mscani(const Vec& v) { Vec r; I a = affid; for (auto x : v) { a = aff(a, x); r.push_back(a); } return r; }
inline I mtotal(const Vec& v) { I a = affid; for (auto x : v) a = aff(a, x); return a; }
inline Vec mzip(const Vec& a, const Vec& b) { Vec r; for (size_t i = 0; i < std::min(a.size(), b.size()); i++) r.push_back(a[i] * 1000003 + b[i]); return r; }
inline Vec menum(const Vec& a) { Vec r; for (size_t i = 0; i < a.size(); i++) r.push_back((I)i * 1000003 + a[i]); return r; }
template <typename F> Vec mflat(const Vec& v, F in) { Vec r; for (auto x : v) { auto y = in.vec(x); r.insert(r.end(), y.begin(), y.end()); } return r; }
struct Comb { I operator()(I a, I b) const { return a * 1000003 + b; } };
struct CombT { template <typename T> I operator()(T&& t) const { return (I)std::get<0>(t) * 1000003 + (I)std::get<1>(t); } };
struct Enc { I operator()(I x) const { return enc(x); } };
inline auto tab(const Data& x) { return d::tabulate(x.n, [p = x.a.data()](size_t i) { return p[i]; }); }
inline auto tabb(const Data& x) { return d::tabulate(x.n, [p = x.b.data()](size_t i) { return p[i]; }); }
inline auto tabenc(const Data& x) { return d::tabulate(x.n, [p = x.a.data()](size_t i) { return enc(p[i]); }); }
inline size_t lim(const Data& x) { return x.nest.size(); }
inline auto tabl(const Data& x) { return d::tabulate(lim(x), [p = x.a.data()](size_t i) { return p[i]; }); }
inline Vec al(const Data& x) { return Vec(x.a.begin(), x.a.begin() + (long)lim(x)); }

#define PIPE(K, NAME, MAKE, ...) if constexpr ((K) % NPARTS == Part) { if (which == (K)) { t(NAME, [&](int w) { Data& x = *xs[w]; (void)x; return MAKE; }, [&](int w) { Data& x = *xs[w]; (void)x; return Vec(__VA_ARGS__); }); return; } }
constexpr int NPIPES = 40, NPARTS = 8;
// xs: two data sets
template <int Part, typename T> void pipes(int which, Data** xs, T&& t) {
  PIPE(0, "filter(tab)", d::filter(tab(x), x.p), mfilter(x.a, x.p))
  PIPE(1, "map(seq&)", d::map(x.s, x.f), mmap(x.a, x.f))
  PIPE(2, "filter(seq&)", d::filter(x.s, x.p), mfilter(x.a, x.p))
  PIPE(3, "map(filter(tab))", d::map(d::filter(tab(x), x.p), x.f), mmap(mfilter(x.a, x.p), x.f))
  PIPE(4, "scan(tab)", d::scan(tabenc(x), AffOp{}, affid).first, mscan(mmap(x.a, Enc{})))
  PIPE(5, "scan_inclusive(tab)", d::scan_inclusive(tabenc(x), AffOp{}, affid), mscani(mmap(x.a, Enc{})))
  PIPE(6, "scan(map(filter(tab)))", d::scan(d::map(d::filter(tab(x), x.p), Enc{}), AffOp{}, affid).first, mscan(mmap(mfilter(x.a, x.p), Enc{})))
  PIPE(7, "scan_inclusive(filter(seq&))", d::scan_inclusive(d::filter(x.s, x.p), parlay::plus<I>()), [&] { Vec v = mfilter(x.a, x.p), r; I s = 0; for (auto y : v) r.push_back(s += y); return r; }())
  PIPE(8, "map_maybe(seq&)", d::map_maybe(x.s, x.mb), mmaybe(x.a, x.mb))
  PIPE(9, "filter(map_maybe(tab))", d::filter(d::map_maybe(tab(x), x.mb), x.p), mfilter(mmaybe(x.a, x.mb), x.p))
  PIPE(10, "filter(scan(tab))", d::filter(d::scan(tabenc(x), AffOp{}, affid).first, x.p), mfilter(mscan(mmap(x.a, Enc{})), x.p))
  PIPE(11, "map_maybe(scan_inclusive(tab))", d::map_maybe(d::scan_inclusive(tabenc(x), AffOp{}, affid), x.mb), mmaybe(mscani(mmap(x.a, Enc{})), x.mb))
  PIPE(12, "zip_with(seq&,tab)", d::zip_with(Comb{}, x.s, tabb(x)), mzip(x.a, x.b))
  PIPE(13, "zip_with(filter(seq&),tab)", d::zip_with(Comb{}, d::filter(x.s, x.p), tabb(x)), mzip(mfilter(x.a, x.p), x.b))
  PIPE(14, "map(zip(scan(tab),map_maybe(seq&)))", d::map(d::zip(d::scan(tabenc(x), AffOp{}, affid).first, d::map_maybe(x.s, x.mb)), CombT{}), mzip(mscan(mmap(x.a, Enc{})), mmaybe(x.a, x.mb)))
  PIPE(15, "map(enumerate(filter(tab)))", d::map(d::enumerate(d::filter(tab(x), x.p)), CombT{}), menum(mfilter(x.a, x.p)))
  PIPE(16, "flatten(nest&)", d::flatten(x.nest), x.flat)
  PIPE(17, "flatten(tab of sequences)", d::flatten(d::tabulate(lim(x), [p = x.a.data(), in = x.in](size_t i) { return in(p[i]); })), x.flat)
  PIPE(18, "flatten(map to references)", d::flatten(d::map(x.nest, [](auto& v) -> parlay::sequence<I>& { return v; })), x.flat)
  PIPE(19, "flatten(filter(nest&))", d::flatten(d::filter(x.nest, [](auto const& v) { return v.size() != 1; })), [&] { Vec r; for (auto& v : x.nest) if (v.size() != 1) r.insert(r.end(), v.begin(), v.end()); return r; }())
  PIPE(20, "flatten(map_maybe to sequences)", d::flatten(d::map_maybe(tabl(x), [in = x.in, p = x.p](I y) { return p(y) ? std::make_optional(in(y)) : std::nullopt; })), mflat(mfilter(al(x), x.p), x.in))
  PIPE(21, "filter(flatten(nest&))", d::filter(d::flatten(x.nest), x.p), mfilter(x.flat, x.p))
  PIPE(22, "map(flatten(nest&&))", d::map(d::flatten(Nest(x.nest)), x.f), mmap(x.flat, x.f))
  PIPE(23, "flatten(map(filter(tab)) to sequences)", d::flatten(d::map(d::filter(tabl(x), x.p), x.in)), mflat(mfilter(al(x), x.p), x.in))
  PIPE(24, "filter(filter(filter(seq&)))", d::filter(d::filter(d::filter(x.s, x.p), x.p2), [](I y) { return y % 7 != 0; }), mfilter(mfilter(mfilter(x.a, x.p), x.p2), [](I y) { return y % 7 != 0; }))
  PIPE(25, "scan(scan(tab))", d::scan(d::scan(tab(x)).first).first, [&] { Vec r; I s = 0, t = 0; for (auto y : x.a) { r.push_back(t); t += s; s += y; } return r; }())
  PIPE(26, "zip_with(filter(seq&),flatten(nest&),tab)", d::zip_with([](I a, I b, I c) { return a * 1000003 + b * 1009 + c; }, d::filter(x.s, x.p), d::flatten(x.nest), tabb(x)), [&] { Vec f = mfilter(x.a, x.p), r; for (size_t i = 0; i < std::min({f.size(), x.flat.size(), x.n}); i++) r.push_back(f[i] * 1000003 + x.flat[i] * 1009 + x.b[i]); return r; }())
  PIPE(27, "flatten(vector of lists&)", d::flatten(x.lists), x.lflat)
  PIPE(28, "map(map(map(seq&&)))", d::map(d::map(d::map(parlay::sequence<I>(x.s), x.f), x.f2), x.f), mmap(mmap(mmap(x.a, x.f), x.f2), x.f))
  PIPE(29, "values_view(zip(iota,filter(seq&)))", d::values_view(d::zip(d::iota((long)x.n), d::filter(x.s, x.p))), mfilter(x.a, x.p))
  PIPE(30, "scan_inclusive(map_maybe(filter(tab)))", d::scan_inclusive(d::map_maybe(d::filter(tab(x), x.p), x.mb), parlay::maximum<I>()), [&] { Vec v = mmaybe(mfilter(x.a, x.p), x.mb), r; I s = std::numeric_limits<I>::lowest(); for (auto y : v) r.push_back(s = std::max(s, y)); return r; }())
  PIPE(31, "filter(zip_with(seq&,tab))", d::filter(d::zip_with(Comb{}, x.s, tabb(x)), x.p), mfilter(mzip(x.a, x.b), x.p))
  PIPE(32, "scan(flatten(tab of sequences))", d::scan(d::flatten(d::tabulate(lim(x), [p = x.a.data(), in = x.in](size_t i) { return in(p[i]); }))).first, [&] { Vec r; I s = 0; for (auto y : x.flat) { r.push_back(s); s += y; } return r; }())
  PIPE(33, "filter(seq&&)", d::filter(parlay::sequence<I>(x.s), x.p), mfilter(x.a, x.p))
  PIPE(34, "map_maybe(flatten(nest&))", d::map_maybe(d::flatten(x.nest), x.mb), mmaybe(x.flat, x.mb))
  PIPE(35, "zip(tab,tab) keys", d::keys_view(d::zip(tab(x), d::iota((int)x.n))), x.a)
  PIPE(36, "filter(array&&)", ([&] { std::array<I, 40> ar; for (size_t i = 0; i < 40; i++) ar[i] = x.n ? x.a[i % x.n] : 5; return d::filter(std::move(ar), x.p); }()), ([&] { Vec v; for (size_t i = 0; i < 40; i++) v.push_back(x.n ? x.a[i % x.n] : 5); return mfilter(v, x.p); }()))
  PIPE(37, "flatten(filter(flatten(nest of nest)))", d::flatten(d::filter(d::map(x.nest, [](auto& v) -> parlay::sequence<I>& { return v; }), [](auto const& v) { return v.size() % 2 == 0; })), [&] { Vec r; for (auto& v : x.nest) if (v.size() % 2 == 0) r.insert(r.end(), v.begin(), v.end()); return r; }())
  PIPE(38, "enumerate(enumerate(seq&))", d::map(d::enumerate(d::map(d::enumerate(x.s), CombT{})), CombT{}), menum(menum(x.a)))
  PIPE(39, "scan_inclusive(scan_inclusive(filter(tab)))", d::scan_inclusive(d::scan_inclusive(d::filter(tab(x), x.p))), [&] { Vec v = mfilter(x.a, x.p), r; I s = 0, t = 0; for (auto y : v) { s += y; t += s; r.push_back(t); } return r; }())
}
template <typename V> Vec walk(V&& v) { Vec r; for (auto it = std::begin(v), e = std::end(v); it != e; ++it) r.push_back((I)*it); return r; }
inline std::string diff(const Vec& got, const Vec& want) { std::ostringstream o; o << "got " << got.size() << " elements, expected " << want.size(); for (size_t i = 0; i < std::min(got.size(), want.size()); i++) if (got[i] != want[i]) { o << "; element " << i << ": got " << got[i] << ", expected " << want[i]; break; } return o.str(); }
template <typename S> Vec vec(const S& s) { return Vec(s.begin(), s.end()); }
#define SAME(GOT, WANT, ...) do { auto g_ = GOT; CHECK(g_ == WANT, name, ##__VA_ARGS__, diff(g_, WANT)); } while (0)
}
