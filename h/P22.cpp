#include "dl.h"
#include <memory>
#include <thread>
using namespace dl;
namespace {
template <typename V> constexpr bool const_range = parlay::is_range_v<const V>;
template <typename V> Vec twice(const V& v) { Vec r; auto e = v.end(); for (auto it = v.begin(); it != e; ++it) { auto c = it; auto d2 = it; r.push_back((I)*c); ++c; CHECK(!(c == d2), "an advanced copy equals the iterator"); CHECK(d2 == it); if ((I)*it != r.back()) throw Fail{"second read through an iterator differs"}; } return r; }
template <typename V> void blocks(V& v, const Vec& want, const char* name) {        // the blocks partition the view
#ifndef VERIF_NO_INTERNAL
  namespace id = parlay::internal::delayed; size_t nb = id::num_blocks(v), k = 0;
  for (size_t i = 0; i < nb; i++) { auto it = id::begin_block(v, i), e = id::end_block(v, i); for (; it != e; ++it, ++k) CHECK(k < want.size() && (I)*it == want[k], name, "block", i, "element", k); }
  CHECK(k == want.size(), name);
#endif
}
template <typename V> void arith(const V& v, const Vec& want, Gen& g, const char* name) {    // random access arithmetic
  using D = std::ptrdiff_t; auto b = v.begin(), e = v.end(); D n = (D)want.size(); CHECK(e - b == n, name, "end - begin", e - b);
  for (int r = 0; r < 12 && n > 0; r++) { D i = (D)g.below((u64)n), j = (D)g.below((u64)n + 1); auto x = b + i, y = b + j; CHECK((I)*x == want[(size_t)i] && (I)b[i] == want[(size_t)i], name, "position", i);
    CHECK((y - x) == j - i && (x + (j - i)) == y && (y - (j - i)) == x, name, i, j); CHECK((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), name, "comparison", i, j);
    auto z = x; z += j - i; CHECK(z == y, name); z -= j - i; CHECK(z == x, name); auto w = z++; CHECK(w == x && z == b + (i + 1), name); w = z--; CHECK(z == x && w == b + (i + 1), name); ++z; --z; CHECK(z == x && (I)*z == want[(size_t)i], name); if (i > 0) CHECK((I)x[-1] == want[(size_t)i - 1] && (I)*(x - 1) == want[(size_t)i - 1], name); using std::swap; auto p = x, q = y; swap(p, q); CHECK(p == y && q == x); }
}
template <typename V> void verify(V& v, const Vec& want, Gen& g, const char* name) {
  CHECK(parlay::size(v) == want.size(), name, "size", parlay::size(v), want.size());
  switch (g.below(8)) {
    case 0: case 1: SAME(walk(v), want, "iterating"); break;
    case 2: SAME(vec(d::to_sequence(v)), want, "to_sequence"); break;
    case 3: if constexpr (const_range<V>) SAME(walk(std::as_const(v)), want, "const iterating"); break;
    case 4: if constexpr (const_range<V>) SAME(twice(std::as_const(v)), want); break;
    case 5: if constexpr (!std::is_same_v<decltype(std::begin(v)), void>) blocks(v, want, name); break;
    case 6: if constexpr (const_range<V>) { const V& c = v; Vec r1, r2, r3; parlay::par_do([&] { r1 = walk(c); }, [&] { parlay::par_do([&] { r2 = walk(c); }, [&] { r3 = vec(d::to_sequence(c)); }); }); SAME(r1, want, "concurrent traversal"); SAME(r2, want, "concurrent traversal"); SAME(r3, want, "concurrent traversal"); } break;
    case 7: if constexpr (parlay::is_random_access_range_v<const V>) arith(std::as_const(v), want, g, name); break;
  }
}
// a view is returned through two frames, to expose references into the maker's frame
template <typename M> __attribute__((noinline)) auto made(M& mk, int w) { auto v = mk(w); return v; }
__attribute__((noinline)) void clobber() { volatile char junk[4096]; for (size_t i = 0; i < sizeof junk; i++) junk[i] = (char)0xA5; }
template <int Part> void view_case(Gen& g) {
  int which = Part + NPARTS * (int)g.below(NPIPES / NPARTS); Data x, y; size_t mx = g.thorough ? 9000 : 5000; fill(g, x, mx); fill(g, y, mx); Data* xs[2] = {&x, &y};
  pipes<Part>(which, xs, [&](const char* name, auto mk, auto model) {
    using V = decltype(mk(0)); Vec want[2] = {model(0), model(1)}; g.label(name); g.mark(!want[0].empty() && !want[1].empty()); size_t ops = 2 + g.below(14);
    g.desc << "views " << name << " | data 0: " << describe(x) << " | data 1: " << describe(y) << " | ops:"; g.ready();
    struct Slot { std::unique_ptr<V> v; int w; }; Slot s[3] = {{nullptr, 0}, {nullptr, 0}, {nullptr, 0}}; s[0] = {std::unique_ptr<V>(new V(made(mk, 0))), 0}; clobber();
    auto is = [&](size_t i) { return s[i].v && s[i].w >= 0; };         // w < 0: moved from
    for (size_t k = 0; k < ops; k++) {
      size_t a = g.below(3), b = g.below(3); unsigned op = (unsigned)g.weighted({3, 4, 4, 4, 4, 2, 3, 3}); g.desc << ' ' << "nCMcmxds"[op] << a << b; g.ready();
      switch (op) {
        case 0: { int w = (int)g.below(2); s[a] = {std::unique_ptr<V>(new V(made(mk, w))), w}; break; }
        case 1: if (is(b) && a != b) { s[a].v.reset(new V(*s[b].v)); s[a].w = s[b].w; } break;
        case 2: if (is(b) && a != b) { s[a].v.reset(new V(std::move(*s[b].v))); s[a].w = s[b].w; if (g.coin()) s[b].v.reset(); else s[b].w = -1; } break;
        case 3: if constexpr (std::is_copy_assignable_v<V>) { if (is(b) && s[a].v && a != b) { *s[a].v = *s[b].v; s[a].w = s[b].w; } } break;
        case 4: if constexpr (std::is_move_assignable_v<V>) { if (is(b) && s[a].v && a != b) { *s[a].v = std::move(*s[b].v); s[a].w = s[b].w; if (g.coin()) s[b].v.reset(); else s[b].w = -1; } } break;
        case 5: if constexpr (std::is_copy_assignable_v<V>) { if (is(a)) { V& self = *s[a].v; *s[a].v = self; } } break;
        case 6: s[a].v.reset(); break;
        case 7: if constexpr (std::is_move_assignable_v<V>) { if (is(a) && is(b) && a != b) { using std::swap; swap(*s[a].v, *s[b].v); std::swap(s[a].w, s[b].w); } } break;
      }
      clobber(); for (size_t i = 0; i < 3; i++) if (is(i) && (i == a || g.chance(25))) verify(*s[i].v, want[s[i].w], g, name);
    }
    for (size_t i = 0; i < 3; i++) if (is(i)) verify(*s[i].v, want[s[i].w], g, name);
  });
  for (Data* q : xs) { for (size_t i = 0; i < q->n; i++) CHECK(q->s[i] == q->a[i], "an input sequence changed at", i); size_t k = 0; for (auto& v : q->nest) for (auto z : v) { CHECK(z == q->flat[k], "a nested input changed"); k++; } CHECK(k == q->flat.size()); k = 0; for (auto& l : q->lists) for (auto z : l) { CHECK(z == q->lflat[k], "a list changed"); k++; } CHECK(k == q->lflat.size()); }
}
}
#define P_(K) PBT_SUB(views##K, 1000, 10000, 30, F_NONE) { view_case<K>(g); }
#if PART == 0
P_(0)
#elif PART == 1
P_(1)
#elif PART == 2
P_(2)
#elif PART == 3
P_(3)
#elif PART == 4
P_(4)
#elif PART == 5
P_(5)
#elif PART == 6
P_(6)
#elif PART == 7
P_(7)
#else
// the eager-looking front ends in delayed_sequence.h: delayed_tabulate, delayed_map, iota, and views of views
namespace { template <typename V> void ds(Gen& g, V v, Vec want, const char* name, bool ra = true) { (void)ra; g.label(name); g.mark(want.size() > 1); g.desc << name << " n=" << want.size(); g.ready(); std::optional<V> a(std::move(v)), b; for (int k = 0; k < 6; k++) { switch (g.below(5)) { case 0: b.emplace(*a); break; case 1: if (!b) b.emplace(*a); *a = *b; break; case 2: { b.emplace(std::move(*a)); a.emplace(*b); b.reset(); break; } case 3: { V& self = *a; *a = self; break; } case 4: { V t(*a); a.reset(); clobber(); a.emplace(std::move(t)); break; } } verify(*a, want, g, name); arith(std::as_const(*a), want, g, name); if (b) verify(*b, want, g, name); }
  auto r = [&] { Vec z; for (size_t i = 0; i < want.size(); i++) z.push_back((I)(*a)[i]); return z; }(); SAME(r, want, "operator[]"); } }
PBT_SUB(sequences, 2000, 20000, 30, F_NONE) {
  size_t n = g.len(6000, {2000, 2000}); u64 sd = g.seed(); Own o(sd); Fn f{g.seed()}; Vec t(n); for (size_t i = 0; i < n; i++) t[i] = (I)(mix(sd + i) % 10000); parlay::sequence<I> s(t.begin(), t.end());
  auto fn = [o](size_t i) { return (I)(mix(o.get() + i) % 10000); };
  switch (g.below(6)) {
    case 0: ds(g, parlay::delayed_tabulate(n, fn), t, "delayed_tabulate"); break;
    case 1: ds(g, parlay::delayed_map(s, f), mmap(t, f), "delayed_map(lvalue)"); break;
    case 2: ds(g, parlay::delayed_map(parlay::sequence<I>(s), f), mmap(t, f), "delayed_map(rvalue)"); break;
    case 3: ds(g, parlay::delayed_map(parlay::delayed_map(parlay::delayed_tabulate(n, fn), f), f), mmap(mmap(t, f), f), "delayed_map(delayed_map(delayed_tabulate))"); break;
    case 4: { Vec w; for (size_t i = 0; i < n; i++) w.push_back((I)i); ds(g, d::iota((I)n), w, "iota"); break; }
    case 5: ds(g, parlay::delayed_map(parlay::make_slice(s), [f](I v) { return f(v); }), mmap(t, f), "delayed_map(slice, lambda)"); break;
  }
}
#endif
