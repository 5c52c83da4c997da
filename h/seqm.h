// Model-based histories of parlay::sequence against a std::vector of keys.
#include "pbt.h"
#include "types.h"
#include <list>
#include <map>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <parlay/sequence.h>
#include <parlay/io.h>
namespace sm {
using namespace pbt; using I = int64_t; using Vec = std::vector<I>;
// stateless allocators that check every deallocation; the second one also has construct and destroy
struct Heap { static inline std::mutex m; static inline std::map<void*, size_t> live; static inline std::atomic<long> constructed{0};
  static void* get(size_t n, size_t al) { void* p = ::operator new(n ? n : 1, std::align_val_t(al < 16 ? 16 : al)); std::lock_guard<std::mutex> l(m); live[p] = n; return p; }
  static void put(void* p, size_t n, size_t al) { { std::lock_guard<std::mutex> l(m); auto it = live.find(p); if (it == live.end()) { soft_fail("deallocation of memory that is not allocated"); return; } if (it->second != n) soft_fail("deallocation of " + std::to_string(n) + " bytes where " + std::to_string(it->second) + " were allocated"); live.erase(it); } ::operator delete(p, std::align_val_t(al < 16 ? 16 : al)); } };
template <typename T> struct CAlloc { using value_type = T; CAlloc() = default; template <typename U> CAlloc(const CAlloc<U>&) {}
  T* allocate(size_t n) { return (T*)Heap::get(n * sizeof(T), alignof(T)); } void deallocate(T* p, size_t n) { Heap::put(p, n * sizeof(T), alignof(T)); }
  friend bool operator==(const CAlloc&, const CAlloc&) { return true; } friend bool operator!=(const CAlloc&, const CAlloc&) { return false; } };
template <typename T> struct CAllocC { using value_type = T; CAllocC() = default; template <typename U> CAllocC(const CAllocC<U>&) {}
  T* allocate(size_t n) { return (T*)Heap::get(n * sizeof(T), alignof(T)); } void deallocate(T* p, size_t n) { Heap::put(p, n * sizeof(T), alignof(T)); }
  template <typename U, typename... A> void construct(U* p, A&&... a) { if (!std::is_trivially_destructible_v<U>) Heap::constructed++; ::new ((void*)p) U(std::forward<A>(a)...); } template <typename U> void destroy(U* p) { if (!std::is_trivially_destructible_v<U>) Heap::constructed--; p->~U(); }
  friend bool operator==(const CAllocC&, const CAllocC&) { return true; } friend bool operator!=(const CAllocC&, const CAllocC&) { return false; } };
// elements
template <typename T, typename = void> struct E { static T make(I v) { return vt::El<T>::make(v, 0); } static I key(const T& x) { return vt::El<T>::key(x); } };
template <typename T> struct E<T, std::enable_if_t<std::is_integral_v<T>>> { static T make(I v) { return (T)v; } static I key(T x) { return (I)x; } };
template <> struct E<parlay::sequence<int>> { static parlay::sequence<int> make(I v) { return parlay::sequence<int>(1 + (size_t)(v & 3), (int)v); } static I key(const parlay::sequence<int>& x) { if (x.empty()) { soft_fail("moved-from inner sequence read"); return 0; } for (int y : x) if (y != x[0]) soft_fail("inner sequence damaged"); if (x.size() != 1 + (size_t)(x[0] & 3)) soft_fail("inner sequence has another length"); return x[0]; } };
template <> struct E<std::unique_ptr<I>> { static std::unique_ptr<I> make(I v) { return std::make_unique<I>(v); } static I key(const std::unique_ptr<I>& x) { if (!x) { soft_fail("moved-from pointer read"); return 0; } return *x; } };
template <size_t A> struct alignas(A) Al { I v; Al(I x = 0) : v(x) { if ((size_t)this % A) soft_fail("misaligned element"); } Al(const Al& o) : Al(o.v) {} Al& operator=(const Al&) = default; ~Al() {} bool operator==(const Al& o) const { return v == o.v; } bool operator<(const Al& o) const { return v < o.v; } };
template <size_t A> struct E<Al<A>> { static Al<A> make(I v) { return Al<A>(v); } static I key(const Al<A>& x) { return x.v; } };
template <size_t N> struct Huge { I v = 0; char c[N]; Huge(I x = 0) : v(x) { c[0] = c[N - 1] = (char)x; } bool operator==(const Huge& o) const { return v == o.v; } bool operator<(const Huge& o) const { return v < o.v; } };
template <size_t N> struct E<Huge<N>> { static Huge<N> make(I v) { return Huge<N>(v); } static I key(const Huge<N>& x) { if (x.c[0] != (char)x.v || x.c[N - 1] != (char)x.v) soft_fail("large element damaged"); return x.v; } };
template <typename T> struct InIt { using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = T; const I* p; T operator*() const { return E<T>::make(*p); } InIt& operator++() { ++p; return *this; } InIt operator++(int) { auto t = *this; ++p; return t; } bool operator==(const InIt& o) const { return p == o.p; } bool operator!=(const InIt& o) const { return p != o.p; } };
template <typename C, typename = void> struct CanCopy : std::is_copy_constructible<C> {};
template <typename T> struct CanCopy<parlay::sequence<T>> : CanCopy<T> {};

template <typename S> struct Model {
  using T = typename S::value_type; static constexpr bool copy = CanCopy<T>::value, ptr = std::is_same_v<T, std::unique_ptr<I>>, eq = parlay::is_equality_comparable_v<T> && !ptr, lt = parlay::is_less_than_comparable_v<T> && !ptr;
  Gen& g; size_t maxn; std::unique_ptr<S> s[3]; Vec m[3];
  Model(Gen& gen, size_t mx) : g(gen), maxn(mx) { for (auto& x : s) x.reset(new S()); }
  static T mk(I v) { return E<T>::make(v); } static I norm(I v) { return E<T>::key(mk(v)); }
  I val() { return norm(g.range(-1000, 1000)); }
  size_t amount() { return g.weighted({5, 2, 1}) == 0 ? g.below(5) : g.chance(80) ? g.below(40) : g.len(maxn, {1024, 2048, 1025}); }
  Vec vals(size_t n) { u64 sd = g.seed(); Vec v(n); for (size_t i = 0; i < n; i++) v[i] = norm((I)(mix(sd + i) % 2001) - 1000); return v; }
  void check(size_t i, const char* op) {
    S& x = *s[i]; const S& c = x; const Vec& w = m[i];
    CHECK(x.size() == w.size() && c.size() == w.size(), op, "size of slot", i, x.size(), w.size()); CHECK(x.empty() == w.empty(), op); CHECK(x.capacity() >= x.size(), op, "capacity", x.capacity()); CHECK(x.end() - x.begin() == (std::ptrdiff_t)w.size() && c.end() - c.begin() == (std::ptrdiff_t)w.size() && c.cend() - c.cbegin() == (std::ptrdiff_t)w.size(), op); CHECK(w.empty() || x.data() == &*x.begin(), op); CHECK(c.max_size() >= w.size());
    for (size_t k = 0; k < w.size(); k++) { I got = E<T>::key(c.data()[k]); CHECK(got == w[k], op, "slot", i, "element", k, "of", w.size(), "is", got, "expected", w[k]); }
    if (!w.empty()) { CHECK(E<T>::key(x.front()) == w.front() && E<T>::key(c.back()) == w.back() && E<T>::key(*x.rbegin()) == w.back() && E<T>::key(*(c.rend() - 1)) == w.front(), op); size_t k = g.below(w.size()); CHECK(E<T>::key(x[k]) == w[k] && E<T>::key(c.at(k)) == w[k] && E<T>::key(x.at(k)) == w[k] && E<T>::key(c.rbegin()[(std::ptrdiff_t)k]) == w[w.size() - 1 - k], op); }
  }
  template <typename F> void with_range(const Vec& v, F f) {       // f(first, last) of one of several iterator categories
    if constexpr (copy) { switch (g.below(4)) {
      case 0: { std::vector<T> t; t.reserve(v.size()); for (auto y : v) t.push_back(mk(y)); f(t.data(), t.data() + t.size()); break; }
      case 1: { std::list<T> t; for (auto y : v) t.push_back(mk(y)); f(t.begin(), t.end()); break; }
      case 2: { std::deque<T> t; for (auto y : v) t.push_back(mk(y)); f(t.begin(), t.end()); break; }
      case 3: f(InIt<T>{v.data()}, InIt<T>{v.data() + v.size()}); break; } }
    else if (g.coin()) { std::vector<T> t; for (auto y : v) t.push_back(mk(y)); f(std::make_move_iterator(t.begin()), std::make_move_iterator(t.end())); } else f(InIt<T>{v.data()}, InIt<T>{v.data() + v.size()});
  }
  S make(const Vec& v) { S r; r.reserve(v.size()); for (auto y : v) r.push_back(mk(y)); return r; }
  void step() {
    size_t a = g.below(3), b = g.below(3); S& x = *s[a]; Vec& w = m[a]; size_t n = w.size(); using Df = std::ptrdiff_t; const char* op = "?";
    auto named = [&](const char* o) { op = o; g.desc << ' ' << o << '@' << a; g.ready(); };
    auto at_ = [&](size_t k) { return w.begin() + (Df)k; };
    switch (g.weighted({2, 2, 3, 4, 3, 4, 2, 2, 5, 4, 3, 4, 3, 4, 4, 4, 3, 4, 3, 3, 4, 3, 2, 1, 3, 3, 3, 2, 3, 3, 3})) {
      case 0: named("construct empty"); s[a].reset(new S()); w.clear(); break;
      case 1: named("construct n"); if constexpr (std::is_default_constructible_v<T> && !std::is_same_v<T, vt::MoveOnly> && !std::is_same_v<T, std::unique_ptr<I>> && !std::is_same_v<T, std::string> && !std::is_same_v<T, parlay::sequence<int>>) { size_t k = amount(); s[a].reset(new S(k)); w.assign(k, E<T>::key(T())); } break;
      case 2: named("construct n,v"); if constexpr (copy) { size_t k = amount(); I v = val(); s[a].reset(new S(k, mk(v))); w.assign(k, v); } break;
      case 3: { named("construct range"); Vec v = vals(amount()); with_range(v, [&](auto f, auto l) { s[a].reset(new S(f, l)); }); w = v; break; }
      case 4: if constexpr (copy) { I p = val(), q = val(); switch (g.below(3)) { case 0: named("construct list"); s[a].reset(new S{mk(p), mk(q), mk(p)}); break; case 1: named("assign list"); x = {mk(p), mk(q), mk(p)}; break; case 2: named("assign(list)"); x.assign({mk(p), mk(q), mk(p)}); break; } w = {p, q, p}; } break;
      case 5: if constexpr (copy) { if (g.coin()) { named("copy construct"); if (a != b) { s[a].reset(new S(*s[b])); w = m[b]; } } else { named("copy assign"); x = *s[b]; w = m[b]; } } break;
      case 6: if (a != b) { if (g.coin()) { named("move construct"); s[a].reset(new S(std::move(*s[b]))); } else { named("move assign"); x = std::move(*s[b]); } w = std::move(m[b]); m[b].clear(); } break;
      case 7: { named(a == b ? "self swap" : "swap"); if (g.coin()) x.swap(*s[b]); else { using std::swap; swap(x, *s[b]); } std::swap(m[a], m[b]); break; }
      case 8: { I v = val(); bool room = x.capacity() > n; auto d = x.data(); typename S::iterator r; switch (g.below(3)) { case 0: named("push_back&&"); r = x.push_back(mk(v)); break; case 1: named("push_back&"); if constexpr (copy) { T t = mk(v); r = x.push_back(t); } else r = x.push_back(mk(v)); break; default: named("emplace_back"); r = x.emplace_back(mk(v)); break; } w.push_back(v); CHECK(r == x.end() - 1, op, "returned iterator"); CHECK(!room || x.data() == d, op, "reallocated although there was room"); break; }
      case 9: if constexpr (copy) { if (n) { size_t k = g.below(n); I v = w[k]; if (g.coin()) { named("push_back own element"); x.push_back(x[k]); } else { named("emplace_back own element"); x.emplace_back(x[k]); } w.push_back(v); } } break;
      case 10: if constexpr (copy) { size_t k = amount(); if (n && g.coin()) { named("append n own"); size_t j = g.below(n); I v = w[j]; auto it = x.append(k, x[j]); w.insert(w.end(), k, v); CHECK(it - x.begin() == (Df)n, op, "returned iterator"); } else { named("append n,v"); I v = val(); T t = mk(v); auto it = x.append(k, t); w.insert(w.end(), k, v); CHECK(it - x.begin() == (Df)n, op, "returned iterator"); } } break;
      case 11: { named("append range"); Vec v = vals(amount()); with_range(v, [&](auto f, auto l) { auto it = x.append(f, l); CHECK(it - x.begin() == (Df)n, op, "returned iterator"); }); w.insert(w.end(), v.begin(), v.end()); break; }
      case 12: if (a != b) { named("append sequence&&"); auto it = x.append(std::move(*s[b])); CHECK(it - x.begin() == (Df)n, op, "returned iterator"); w.insert(w.end(), m[b].begin(), m[b].end()); m[b].clear(); } break;
      case 13: if constexpr (copy) { if (a != b) { named("append sequence&"); auto it = x.append(*s[b]); CHECK(it - x.begin() == (Df)n, op, "returned iterator"); w.insert(w.end(), m[b].begin(), m[b].end()); } } break;
      case 14: { size_t p = g.below(n + 1); I v = val(); typename S::iterator r; switch (g.below(3)) { case 0: named("insert v&&"); r = x.insert(x.begin() + p, mk(v)); break; case 1: named("insert v&"); if constexpr (copy) { T t = mk(v); r = x.insert(x.begin() + p, t); } else r = x.insert(x.begin() + p, mk(v)); break; default: named("emplace"); r = x.emplace(x.begin() + p, mk(v)); break; } w.insert(at_(p), v); CHECK(r - x.begin() == (Df)p, op, "returned iterator"); break; }
      case 15: if constexpr (copy) { if (n) { size_t p = g.below(n + 1), k = g.below(n); I v = w[k]; typename S::iterator r; if (g.coin()) { named("insert own element"); r = x.insert(x.begin() + p, x[k]); } else { named("emplace own element"); r = x.emplace(x.begin() + p, x[k]); } w.insert(at_(p), v); CHECK(r - x.begin() == (Df)p, op, "returned iterator"); } } break;
      case 16: if constexpr (copy) { size_t p = g.below(n + 1), k = amount(); typename S::iterator r; I v; if (n && g.coin()) { named("insert n own"); size_t j = g.below(n); v = w[j]; r = x.insert(x.begin() + p, k, x[j]); } else { named("insert n,v"); v = val(); T t = mk(v); r = x.insert(x.begin() + p, k, t); } w.insert(at_(p), k, v); CHECK(r - x.begin() == (Df)p, op, "returned iterator"); } break;
      case 17: { named("insert range"); size_t p = g.below(n + 1); Vec v = vals(amount()); with_range(v, [&](auto f, auto l) { auto r = x.insert(x.begin() + p, f, l); CHECK(r - x.begin() == (Df)p, op, "returned iterator"); }); w.insert(at_(p), v.begin(), v.end()); break; }
      case 18: { size_t p = g.below(n + 1); if (a != b && g.coin()) { named("insert sequence&&"); auto r = x.insert(x.begin() + p, std::move(*s[b])); CHECK(r - x.begin() == (Df)p, op, "returned iterator"); w.insert(at_(p), m[b].begin(), m[b].end()); m[b].clear(); } else if constexpr (copy) { if (g.coin()) { named("insert list"); I v = val(); auto r = x.insert(x.begin() + p, {mk(v), mk(v + 1)}); CHECK(r - x.begin() == (Df)p, op, "returned iterator"); w.insert(at_(p), {v, norm(v + 1)}); } else if (a != b) { named("insert sequence&"); auto r = x.insert(x.begin() + p, *s[b]); CHECK(r - x.begin() == (Df)p, op, "returned iterator"); w.insert(at_(p), m[b].begin(), m[b].end()); } } break; }
      case 19: if (n) { named("erase one"); size_t p = g.below(n); auto r = x.erase(x.begin() + p); CHECK(r - x.begin() == (Df)p, op, "returned iterator"); w.erase(at_(p)); } break;
      case 20: if constexpr (copy && std::is_default_constructible_v<T>) { named("erase range"); size_t p = g.below(n + 1), q = p + (g.coin() ? g.below(n - p + 1) : std::min<size_t>(n - p, g.below(4))); auto r = x.erase(x.begin() + p, x.begin() + q); CHECK(r - x.begin() == (Df)p, op, "returned iterator"); w.erase(at_(p), at_(q)); } break;
      case 21: if constexpr (copy && std::is_default_constructible_v<T> && !std::is_same_v<T, std::string> && !std::is_same_v<T, parlay::sequence<int>>) { named("resize"); size_t k = amount(); x.resize(k); w.resize(k, E<T>::key(T())); } break;
      case 22: if constexpr (copy && std::is_default_constructible_v<T>) { size_t k = amount() + (g.coin() ? n : 0); if (n && g.coin()) { named("resize own"); size_t j = g.below(n); I v = w[j]; if (k <= j) k = j + 1; x.resize(k, x[j]); w.resize(k, v); } else { named("resize v"); I v = val(); T t = mk(v); x.resize(k, t); w.resize(k, v); } } break;
      case 23: { named("reserve"); size_t k = amount(); x.reserve(k); CHECK(x.capacity() >= k, op); break; }
      case 24: if (n) { named("pop_back"); x.pop_back(); w.pop_back(); } break;
      case 25: { switch (g.below(5)) { case 0: named("clear"); x.clear(); w.clear(); break; case 1: if constexpr (copy) { named("assign n,v"); size_t k = amount(); I v = val(); T t = mk(v); x.assign(k, t); w.assign(k, v); } break; case 2: { named("assign range"); Vec v = vals(amount()); with_range(v, [&](auto f, auto l) { x.assign(f, l); }); w = v; break; } case 3: if (a != b) { named("assign sequence&&"); x.assign(std::move(*s[b])); w = m[b]; m[b].clear(); } break; case 4: if constexpr (copy) { if (a != b) { named("assign sequence&"); x.assign(*s[b]); w = m[b]; } } break; } break; }
      case 26: if (a != b) { size_t p = g.below(n + 1); if (g.coin()) { named("pop_tail at"); *s[b] = x.pop_tail(x.begin() + p); } else { named("pop_tail len"); *s[b] = x.pop_tail(n - p); } m[b].assign(at_(p), w.end()); w.resize(p); } break;
      case 27: { named("from_function"); Vec v = vals(amount()); *s[a] = S::from_function(v.size(), [&](size_t i) { return mk(v[i]); }, g.pick({0u, 0u, 1u, 7u})); w = v; break; }
      case 28: { named("write"); if (n) { size_t k = g.below(n); I v = val(); switch (g.below(4)) { case 0: x[k] = mk(v); break; case 1: x.at(k) = mk(v); break; case 2: *(x.begin() + k) = mk(v); break; case 3: k = g.coin() ? 0 : n - 1; (k ? x.back() : x.front()) = mk(v); k = k ? n - 1 : 0; break; } w[k] = v; } bool thrown = false; try { (void)x.at(n + g.below(3)); } catch (const std::out_of_range&) { thrown = true; } CHECK(thrown, "at() past the end did not throw"); break; }
      case 29: { named("compare"); const S& p = x; const S& q = *s[b]; if constexpr (eq) { CHECK((p == q) == (m[a] == m[b]), "==", show(m[a]), show(m[b])); CHECK((p != q) == (m[a] != m[b]), "!=");
          if constexpr (copy) if (n && g.coin()) { S c(x); size_t k = g.below(n); I v = val(); c[k] = mk(v); CHECK((c == x) == (v == w[k]), "== after changing element", k, "of", n); CHECK((x != c) == (v != w[k])); if constexpr (lt) { Vec mc = w; mc[k] = v; if constexpr (!std::is_same_v<T, std::string> && !std::is_same_v<T, parlay::sequence<int>>) { CHECK((c < x) == (mc < w), "< after changing element", k, "of", n); CHECK((x < c) == (w < mc), "<"); } } } }
        if constexpr (lt && !std::is_same_v<T, std::string> && !std::is_same_v<T, parlay::sequence<int>>) CHECK((p < q) == (m[a] < m[b]), "<", show(m[a]), show(m[b])); break; }
      case 30: if constexpr (copy) { named("slices"); const S& c = x; size_t p = g.below(n + 1), q = p + g.below(n - p + 1); auto same = [&](auto&& r, size_t f, size_t l, const char* what) { CHECK(r.size() == l - f, what, r.size(), l - f); for (size_t i = f; i < l; i++) CHECK(E<T>::key(r[i - f]) == w[i], what, "element", i - f); };
          same(x.head(p), 0, p, "head"); same(x.head(x.begin() + p), 0, p, "head"); same(x.tail(q - p), n - (q - p), n, "tail"); same(x.tail(x.begin() + p), p, n, "tail"); same(x.cut(p, q), p, q, "cut"); same(c.subseq(p, q), p, q, "subseq"); same(c.substr(p), p, n, "substr"); same(c.substr(p, q - p), p, q, "substr"); same(c.to_vector(), 0, n, "to_vector"); same(parlay::to_sequence(c), 0, n, "to_sequence"); same(parlay::to_short_sequence(x.cut(p, q)), p, q, "to_short_sequence"); same(c.cut(p, q), p, q, "const cut"); same(c.head(p), 0, p, "const head"); same(c.tail(q - p), n - (q - p), n, "const tail"); } break;
    }
    check(a, op); if (b != a) check(b, op);
  }
};
template <typename S> void history(Gen& g, const char* type, size_t maxn) {
  size_t steps = 2 + g.below(g.thorough ? 60 : 28); Model<S> m(g, maxn); g.label(type); g.desc << type << ":"; g.ready(); size_t biggest = 0;
  for (size_t k = 0; k < steps; k++) { m.step(); for (auto& v : m.m) { biggest = std::max(biggest, v.size()); if (v.size() > 4 * maxn) return; } }
  for (size_t i = 0; i < 3; i++) m.check(i, "end"); g.mark(biggest > 1); if (biggest > 1000) g.label("large");
}
}
