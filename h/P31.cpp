// Relocation, uninitialized memory helpers, unique_array and padded.
#include "pbt.h"
#include "types.h"
#include <list>
#include <forward_list>
#include <deque>
#include <array>
#include <tuple>
#include <variant>
#include <optional>
#include <parlay/relocation.h>
#ifndef VERIF_NO_INTERNAL
#include <parlay/internal/uninitialized_storage.h>
#include <parlay/internal/uninitialized_sequence.h>
#include <parlay/internal/uninitialized_iterator.h>
#endif
using namespace pbt; using namespace vt;
#ifndef PART
#define PART 0
#endif
namespace {
std::string txt(u64 x) { std::string s = std::to_string(x); if (x % 3 == 0) s += std::string(40, (char)('a' + x % 26)); return s; }
template <size_t N, size_t A = 8> struct alignas(A) Raw { u64 v; char pad[N]; };
struct SelfRef { const SelfRef* me; u64 v; std::string s; SelfRef(u64 x) : me(this), v(x), s(txt(x)) {} SelfRef(const SelfRef& o) : me(this), v(o.v), s(o.s) {} SelfRef(SelfRef&& o) noexcept : me(this), v(o.v), s(std::move(o.s)) {} SelfRef& operator=(const SelfRef& o) { v = o.v; s = o.s; return *this; } ~SelfRef() { me = nullptr; } };
template <typename T> struct V;   // make from a number; is it that number
#define VAL(T, MK, OK) template <> struct V<T> { static T make(u64 x) { return MK; } static bool is(const T& t, u64 x) { return OK; } }
VAL(char, (char)x, t == (char)x); VAL(u64, x, t == x); VAL(long double, (long double)x, t == (long double)x);
using R3 = Raw<3, 1>; 
template <size_t N, size_t A> struct V<Raw<N, A>> { static Raw<N, A> make(u64 x) { Raw<N, A> r; r.v = x; for (size_t i = 0; i < N; i++) r.pad[i] = (char)(x + i * 7); return r; } static bool is(const Raw<N, A>& t, u64 x) { if (t.v != x) return false; for (size_t i = 0; i < N; i++) if (t.pad[i] != (char)(x + i * 7)) return false; return true; } };
VAL(Tracked, Tracked((int64_t)(x >> 2)), t.get() == (int64_t)(x >> 2)); VAL(SelfRef, SelfRef(x), t.me == &t && t.v == x && t.s == txt(x)); VAL(std::string, txt(x), t == txt(x));
using UP = std::unique_ptr<u64>; VAL(UP, UP(x % 5 ? new u64(x) : nullptr), x % 5 ? t && *t == x : !t);
using SP = std::shared_ptr<std::string>; VAL(SP, std::make_shared<std::string>(txt(x)), t && *t == txt(x) && t.use_count() == 1);
using VEC = std::vector<std::string>; VAL(VEC, VEC(x % 4, txt(x)), t == VEC(x % 4, txt(x)));
using SEQ = parlay::sequence<int>; VAL(SEQ, SEQ(x % 9, (int)x), t == SEQ(x % 9, (int)x));
using SSQ = parlay::sequence<std::string>; VAL(SSQ, SSQ(x % 4, txt(x)), t == SSQ(x % 4, txt(x)));
using SHS = parlay::short_sequence<char>; VAL(SHS, SHS(x % 40, (char)x), t == SHS(x % 40, (char)x));
using PR = std::pair<u64, std::string>; VAL(PR, PR(x, txt(x)), t == PR(x, txt(x))); using PI = std::pair<int, UP>; VAL(PI, PI((int)x, UP(new u64(x))), t.first == (int)x && *t.second == x);
using TUP = std::tuple<char, std::string, UP>; VAL(TUP, TUP((char)x, txt(x), UP(new u64(x))), std::get<0>(t) == (char)x && std::get<1>(t) == txt(x) && *std::get<2>(t) == x);
using OPT = std::optional<std::string>; VAL(OPT, x % 3 ? OPT(txt(x)) : OPT(), x % 3 ? t && *t == txt(x) : !t);
using VAR = std::variant<int, std::string, Tracked>; VAL(VAR, x % 3 == 0 ? VAR((int)x) : x % 3 == 1 ? VAR(txt(x)) : VAR(Tracked((int64_t)(x >> 2))), t.index() == x % 3 && (x % 3 == 0 ? std::get<0>(t) == (int)x : x % 3 == 1 ? std::get<1>(t) == txt(x) : std::get<2>(t).get() == (int64_t)(x >> 2)));
using ARR = std::array<std::string, 3>; VAL(ARR, (ARR{txt(x), txt(x + 1), ""}), t == (ARR{txt(x), txt(x + 1), ""})); using DQ = std::deque<int>; VAL(DQ, DQ(x % 7, (int)x), t == DQ(x % 7, (int)x)); using FL = std::forward_list<int>; VAL(FL, FL(x % 5, (int)x), t == FL(x % 5, (int)x)); using LS = std::list<int>; VAL(LS, LS(x % 5, (int)x), t == LS(x % 5, (int)x)); using PT = std::pair<Tracked, Tracked>; VAL(PT, PT(Tracked((int64_t)(x >> 2)), Tracked((int64_t)(x >> 3))), t.first.get() == (int64_t)(x >> 2) && t.second.get() == (int64_t)(x >> 3)); using FN = std::function<u64()>; VAL(FN, x % 2 ? FN([x] { return x; }) : FN([x, s = txt(x)] { return x + s.size() - s.size(); }), const_cast<FN&>(t)() == x);

// raw memory with guard bytes on both sides
template <typename T> struct Arena { size_t n; char* base; T* p; static constexpr size_t G = 64 + alignof(T);
  explicit Arena(size_t n_) : n(n_), base((char*)::operator new(n * sizeof(T) + 2 * G, std::align_val_t{std::max<size_t>(alignof(T), 16)})) { size_t off = (G + alignof(T) - 1) / alignof(T) * alignof(T); off = std::min(off, G); off = off / alignof(T) * alignof(T); p = (T*)(base + off); memset(base, 0xa5, n * sizeof(T) + 2 * G); }
  bool guards() const { for (char* q = base; q < (char*)p; q++) if (*q != (char)0xa5) return false; for (char* q = (char*)(p + n); q < base + n * sizeof(T) + 2 * G; q++) if (*q != (char)0xa5) return false; return true; }
  ~Arena() { ::operator delete(base, std::align_val_t{std::max<size_t>(alignof(T), 16)}); } };

// random access iterator over slots stored in reverse with gaps of one: not contiguous
template <typename T> struct Rev { using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&; T* q; Rev(T* q_ = nullptr) : q(q_) {} T& operator*() const { return *q; } T* operator->() const { return q; } T& operator[](std::ptrdiff_t i) const { return *(q - i); } Rev& operator++() { --q; return *this; } Rev operator++(int) { auto t = *this; --q; return t; } Rev& operator--() { ++q; return *this; } Rev operator--(int) { auto t = *this; ++q; return t; } Rev& operator+=(std::ptrdiff_t d) { q -= d; return *this; } Rev& operator-=(std::ptrdiff_t d) { q += d; return *this; } friend Rev operator+(Rev a, std::ptrdiff_t d) { return Rev(a.q - d); } friend Rev operator+(std::ptrdiff_t d, Rev a) { return Rev(a.q - d); } friend Rev operator-(Rev a, std::ptrdiff_t d) { return Rev(a.q + d); } friend std::ptrdiff_t operator-(Rev a, Rev b) { return b.q - a.q; } friend bool operator==(Rev a, Rev b) { return a.q == b.q; } friend bool operator!=(Rev a, Rev b) { return a.q != b.q; } friend bool operator<(Rev a, Rev b) { return a.q > b.q; } friend bool operator>(Rev a, Rev b) { return a.q < b.q; } friend bool operator<=(Rev a, Rev b) { return a.q >= b.q; } friend bool operator>=(Rev a, Rev b) { return a.q <= b.q; } };
// forward iterator
template <typename T> struct Fwd { using iterator_category = std::forward_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&; T* q; Fwd(T* q_ = nullptr) : q(q_) {} T& operator*() const { return *q; } T* operator->() const { return q; } Fwd& operator++() { ++q; return *this; } Fwd operator++(int) { auto t = *this; ++q; return t; } friend bool operator==(Fwd a, Fwd b) { return a.q == b.q; } friend bool operator!=(Fwd a, Fwd b) { return a.q != b.q; } };

template <typename T> void reloc(Gen& g, const char* name) {
  size_t hi = sizeof(T) > 2000 ? 40 : sizeof(T) > 200 ? 300 : 6000, n = g.len(hi), extra = g.below(3); int form = (int)g.below(10); u64 sd = g.seed(); if (g.chance(20)) { size_t c = std::max<size_t>(1, 8192 / sizeof(T)); n = std::min(hi, c * (1 + g.below(3)) + g.below(3) - 1); }
  static const char* F[] = {"n(ptr,ptr)", "range(ptr,ptr)", "n(rev,ptr)", "n(ptr,rev)", "range(rev,rev)", "n(fwd,fwd)", "range(fwd,ptr)", "relocate_at", "n(ptr,uninitialized adaptor)", "range(ptr,fwd)"}; g.desc << "relocate " << n << " of " << name << " by " << F[form] << " seed=" << sd; g.ready(); g.mark(n > 1); g.label(name);
  long live = Tracked::live; auto val = [&](size_t i) { return mix(sd + i) >> 1; };
  { Arena<T> A(n + extra), B(n + extra); for (size_t i = 0; i < n; i++) ::new (A.p + i) T(V<T>::make(val(i))); T *a = A.p, *b = B.p; bool rev_in = false, rev_out = false; set_jitter(sd, n < 300 ? 2 : 0);
    Arena<parlay::uninitialized<T>> U(form == 8 ? n + 1 : 1);
    switch (form) {
      case 0: { auto r = g.coin() ? parlay::uninitialized_relocate_n(a, n, b) : parlay::uninitialized_relocate_n(a, (int)n, b); CHECK(r.first == a + n && r.second == b + n, "returned iterators"); break; }
      case 1: { auto r = parlay::uninitialized_relocate(a, a + n, b); CHECK(r == b + n); break; }
      case 2: { auto r = parlay::uninitialized_relocate_n(Rev<T>(a + n - 1), n, b); CHECK(r.first == Rev<T>(a - 1) && r.second == b + n); rev_in = true; break; }
      case 3: { auto r = parlay::uninitialized_relocate_n(a, (long)n, Rev<T>(b + n - 1)); CHECK(r.first == a + n && r.second == Rev<T>(b - 1)); rev_out = true; break; }
      case 4: { auto r = parlay::uninitialized_relocate(Rev<T>(a + n - 1), Rev<T>(a - 1), Rev<T>(b + n - 1)); CHECK(r == Rev<T>(b - 1)); rev_in = rev_out = true; break; }
      case 5: { auto r = parlay::uninitialized_relocate_n(Fwd<T>(a), n, Fwd<T>(b)); CHECK(r.first == Fwd<T>(a + n) && r.second == Fwd<T>(b + n)); break; }
      case 6: { auto r = parlay::uninitialized_relocate(Fwd<T>(a), Fwd<T>(a + n), b); CHECK(r == b + n); break; }
      case 7: for (size_t i = 0; i < n; i++) { T* q = parlay::relocate_at(a + i, b + i); CHECK(q == b + i, "relocate_at returned another address"); } break;
      case 8: { INTERNAL_ONLY(parlay::internal::uninitialized_iterator_adaptor<parlay::uninitialized<T>*> d(U.p); auto r = parlay::uninitialized_relocate_n(a, n, d); CHECK(r.first == a + n && r.second == d + (std::ptrdiff_t)n); CHECK(r.second - d == (std::ptrdiff_t)n && (n == 0 || (d < r.second && &d[n - 1] == &U.p[n - 1].value))); for (size_t i = 0; i < n; i++) { CHECK(V<T>::is(U.p[i].value, val(i)), "value at", i); U.p[i].value.~T(); }) break; }
      case 9: { auto r = parlay::uninitialized_relocate(a, a + n, Fwd<T>(b)); CHECK(r == Fwd<T>(b + n)); break; } }
    bool flip = rev_in != rev_out; if (form != 8) for (size_t i = 0; i < n; i++) { size_t j = flip ? n - 1 - i : i; CHECK(V<T>::is(b[j], val(i)), "value of element", i); }
    CHECK(A.guards() && B.guards() && U.guards(), "bytes around the ranges were touched"); for (size_t k = 0; k < sizeof(T) * extra; k++) CHECK(((unsigned char*)(b + n))[k] == 0xa5 || form == 8, "bytes beyond the range were touched");
    if (form != 8) for (size_t i = 0; i < n; i++) b[i].~T(); }
  CHECK(Tracked::live == live, "live elements", Tracked::live - live);
}
template <typename F> void which(Gen& g, F) { }
#define TRY(T) case __COUNTER__ - BASE: reloc<T>(g, #T); break;
}
#if PART == 0
PBT_SUB(reloc_a, 4000, 30000, 40, F_NONE) { constexpr int BASE = __COUNTER__ + 1; using B5000 = Raw<5000, 8>; using A64 = Raw<40, 64>; using A4096 = Raw<100, 4096>; using R17 = Raw<17, 8>; using B20000 = Raw<20000, 16>; switch (g.below(10)) { TRY(char) TRY(u64) TRY(long double) TRY(B5000) TRY(A64) TRY(A4096) TRY(R17) TRY(B20000) TRY(Tracked) TRY(SelfRef) } }
#elif PART == 1
PBT_SUB(reloc_b, 4000, 30000, 40, F_NONE) { constexpr int BASE = __COUNTER__ + 1; switch (g.below(9)) { TRY(std::string) TRY(UP) TRY(SP) TRY(VEC) TRY(SEQ) TRY(SSQ) TRY(SHS) TRY(PR) TRY(PI) } }
#elif PART == 2
PBT_SUB(reloc_c, 4000, 30000, 40, F_NONE) { constexpr int BASE = __COUNTER__ + 1; switch (g.below(9)) { TRY(TUP) TRY(OPT) TRY(VAR) TRY(ARR) TRY(DQ) TRY(FL) TRY(LS) TRY(PT) TRY(FN) } }
#else
namespace {
template <typename A, typename B> void convert(Gen& g, const char* name, A (*mk)(u64), bool (*ok)(const B&, u64)) { size_t n = g.len(5000); int form = (int)g.below(3); u64 sd = g.seed(); g.desc << "relocate " << n << " " << name << " form " << form; g.ready(); g.mark(n > 1); g.label(name); long live = Tracked::live; { Arena<A> X(n); Arena<B> Y(n); for (size_t i = 0; i < n; i++) ::new (X.p + i) A(mk(mix(sd + i) >> 1)); if (form == 0) { auto r = parlay::uninitialized_relocate_n(X.p, n, Y.p); CHECK(r.first == X.p + n && r.second == Y.p + n); } else if (form == 1) { CHECK(parlay::uninitialized_relocate(X.p, X.p + n, Y.p) == Y.p + n); } else { auto r = parlay::uninitialized_relocate_n(Fwd<A>(X.p), n, Y.p); CHECK(r.first == Fwd<A>(X.p + n) && r.second == Y.p + n); } for (size_t i = 0; i < n; i++) CHECK(ok(Y.p[i], mix(sd + i) >> 1), "value at", i); CHECK(X.guards() && Y.guards()); for (size_t i = 0; i < n; i++) Y.p[i].~B(); } CHECK(Tracked::live == live, "live elements", Tracked::live - live); }
struct FromTracked { Tracked t; FromTracked(Tracked&& x) : t(std::move(x)) {} };
template <typename T> void tags(Gen& g, const char* name) {   // assign_dispatch and friends
  size_t n = 1 + g.len(200); u64 sd = g.seed(); int form = (int)g.below(9); static const char* F[] = {"copy assign", "move assign", "uninitialized copy", "uninitialized move", "uninitialized relocate", "assign_uninitialized const&", "assign_uninitialized &&", "move_uninitialized", "relocate"}; g.desc << F[form] << " of " << n << " " << name; g.ready(); g.mark(); g.label(F[form]); long live = Tracked::live;
  { Arena<T> A(n), B(n); for (size_t i = 0; i < n; i++) { ::new (A.p + i) T(V<T>::make(mix(sd + i) >> 1)); if (form < 2) ::new (B.p + i) T(V<T>::make(i)); } bool src_alive = form != 4 && form != 8, keeps = form == 0 || form == 2 || form == 5;
    for (size_t i = 0; i < n; i++) { T &a = A.p[i], &b = B.p[i]; switch (form) { case 0: parlay::assign_dispatch(b, a, parlay::copy_assign_tag()); break; case 1: parlay::assign_dispatch(b, a, parlay::move_assign_tag()); break; case 2: parlay::assign_dispatch(b, a, parlay::uninitialized_copy_tag()); break; case 3: parlay::assign_dispatch(b, a, parlay::uninitialized_move_tag()); break; case 4: parlay::assign_dispatch(b, a, parlay::uninitialized_relocate_tag()); break; case 5: { const T& c = a; parlay::assign_uninitialized(b, c); break; } case 6: parlay::assign_uninitialized(b, std::move(a)); break; case 7: parlay::move_uninitialized(b, a); break; case 8: ::new (&b) T(parlay::relocate(&a)); break; } }
    for (size_t i = 0; i < n; i++) { CHECK(V<T>::is(B.p[i], mix(sd + i) >> 1), "destination", i); if (keeps) CHECK(V<T>::is(A.p[i], mix(sd + i) >> 1), "source changed at", i); } CHECK(A.guards() && B.guards()); for (size_t i = 0; i < n; i++) { B.p[i].~T(); if (src_alive) A.p[i].~T(); } }
  CHECK(Tracked::live == live, "live elements", Tracked::live - live);
}
// counted construction without default, copy
struct Once { static inline long live = 0, made = 0; size_t i; explicit Once(size_t x) : i(x) { live++; made++; } Once(const Once&) = delete; Once& operator=(const Once&) = delete; ~Once() { live--; } };
struct alignas(256) OnceA { static inline long live = 0; size_t i; OnceA(size_t x) : i(x) { live++; if ((uintptr_t)this % 256) soft_fail("misaligned element"); } OnceA(const OnceA&) = delete; ~OnceA() { live--; } };
template <typename T> long living() { if constexpr (std::is_same_v<T, Once>) return Once::live; else if constexpr (std::is_same_v<T, OnceA>) return OnceA::live; else return Tracked::live; }
template <typename T> T mk(size_t i) { if constexpr (std::is_same_v<T, Tracked>) return Tracked((int64_t)i); else if constexpr (std::is_same_v<T, u64>) return (u64)i; else return T(i); }
template <typename T> size_t rd(const T& t) { if constexpr (std::is_same_v<T, Tracked>) return (size_t)t.get(); else if constexpr (std::is_same_v<T, u64>) return (size_t)t; else return t.i; }
template <typename T> void arrays(Gen& g, const char* name) {
  using U = parlay::unique_array<T>; size_t k = 1 + g.below(3); std::vector<U> v(k); std::vector<long> m(k, -1); size_t steps = 1 + g.below(12); std::ostringstream os; os << name; bool any = false; long base = living<T>(); std::vector<std::array<u64, 4>> plan; for (size_t s = 0; s < steps; s++) { plan.push_back({g.below(6), g.below(k), g.below(k), g.chance(20) ? 0 : g.len(300)}); auto& p = plan.back(); static const char* N[] = {"make", "move", "swap", "reset", "moveconstruct", "read"}; os << " " << N[p[0]] << "(" << p[1] << "," << p[2] << "," << p[3] << ")"; any |= p[0] == 0 && p[3]; } g.desc << os.str(); g.ready(); g.mark(any);
  u64 gen = 0; std::vector<u64> tag(k, 0); for (auto& p : plan) { size_t i = p[1], j = p[2], n = p[3]; switch (p[0]) { case 0: { u64 t = ++gen * 1000; size_t next = 0; bool order = true; v[i] = parlay::make_unique_array<T>(n, [&](size_t q) { order &= q == next++; return mk<T>(t + q); }); CHECK(next == n && order, "initialiser called", next, "times for", n); m[i] = (long)n; tag[i] = t; break; } case 1: if (i != j) { v[i] = std::move(v[j]); m[i] = m[j]; tag[i] = tag[j]; m[j] = -1; CHECK(!v[j]); } break; case 2: std::swap(v[i], v[j]); std::swap(m[i], m[j]); std::swap(tag[i], tag[j]); break; case 3: v[i].reset(); m[i] = -1; break; case 4: { U w(std::move(v[i])); CHECK(!v[i]); if (n % 2) v[i] = std::move(w); else { m[i] = -1; } break; } case 5: break; }
    long want = 0; for (size_t a = 0; a < k; a++) { if (m[a] < 0) { CHECK(!v[a]); continue; } want += m[a]; CHECK((long)parlay::size(std::as_const(v[a])) == m[a], "size", parlay::size(std::as_const(v[a]))); CHECK(parlay::end(v[a]) - parlay::begin(v[a]) == m[a]); const U& c = v[a]; CHECK(parlay::end(c) - parlay::begin(c) == m[a]); size_t q = 0; if (m[a]) for (auto it = parlay::begin(v[a]); it != parlay::end(v[a]); ++it, ++q) CHECK(rd<T>(*it) == tag[a] + q && &v[a][q] == it, "element", q); CHECK((long)q == m[a]); } if (!std::is_same_v<T, u64>) CHECK(living<T>() - base == want, "live elements", living<T>() - base, "of", want); }
  v.clear(); CHECK(living<T>() == base);
}
}
PBT_SUB(convert, 3000, 20000, 40, F_NONE) { switch (g.below(4)) { case 0: convert<int, u64>(g, "int to u64", +[](u64 x) { return (int)x; }, +[](const u64& y, u64 x) { return y == (u64)(int)x; }); break; case 1: convert<Tracked, FromTracked>(g, "Tracked to wrapper", +[](u64 x) { return Tracked((int64_t)(x >> 2)); }, +[](const FromTracked& y, u64 x) { return y.t.get() == (int64_t)(x >> 2); }); break; case 2: convert<UP, std::shared_ptr<u64>>(g, "unique_ptr to shared_ptr", +[](u64 x) { return UP(new u64(x)); }, +[](const std::shared_ptr<u64>& y, u64 x) { return *y == x && y.use_count() == 1; }); break; case 3: convert<std::string, std::optional<std::string>>(g, "string to optional", +[](u64 x) { return txt(x); }, +[](const std::optional<std::string>& y, u64 x) { return y && *y == txt(x); }); break; } }
PBT_SUB(tags, 3000, 20000, 40, F_SERIAL) { switch (g.below(6)) { case 0: tags<Tracked>(g, "Tracked"); break; case 1: tags<std::string>(g, "string"); break; case 2: tags<SelfRef>(g, "SelfRef"); break; case 3: tags<PR>(g, "pair"); break; case 4: tags<SEQ>(g, "sequence"); break; case 5: tags<u64>(g, "u64"); break; } }
PBT_SUB(unique_array, 3000, 20000, 40, F_SERIAL) { switch (g.below(4)) { case 0: arrays<Tracked>(g, "Tracked"); break; case 1: arrays<Once>(g, "Once"); break; case 2: arrays<OnceA>(g, "OnceA"); break; case 3: arrays<u64>(g, "u64"); break; } }
#ifndef VERIF_NO_INTERNAL
PBT_SUB(storage, 2000, 15000, 40, F_SERIAL) {   // uninitialized_storage, uninitialized_sequence
  size_t n = g.len(300); u64 sd = g.seed(); int form = (int)g.below(4); g.desc << "form " << form << " n=" << n; g.ready(); g.mark(n > 0); long live = Tracked::live;
  { if (form == 0) { parlay::internal::uninitialized_storage<Tracked> st; parlay::internal::uninitialized_storage<Raw<100, 512>> al; CHECK((uintptr_t)al.get() % 512 == 0); CHECK(Tracked::live == live, "storage constructed an element"); ::new (st.get()) Tracked((int64_t)n); const auto& c = st; CHECK(c.get()->get() == (int64_t)n); st.get()->~Tracked(); }
    else { using Q = parlay::internal::uninitialized_sequence<Tracked>; Q q(n); CHECK(q.size() == n && (size_t)(q.end() - q.begin()) == n && q.data() == q.begin()); CHECK(Tracked::live == live, "uninitialized_sequence constructed elements"); auto fill = [&](Q& x, u64 t) { for (size_t i = 0; i < x.size(); i++) ::new (&x[i]) Tracked((int64_t)(mix(t + i) >> 2)); }; auto drain = [&](Q& x, u64 t) { for (size_t i = 0; i < x.size(); i++) { CHECK(x[i].get() == (int64_t)(mix(t + i) >> 2)); x[i].~Tracked(); } };
      fill(q, sd); if (form == 1) drain(q, sd); else if (form == 2) { Q r(std::move(q)); CHECK(r.size() == n && q.size() == 0); drain(r, sd); } else { Q r(g.len(50)); fill(r, sd + 99); size_t m = r.size(); if (g.coin()) { r.swap(q); CHECK(q.size() == m && r.size() == n); drain(q, sd + 99); } else { drain(r, sd + 99); r = std::move(q); CHECK(r.size() == n); } drain(r, sd); } } }
  CHECK(Tracked::live == live);
}
#endif
PBT_SUB(padded, 2000, 15000, 40, F_SERIAL) {
  using parlay::padded; size_t n = g.len(100); u64 sd = g.seed(); int form = (int)g.below(6); g.desc << "padded form " << form << " n=" << n; g.ready(); g.mark(n > 1); long live = Tracked::live;
  switch (form) {
    case 0: { std::vector<padded<int>> v(n); for (auto& x : v) CHECK(x == 0, "not value-initialised"); for (size_t i = 0; i < n; i++) { v[i] = (int)(mix(sd + i)); CHECK((uintptr_t)&v[i] % 128 == 0); if (i) CHECK((char*)&v[i] - (char*)&v[i - 1] >= 128); } for (size_t i = 0; i < n; i++) { int& r = v[i]; CHECK(r == (int)mix(sd + i)); r = (int)i; CHECK(v[i] + 1 == (int)i + 1); v[i] += 2; CHECK(v[i] == (int)i + 2); } break; }
    case 1: { parlay::sequence<padded<std::string>> v; for (size_t i = 0; i < n; i++) { v.push_back(txt(mix(sd + i))); } for (size_t i = 0; i < n; i++) { CHECK(v[i] == txt(mix(sd + i))); CHECK((uintptr_t)&v[i] % 128 == 0, "misaligned"); std::string& s = v[i]; s += "x"; CHECK(v[i].size() == txt(mix(sd + i)).size() + 1); } break; }
    case 2: { padded<std::vector<int>> v{1, 2, 3}; for (size_t i = 0; i < n; i++) v.push_back((int)i); CHECK(v.size() == n + 3 && v[2] == 3); padded<std::vector<int>> w(v); CHECK(w == v); padded<std::vector<int>> x(std::move(v)); CHECK(x == w && v.empty()); std::vector<int> y(std::move(x)); CHECK(y == w); w = std::vector<int>{7}; CHECK(w.size() == 1 && w[0] == 7); break; }
    case 3: { padded<UP> p(std::make_unique<u64>(sd)); CHECK(*p == sd); UP q(std::move(p)); CHECK(!p && *q == sd); p = std::move(q); CHECK(*p == sd && !q); padded<int (*)(int)> f = +[](int x) { return x + 1; }; CHECK(f(3) == 4); padded<const char*> c = "abc"; CHECK(c[1] == 'b' && std::string(c) == "abc"); padded<u64*> pp = p.get(); CHECK(*pp == sd); break; }
    case 4: { std::vector<padded<Tracked, 64>> v; for (size_t i = 0; i < n; i++) v.emplace_back((int64_t)i); CHECK(Tracked::live == live + (long)n); for (size_t i = 0; i < n; i++) { CHECK(v[i].get() == (int64_t)i && (uintptr_t)&v[i] % 64 == 0); Tracked t(v[i]); CHECK(t.get() == (int64_t)i); v[i] = Tracked((int64_t)(i + 5)); CHECK(v[i].get() == (int64_t)(i + 5)); } break; }
    case 5: { padded<double, 256> d = 1.5; CHECK((uintptr_t)&d % 256 == 0 && sizeof(d) == 256 && d * 2 == 3.0); double e = std::move(d); CHECK(e == 1.5); const padded<double, 256> k(2.5); const double& r = k; CHECK(&r == &k.x && r == 2.5); padded<bool> b = true; CHECK(b); b = false; CHECK(!b); break; } }
  CHECK(Tracked::live == live);
}
#endif
