// Element types with identity and lifetime tracking, and range wrappers.
#ifndef VERIF_TYPES_H
#define VERIF_TYPES_H
#include "pbt.h"
#include <deque>
#include <memory>
#include <string>
#include <parlay/sequence.h>
#include <parlay/delayed_sequence.h>
#include <parlay/primitives.h>
#include <parlay/slice.h>

namespace vt {
using pbt::u64;

// ---------------------------------------------------------------- tracked element
// Detects: use of unconstructed / destroyed / bytewise-copied storage, leaks, double destruction.
struct Tracked {
  static inline std::atomic<long> live{0}, copies{0}, moves{0};
  static constexpr u64 ALIVE = 0x5afe5afe12345678ull, DEAD = 0xdeaddeaddeaddeadull;
  const void* self; u64 state; int64_t v; int64_t tag;
  static void bad(const char* w) { pbt::soft_fail(std::string("element lifetime error: ") + w); }
  bool ok() const { return state == ALIVE && self == this; }
  void need(const char* w) const { if (!ok()) bad(w); }
  Tracked() : self(this), state(ALIVE), v(0), tag(0) { live++; }
  /* implicit */ Tracked(int64_t x, int64_t t = 0) : self(this), state(ALIVE), v(x), tag(t) { live++; }
  Tracked(const Tracked& o) : self(this), state(ALIVE), v(o.v), tag(o.tag) { o.need("copy from dead object"); if (o.v == MOVED) bad("copy from moved-from object"); live++; copies++; }
  Tracked(Tracked&& o) noexcept : self(this), state(ALIVE), v(o.v), tag(o.tag) { o.need("move from dead object"); if (o.v == MOVED) bad("move from moved-from object"); o.v = MOVED; live++; moves++; }
  Tracked& operator=(const Tracked& o) { need("assign to dead object"); o.need("assign from dead object"); if (&o != this && o.v == MOVED) bad("assign from moved-from object"); v = o.v; tag = o.tag; copies++; return *this; }
  Tracked& operator=(Tracked&& o) noexcept { need("assign to dead object"); o.need("assign from dead object"); if (&o != this) { if (o.v == MOVED) bad("move-assign from moved-from object"); v = o.v; tag = o.tag; o.v = MOVED; } moves++; return *this; }
  ~Tracked() { need("destroy dead object"); state = DEAD; self = nullptr; live--; }
  static constexpr int64_t MOVED = INT64_MIN + 77;
  int64_t get() const { need("read of dead object"); if (v == MOVED) bad("read of moved-from object"); return v; }
  friend bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
  friend bool operator!=(const Tracked& a, const Tracked& b) { return a.get() != b.get(); }
  friend bool operator<(const Tracked& a, const Tracked& b) { return a.get() < b.get(); }
};

// ---------------------------------------------------------------- move-only element
struct MoveOnly {
  std::unique_ptr<int64_t> p; int64_t tag = 0;
  MoveOnly() = default;
  explicit MoveOnly(int64_t v, int64_t t = 0) : p(new int64_t(v)), tag(t) {}
  MoveOnly(MoveOnly&&) noexcept = default;
  MoveOnly& operator=(MoveOnly&&) noexcept = default;
  MoveOnly(const MoveOnly&) = delete;
  MoveOnly& operator=(const MoveOnly&) = delete;
  int64_t get() const { if (!p) { pbt::soft_fail("moved-from move-only element read"); return 0; } return *p; }
  friend bool operator<(const MoveOnly& a, const MoveOnly& b) { return a.get() < b.get(); }
  friend bool operator==(const MoveOnly& a, const MoveOnly& b) { return a.get() == b.get(); }
};

// plain elements of several sizes; key + identity
struct Small { int32_t v; int32_t tag; };
template <size_t PAD> struct Padded { int64_t v; int64_t tag; char pad[PAD]; };
using Big = Padded<48>;

template <typename T> struct El;   // make / key / tag
template <> struct El<Tracked> { static Tracked make(int64_t v, int64_t t) { return Tracked(v, t); } static int64_t key(const Tracked& x) { return x.get(); } static int64_t tag(const Tracked& x) { return x.tag; } };
template <> struct El<MoveOnly> { static MoveOnly make(int64_t v, int64_t t) { return MoveOnly(v, t); } static int64_t key(const MoveOnly& x) { return x.get(); } static int64_t tag(const MoveOnly& x) { return x.tag; } };
template <> struct El<Small> { static Small make(int64_t v, int64_t t) { return Small{(int32_t)v, (int32_t)t}; } static int64_t key(const Small& x) { return x.v; } static int64_t tag(const Small& x) { return x.tag; } };
template <size_t P> struct El<Padded<P>> { static Padded<P> make(int64_t v, int64_t t) { Padded<P> b; b.v = v; b.tag = t; memset(b.pad, (int)(v & 127), P); return b; } static int64_t key(const Padded<P>& x) { return x.v; } static int64_t tag(const Padded<P>& x) { return x.tag; } };
template <> struct El<std::string> {
  static std::string make(int64_t v, int64_t t) { std::string s = std::to_string(v + 4000000000000000000ll) + "/" + std::to_string(t); if (v & 1) s += "................................"; return s; }
  static int64_t key(const std::string& x) { if (x.empty()) { pbt::soft_fail("moved-from string read"); return 0; } return std::stoll(x) - 4000000000000000000ll; }
  static int64_t tag(const std::string& x) { auto p = x.find('/'); return p == std::string::npos ? -1 : std::stoll(x.substr(p + 1)); } };
template <> struct El<int64_t> { static int64_t make(int64_t v, int64_t) { return v; } static int64_t key(int64_t x) { return x; } static int64_t tag(int64_t) { return 0; } };
template <> struct El<int> { static int make(int64_t v, int64_t) { return (int)v; } static int64_t key(int x) { return x; } static int64_t tag(int) { return 0; } };

template <typename T> parlay::sequence<T> make_seq(const std::vector<int64_t>& v) {
  return parlay::sequence<T>::from_function(v.size(), [&](size_t i) { return El<T>::make(v[i], (int64_t)i); });
}

// A random-access range of lvalues whose layout is chosen at run time (one instantiation covers them all):
//  0 contiguous  1 stored with gaps  2 stored backwards  3 in a deque
template <typename T> struct AnyRange {
  struct iterator {
    using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&;
    const AnyRange* r = nullptr; std::ptrdiff_t i = 0;
    const T& operator*() const { return r->at(i); }
    const T* operator->() const { return &r->at(i); }
    const T& operator[](difference_type k) const { return r->at(i + k); }
    iterator& operator++() { ++i; return *this; } iterator operator++(int) { auto t = *this; ++i; return t; }
    iterator& operator--() { --i; return *this; } iterator operator--(int) { auto t = *this; --i; return t; }
    iterator& operator+=(difference_type k) { i += k; return *this; } iterator& operator-=(difference_type k) { i -= k; return *this; }
    friend iterator operator+(iterator a, difference_type k) { a.i += k; return a; } friend iterator operator+(difference_type k, iterator a) { a.i += k; return a; }
    friend iterator operator-(iterator a, difference_type k) { a.i -= k; return a; } friend difference_type operator-(const iterator& a, const iterator& b) { return a.i - b.i; }
    friend bool operator==(const iterator& a, const iterator& b) { return a.i == b.i; } friend bool operator!=(const iterator& a, const iterator& b) { return a.i != b.i; }
    friend bool operator<(const iterator& a, const iterator& b) { return a.i < b.i; } friend bool operator>(const iterator& a, const iterator& b) { return a.i > b.i; }
    friend bool operator<=(const iterator& a, const iterator& b) { return a.i <= b.i; } friend bool operator>=(const iterator& a, const iterator& b) { return a.i >= b.i; }
  };
  using value_type = T;
  unsigned kind; std::ptrdiff_t n; std::vector<T> st; std::deque<T> dq;
  AnyRange(unsigned k, const std::vector<T>& v) : kind(k % 4), n((std::ptrdiff_t)v.size()) {
    if (kind == 0) st = v;
    else if (kind == 1) { for (auto const& x : v) { st.push_back(x); st.push_back(v.back()); st.push_back(v.front()); } }
    else if (kind == 2) st.assign(v.rbegin(), v.rend());
    else dq.assign(v.begin(), v.end());
  }
  const T& at(std::ptrdiff_t i) const {
    if (i < 0 || i >= n) { pbt::soft_fail("read outside of the range at " + std::to_string(i) + " of " + std::to_string(n)); i = 0; if (!n) abort(); }
    switch (kind) { case 0: return st[(size_t)i]; case 1: return st[(size_t)(3 * i)]; case 2: return st[(size_t)(n - 1 - i)]; default: return dq[(size_t)i]; }
  }
  iterator begin() const { return {this, 0}; } iterator end() const { return {this, n}; }
  size_t size() const { return (size_t)n; }
  const T& operator[](size_t i) const { return at((std::ptrdiff_t)i); }
  static const char* name(unsigned k) { static const char* nm[] = {"contiguous", "gapped", "backwards", "deque"}; return nm[k % 4]; }
};

// Counts how often each index is visited.
struct Visits {
  std::vector<std::atomic<uint32_t>> c; std::atomic<uint64_t> outside{0};
  explicit Visits(size_t n) : c(n) { for (auto& x : c) x.store(0, std::memory_order_relaxed); }
  void hit(size_t i) { if (i < c.size()) c[i].fetch_add(1, std::memory_order_relaxed); else outside.fetch_add(1, std::memory_order_relaxed); }
  // first index whose count is not k, or SIZE_MAX
  void expect(uint32_t k, const char* what) {
    if (outside.load()) pbt::soft_fail(std::string(what) + ": invoked outside of the range");
    for (size_t i = 0; i < c.size(); i++) if (c[i].load(std::memory_order_relaxed) != k) { pbt::soft_fail(std::string(what) + ": index " + std::to_string(i) + " of " + std::to_string(c.size()) + " invoked " + std::to_string(c[i].load()) + " times, expected " + std::to_string(k)); return; }
  }
};

// Call f with the same contents presented as different kinds of random access range.
//  0 sequence&  1 const vector&  2 delayed  3 deque
template <typename T, typename F>
void with_range(unsigned kind, const std::vector<T>& v, F&& f) {
  switch (kind % 4) {
    case 0: { auto s = parlay::sequence<T>(v.begin(), v.end()); f(s); break; }
    case 1: f(v); break;
    case 2: { auto d = parlay::delayed_tabulate(v.size(), [p = v.data()](size_t i) -> T { return p[i]; }); f(d); break; }
    case 3: { std::deque<T> d(v.begin(), v.end()); f(d); break; }
  }
}
inline const char* range_kind(unsigned k) { static const char* n[] = {"sequence", "vector", "delayed", "deque"}; return n[k % 4]; }

}  // namespace vt
#endif
