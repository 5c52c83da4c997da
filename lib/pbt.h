// Generated-input engine: choice-sequence generators, forked execution, shrinking, replay, evidence.
// The supervisor is single threaded; all code under test runs in forked children.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <atomic>
#include <algorithm>
#include <initializer_list>

namespace pbt {

using u64 = uint64_t;

inline u64 mix(u64 x) {  // splitmix64
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
  u64 below(u64 b) { return b ? next() % b : next(); }
};

struct Fail { std::string msg; };
struct Discard {};

// Thread-safe failure report for code that runs inside parallel callbacks (no exception crosses the scheduler).
void soft_fail(const std::string& msg);
bool soft_failed();

constexpr size_t MAX_CHOICES = 1 << 16;

// Source of choices. Everything random in a case comes from here.
class Gen {
 public:
  bool replay;
  const u64* in; size_t in_n;
  Rng rng;
  u64* out; std::atomic<uint32_t>* out_n;
  size_t pos = 0;
  std::ostringstream desc;
  bool nontrivial = false;
  std::vector<std::string> labels;
  int workers = 0;       // number of parlay workers of this child
  bool thorough = false;

  Gen(bool replay_, const u64* in_, size_t in_n_, u64 seed, u64* out_, std::atomic<uint32_t>* out_n_)
    : replay(replay_), in(in_), in_n(in_n_), rng(seed), out(out_), out_n(out_n_) {}

  // The primitive: a value in [0,bound) (bound 0: any u64); sampler gives the distribution in random mode.
  template <typename S>
  u64 choose(u64 bound, S&& sampler) {
    u64 v;
    if (replay) {
      v = pos < in_n ? in[pos] : 0;
      if (bound && v >= bound) v %= bound;
    } else {
      v = sampler(rng);
      if (bound && v >= bound) v %= bound;
    }
    if (pos < MAX_CHOICES) { out[pos] = v; pos++; out_n->store((uint32_t)pos, std::memory_order_release); }
    return v;
  }
  u64 below(u64 bound) { return choose(bound, [&](Rng& r) { return r.below(bound); }); }
  u64 any64() {  // biased towards extremes and small values
    return choose(0, [&](Rng& r) -> u64 {
      switch (r.below(6)) {
        case 0: return r.below(16);
        case 1: return ~u64(0) - r.below(16);
        case 2: { u64 k = r.below(64); return (u64(1) << k) + r.below(3) - 1; }
        case 3: { u64 k = r.below(64); return r.next() >> k; }
        default: return r.next();
      }
    });
  }
  int64_t range(int64_t lo, int64_t hi) { return (int64_t)((u64)lo + below((u64)hi - (u64)lo + 1)); }
  bool coin() { return below(2) == 1; }
  bool chance(unsigned percent) { return choose(2, [&](Rng& r) -> u64 { return r.below(100) < percent; }) == 1; }
  template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  u64 seed() { return choose(0, [&](Rng& r) { return r.next(); }); }
  // weighted choice: index i with weight w[i]
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned tot = 0; for (auto x : w) tot += x;
    return (size_t)choose(w.size(), [&](Rng& r) -> u64 {
      u64 t = r.below(tot); u64 i = 0;
      for (auto x : w) { if (t < x) return i; t -= x; i++; }
      return 0; });
  }
  // A length in [0,max]: small, around the given thresholds, or log-uniform.
  size_t len(size_t max, std::initializer_list<size_t> thresholds = {}) {
    return (size_t)choose(max + 1, [&](Rng& r) -> u64 {
      u64 k = r.below(100), v;
      if (k < 12) v = r.below(5);
      else if (k < 35) v = r.below(48);
      else if (k < 65 && thresholds.size() > 0) {
        u64 t = *(thresholds.begin() + r.below(thresholds.size()));
        u64 mult = r.below(4) == 0 ? 1 + r.below(4) : 1;
        v = t * mult + r.below(5); v = v >= 2 ? v - 2 : 0;
      } else {
        // log uniform
        unsigned bits = 1; while ((size_t(1) << bits) <= max && bits < 63) bits++;
        u64 b = r.below(bits + 1);
        v = b == 0 ? 0 : ((u64(1) << (b - 1)) + r.below(u64(1) << (b - 1)));
      }
      return v > max ? r.below(max + 1) : v;
    });
  }
  void label(const std::string& s) { labels.push_back(s); }
  // Publish the description of the case, so that it is known even when the call that follows crashes.
  char* desc_out = nullptr;
  void ready() { if (desc_out) { std::string s = desc.str(); size_t k = std::min<size_t>(8000, s.size()); memcpy(desc_out, s.data(), k); desc_out[k] = 0; } }
  void mark(bool nt = true) { nontrivial = nontrivial || nt; }
  void discard() { throw Discard{}; }
};

#define PBT_CAT_(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT_(a, b)

// Fail on the main thread of a case.
#define CHECK(cond, ...) do { if (!(cond)) { std::ostringstream o_; o_ << #cond << "  " << __FILE__ << ":" << __LINE__ << "  "; ::pbt::put(o_, ##__VA_ARGS__); throw ::pbt::Fail{o_.str()}; } } while (0)
// Report from anywhere.
// Uses of names that are internal to the library: left out if a file does not compile with them (check.py), so that renaming one is no violation.
#ifdef VERIF_NO_INTERNAL
#define INTERNAL_ONLY(...)
#else
#define INTERNAL_ONLY(...) __VA_ARGS__
#endif
#define SOFT(cond, ...) do { if (!(cond)) { std::ostringstream o_; o_ << #cond << "  " << __FILE__ << ":" << __LINE__ << "  "; ::pbt::put(o_, ##__VA_ARGS__); ::pbt::soft_fail(o_.str()); } } while (0)
inline void put(std::ostringstream&) {}
template <typename T, typename... A> void put(std::ostringstream& o, const T& t, const A&... a) { o << t << " "; put(o, a...); }

struct Sub {
  const char* name;
  size_t quick, thorough;     // number of cases
  double case_timeout;        // seconds
  void (*fn)(Gen&);
  int flags;                  // see below
};
enum { F_NONE = 0, F_SINGLE = 1 /* harness manages threads itself: worker count fixed to 1 */,
       F_MANY = 2 /* oversubscription wanted: include larger worker counts */,
       F_SERIAL = 4 /* run one child at a time */,
       F_FRESH = 8 /* every case in a process of its own, from its start to its exit */ };
void register_sub(const Sub&);
struct Registrar { Registrar(const Sub& s) { register_sub(s); } };

#define PBT_SUB(NAME, QUICK, THOROUGH, TIMEOUT, FLAGS)                                  \
  static void PBT_CAT(sub_, NAME)(::pbt::Gen&);                                         \
  static ::pbt::Registrar PBT_CAT(reg_, NAME)([] { using namespace ::pbt; return ::pbt::Sub{#NAME, QUICK, THOROUGH, TIMEOUT, PBT_CAT(sub_, NAME), FLAGS}; }()); \
  static void PBT_CAT(sub_, NAME)([[maybe_unused]] ::pbt::Gen& g)

// ------------------------------------------------------------------ array generators

// n values in [lo,hi]; the shape is chosen; small arrays draw each element so that they shrink well.
inline std::vector<int64_t> ints(Gen& g, size_t n, int64_t lo, int64_t hi, std::string* shape_out = nullptr) {
  std::vector<int64_t> v(n);
  if (n <= 24) {
    for (auto& x : v) x = g.range(lo, hi);
    if (shape_out) *shape_out = "explicit";
    return v;
  }
  static const char* names[] = {"uniform", "few", "equal", "sorted", "reversed", "runs", "mostly", "outlier", "organ", "skew", "mod"};
  size_t shape = g.below(11);
  Rng r(g.seed());
  u64 span = (u64)hi - (u64)lo + 1;
  auto U = [&]() -> int64_t { return (int64_t)((u64)lo + (span ? r.below(span) : r.next())); };
  switch (shape) {
    case 0: for (auto& x : v) x = U(); break;
    case 1: { u64 k = 1 + r.below(6); std::vector<int64_t> c(k); for (auto& y : c) y = U(); for (auto& x : v) x = c[r.below(k)]; break; }
    case 2: { int64_t c = U(); for (auto& x : v) x = c; break; }
    case 3: for (auto& x : v) x = U(); std::sort(v.begin(), v.end()); break;
    case 4: for (auto& x : v) x = U(); std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); break;
    case 5: { size_t i = 0; while (i < n) { int64_t c = U(); size_t l = 1 + r.below(r.below(3) == 0 ? 3000 : 9); while (l-- && i < n) v[i++] = c; } break; }
    case 6: for (auto& x : v) x = U(); std::sort(v.begin(), v.end()); for (size_t k = 0; k < 1 + n / 100; k++) std::swap(v[r.below(n)], v[r.below(n)]); break;
    case 7: { int64_t c = U(); for (auto& x : v) x = c; size_t m = 1 + r.below(3); while (m--) v[r.below(4) == 0 ? (r.below(2) ? 0 : n - 1) : r.below(n)] = U(); break; }
    case 8: for (size_t i = 0; i < n; i++) { size_t j = i < n - i ? i : n - i; v[i] = (int64_t)((u64)lo + (span ? j % span : j)); } break;
    case 9: { int64_t c = U(); for (auto& x : v) { u64 k = r.below(10); x = k < 7 ? c : U(); } break; }
    case 10: { u64 m = 1 + r.below(n); for (size_t i = 0; i < n; i++) { u64 q = i % m; v[i] = (int64_t)((u64)lo + (span ? q % span : q)); } break; }
  }
  if (shape_out) *shape_out = names[shape];
  return v;
}

// boolean flags with interesting shapes
inline std::vector<char> flags(Gen& g, size_t n) {
  std::vector<char> v(n, 0);
  if (n <= 24) { for (auto& x : v) x = (char)g.below(2); return v; }
  size_t shape = g.below(7);
  Rng r(g.seed());
  switch (shape) {
    case 0: for (auto& x : v) x = r.below(2); break;
    case 1: break;
    case 2: std::fill(v.begin(), v.end(), 1); break;
    case 3: { size_t m = 1 + r.below(4); while (m--) v[r.below(3) == 0 ? (r.below(2) ? 0 : n - 1) : r.below(n)] = 1; break; }
    case 4: { std::fill(v.begin(), v.end(), 1); size_t m = 1 + r.below(4); while (m--) v[r.below(3) == 0 ? (r.below(2) ? 0 : n - 1) : r.below(n)] = 0; break; }
    case 5: { size_t i = 0; bool b = r.below(2); while (i < n) { size_t l = 1 + r.below(r.below(2) ? 2500 : 6); while (l-- && i < n) v[i++] = b; b = !b; } break; }
    case 6: { u64 p = 1 + r.below(3000); for (size_t i = 0; i < n; i++) v[i] = (i % p == p - 1); break; }
  }
  return v;
}

template <typename C> std::string show(const C& c, size_t limit = 24) {
  std::ostringstream o; o << "["; size_t i = 0;
  for (auto const& x : c) { if (i) o << ","; if (i++ >= limit) { o << "..."; break; } o << +x; }
  o << "]"; return o.str();
}

// Timing perturbation to be called from user callbacks: spins / yields / sleeps according to its seed.
void jitter(u64 key);
void set_jitter(u64 seed, unsigned percent);

const std::string& tmp_dir();   // scratch directory of this run
int main_(int argc, char** argv);

}  // namespace pbt
#endif
