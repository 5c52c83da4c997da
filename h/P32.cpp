// write_add, write_min, write_max on one location under controlled interleavings; every history must have a sequential explanation.
#define CTL_MAIN
#include "ctl.h"
#include <parlay/utilities.h>
using namespace pbt;
namespace {
enum Kind { ADD, MIN, MAX, LOAD, STORE, XCHG, NK };
const char* kname(int k) { const char* n[] = {"add", "min", "max", "load", "store", "exchange"}; return n[k]; }
struct alignas(8) KV { int k; int v; friend bool operator==(const KV& a, const KV& b) { return a.k == b.k && a.v == b.v; } }; inline std::ostream& operator<<(std::ostream& o, const KV& a) { return o << a.k << "/" << a.v; } inline KV operator+(KV a, KV b) { return {a.k + b.k, a.v + b.v}; }
template <typename T> std::string txt(const T& x) { std::ostringstream o; if constexpr (sizeof(T) == 1) o << (int)x; else o << x; return o.str(); }
template <typename T> struct Op { int k; T arg{}, res{}; bool took = false; u64 from = 0, to = 0; };
template <typename T> bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <typename T, typename L> struct Lin { const std::vector<Op<T>>& o; T final; L less; size_t calls = 0;
  bool go(u64 done, T v) { if (done == (1ull << o.size()) - 1) return same(v, final); if (++calls > 300000) return true; u64 fe = ~0ull; for (size_t i = 0; i < o.size(); i++) if (!(done >> i & 1)) fe = std::min(fe, o[i].to);
    for (size_t i = 0; i < o.size(); i++) if (!(done >> i & 1) && o[i].from <= fe) { auto& x = o[i]; T n = v; bool ok = true; switch (x.k) { case ADD: n = (T)(v + x.arg); break; case MIN: { bool t = less(x.arg, v); ok = t == x.took; if (t) n = x.arg; break; } case MAX: { bool t = less(v, x.arg); ok = t == x.took; if (t) n = x.arg; break; } case LOAD: ok = same(x.res, v); break; case STORE: n = x.arg; break; case XCHG: ok = same(x.res, v); n = x.arg; break; } if (ok && go(done | 1ull << i, n)) return true; }
    return false; } };
template <typename T, typename L, typename V, typename EV> void drive(Gen& g, const char* tname, L less, V val, EV add_arg) {
  size_t T_ = 2 + g.below(3); std::vector<std::vector<Op<T>>> prog(T_); int style = (int)g.below(5); size_t tot = 0; T init = val(); g.desc << tname << " " << txt(init) << ";"; std::vector<std::vector<std::decay_t<decltype(add_arg(T{}))>>> ev(T_);
  for (size_t t = 0; t < T_; t++) { size_t n = 1 + g.below(3); for (size_t i = 0; i < n; i++) { int k = style == 0 ? ADD : style == 1 ? MIN : style == 2 ? MAX : style == 3 ? (int)g.below(3) : (int)g.weighted({3, 3, 3, 1, 1, 1}); Op<T> o{k, val()}; ev[t].push_back(add_arg(o.arg)); if (k == ADD) o.arg = (T)ev[t].back(); prog[t].push_back(o); tot++; g.desc << " " << kname(k) << " " << txt(o.arg); } g.desc << ";"; }
  auto cfg = ctl::config(g, 30); cfg.describe(g.desc); g.ready(); g.mark(true); g.label(tname);
  std::vector<Op<T>> all; T fin{}; u64 clock = 1; std::atomic<T> cell(init);
  ctl::run(cfg, [&] { auto body = [&](size_t t) { size_t i = 0; for (auto& o : prog[t]) { ctl::point(); o.from = clock++; switch (o.k) { case ADD: parlay::write_add(&cell, ev[t][i]); break; case MIN: o.took = parlay::write_min(&cell, o.arg, less); break; case MAX: o.took = parlay::write_max(&cell, o.arg, less); break; case LOAD: o.res = cell.load(); break; case STORE: cell.store(o.arg); break; case XCHG: o.res = cell.exchange(o.arg); break; } o.to = clock++; i++; } };
    std::vector<std::thread> th; for (size_t t = 1; t < T_; t++) th.emplace_back(body, t); body(0); for (auto& x : th) x.join(); fin = cell.load(); });
  for (auto& p : prog) for (auto& o : p) all.push_back(o); Lin<T, L> l{all, fin, less};
  if (!l.go(0, init)) { std::string h; for (auto& o : all) h += std::string(" ") + kname(o.k) + " " + txt(o.arg) + (o.k == MIN || o.k == MAX ? (o.took ? "=true" : "=false") : o.k == LOAD || o.k == XCHG ? "=" + txt(o.res) : "") + "[" + std::to_string(o.from) + "," + std::to_string(o.to) + "]"; SOFT(false, "no order of the updates explains final value", txt(fin), "and results:", h); }
}
}
PBT_SUB(history, 60000, 800000, 30, F_SINGLE) {
  switch (g.below(10)) {
    case 0: drive<int>(g, "int", std::less<int>(), [&] { return (int)g.below(6) - 2; }, [](int x) { return x; }); break;
    case 1: drive<unsigned char>(g, "uchar", std::less<>(), [&] { return (unsigned char)g.pick({0, 1, 2, 127, 128, 255}); }, [](unsigned char x) { return (long)x + 256; }); break;
    case 2: drive<long>(g, "long", std::greater<long>(), [&] { return g.pick<long>({LONG_MIN, -1, 0, 1, 5, LONG_MAX / 4, 7}) / 8; }, [](long x) { return (short)x; }); break;
    case 3: drive<double>(g, "double", std::less<double>(), [&] { return g.pick({-1e300, -0.0, 0.0, 0.5, 1.0, 1e16, 3.0}); }, [](double x) { return x < -1e200 ? 0.25 : x; }); break;
    case 4: drive<float>(g, "float", std::less<float>(), [&] { return g.pick({-2.5f, 0.0f, 0.5f, 1.0f, 16777216.0f}); }, [](float x) { return x; }); break;
    case 5: drive<KV>(g, "key/value", [](const KV& a, const KV& b) { return a.k < b.k; }, [&] { return KV{(int)g.below(3), (int)g.below(4)}; }, [](KV x) { return x; }); break;
    case 6: drive<int>(g, "int by absolute value", [](int a, int b) { return std::abs(a) < std::abs(b); }, [&] { return (int)g.below(7) - 3; }, [](int x) { return (double)x; }); break;
    case 7: drive<unsigned long>(g, "ulong", std::less<>(), [&] { return g.pick<unsigned long>({0, 1, ~0ul, ~0ul - 1, 1ul << 63}); }, [](unsigned long x) { return x; }); break;
    case 8: drive<short>(g, "short", std::greater<>(), [&] { return (short)g.pick({-32768, -1, 0, 1, 32767}); }, [](short x) { return (signed char)x; }); break;
    case 9: drive<bool>(g, "bool", std::less<>(), [&] { return g.coin(); }, [](bool x) { return x; }); break;
  }
}
