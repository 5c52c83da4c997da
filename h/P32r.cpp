// write_add, write_min, write_max from parallel loops and free-running threads.
#include "pbt.h"
#include <thread>
#include <parlay/parallel.h>
#include <parlay/utilities.h>
using namespace pbt;
namespace {
template <typename T, typename V> void drive(Gen& g, const char* name, V val) {
  size_t n = g.len(20000), cells = 1 + g.below(4); bool threads = g.chance(30); int rev = (int)g.below(2); u64 seed = g.seed(); std::vector<T> in(n); for (size_t i = 0; i < n; i++) in[i] = val(pbt::mix(seed + i)); g.desc << n << " updates of " << cells << " cells of " << name << (threads ? " from threads" : " from a loop") << (rev ? " reversed order" : ""); g.ready(); g.mark(n > 1);
  struct alignas(64) C { std::atomic<T> add, mn, mx; }; std::vector<C> c(cells); T init = val(seed); for (auto& x : c) { x.add = 0; x.mn = init; x.mx = init; } std::vector<std::vector<T>> took(2); std::vector<char> tmin(n), tmax(n); auto less = [rev](const T& a, const T& b) { return rev ? b < a : a < b; };
  auto f = [&](size_t i) { auto& x = c[i % cells]; parlay::write_add(&x.add, in[i]); tmin[i] = parlay::write_min(&x.mn, in[i], less); tmax[i] = parlay::write_max(&x.mx, in[i], less); };
  if (threads) { std::vector<std::thread> th; for (size_t t = 0; t < 6; t++) th.emplace_back([&, t] { for (size_t i = t; i < n; i += 6) f(i); }); for (auto& t : th) t.join(); } else parlay::parallel_for(0, n, f, 1);
  for (size_t k = 0; k < cells; k++) { T s = 0, mn = init, mx = init; std::map<T, int> nmin, nmax; bool any = false; (void)any; for (size_t i = k; i < n; i += cells) { s = (T)(s + in[i]); if (less(in[i], mn)) mn = in[i]; if (less(mx, in[i])) mx = in[i]; if (tmin[i]) nmin[in[i]]++; if (tmax[i]) nmax[in[i]]++; }
    SOFT(c[k].add == s, "sum", +c[k].add.load(), "expected", +s); SOFT(c[k].mn == mn, "minimum", +c[k].mn.load(), "expected", +mn); SOFT(c[k].mx == mx, "maximum", +c[k].mx.load(), "expected", +mx);
    for (auto& x : nmin) { SOFT(x.second == 1, "two updates to the same minimum took effect"); SOFT(less(x.first, init), "an update that is not smaller took effect"); } for (auto& x : nmax) { SOFT(x.second == 1, "two updates to the same maximum took effect"); SOFT(less(init, x.first)); }
    if (less(mn, init)) SOFT(nmin.count(mn) == 1, "nobody was told that the final minimum took effect"); if (less(init, mx)) SOFT(nmax.count(mx) == 1, "nobody was told that the final maximum took effect"); }
}
}
PBT_SUB(parallel, 1500, 20000, 40, F_MANY) {
  size_t span = g.pick<size_t>({3, 10, 1000, 1000000}); switch (g.below(6)) { case 0: drive<int>(g, "int", [=](u64 h) { return (int)(h % span) - (int)(span / 2); }); break; case 1: drive<long>(g, "long", [](u64 h) { return (long)(h >> 8); }); break; case 2: drive<double>(g, "double", [=](u64 h) { return (double)(h % span); }); break; case 3: drive<unsigned char>(g, "uchar", [](u64 h) { return (unsigned char)h; }); break; case 4: drive<unsigned long>(g, "ulong", [](u64 h) { return h; }); break; case 5: drive<float>(g, "float", [](u64 h) { return (float)(h % 512); }); break; }
}
