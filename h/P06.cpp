// Programs whose own functions are race-free, under ThreadSanitizer.
#if PART < 6
#include "algos.h"
#include <thread>
using namespace al;
namespace { template <typename T, int Part> void race_case(Gen& g, const char* type) {
  int which = Part + NP * (int)g.below(NALGO / NP); Ctx c = ctx(g, g.thorough ? 40000 : 10000); Dig dummy; const char* nm = algo<T, Part>(which, c, dummy, true); u64 s1 = g.seed(); unsigned j = g.pick({0u, 1u, 3u});
  g.desc << nm << " of " << type << " " << describe(c); g.ready(); g.label(nm); g.mark(c.n > 1); set_jitter(s1, j); Dig d; algo<T, Part>(which, c, d); } }
// Independent calls on several user threads: nothing in the library is shared behind their backs.
namespace { template <typename T, int Part> void threads_case(Gen& g) {
  size_t K = 2 + g.below(3); std::vector<Ctx> c; std::vector<int> w; for (size_t i = 0; i < K; i++) { w.push_back(Part + NP * (int)g.below(NALGO / NP)); c.push_back(ctx(g, 3000)); } if (g.coin()) w[1] = w[0]; Dig dummy; for (size_t i = 0; i < K; i++) g.desc << (i ? "; " : "on user threads: ") << algo<T, Part>(w[i], c[i], dummy, true) << " " << c[i].n; g.ready(); g.mark(); set_jitter(g.seed(), g.pick({0u, 1u}));
  std::vector<std::thread> th; std::vector<Dig> d(K); for (size_t i = 0; i < K; i++) th.emplace_back([&, i] { algo<T, Part>(w[i], c[i], d[i]); }); for (auto& x : th) x.join(); } }
#define A_(K, T) PBT_SUB(algos##K, 300, 3000, 90, F_MANY) { race_case<T, K>(g, #T); } PBT_SUB(threads##K, 50, 600, 90, F_NONE) { threads_case<T, K>(g); }
#if PART == 0
A_(0, vt::Small)
#elif PART == 1
A_(1, vt::Small)
#elif PART == 2
A_(2, vt::Small)
#elif PART == 3
A_(3, vt::Small)
#elif PART == 4
A_(4, vt::Small)
#elif PART == 5
A_(5, vt::Small)
#endif
#endif
