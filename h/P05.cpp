#include "algos.h"
using namespace al;
namespace {
template <typename T, int Part> void det(Gen& g, const char* type) {
  int which = Part + NP * (int)g.below(NALGO / NP); Ctx c = ctx(g, g.thorough ? 120000 : 30000); Dig dummy; const char* nm = algo<T, Part>(which, c, dummy, true);
  int w1 = g.pick({1, 1, 2, 5}), w2 = g.pick({2, 3, 4, 8, 8, 13, 16}); u64 s2 = g.seed(), s3 = g.seed(); unsigned j2 = g.pick({0u, 1u, 2u}); bool jobs = g.chance(4);
  g.desc << nm << " of " << type << " with " << w1 << " and " << w2 << " workers" << (jobs ? " beside other work " : " ") << describe(c); g.ready(); g.label(nm); g.mark(c.n > 1 && w1 != w2);
  auto once = [&](int w, u64 s, unsigned j, bool beside) { Dig d; set_jitter(s, j); parlay::execute_with_scheduler((unsigned)w, [&] {
      if (beside) parlay::par_do([&] { algo<T, Part>(which, c, d); }, [&] { parlay::parallel_for(0, 200, [&](size_t i) { u64 x = mix(s + i); for (int k = 0; k < 300; k++) x = mix(x); volatile u64 y = x; (void)y; }, 1); });
      else algo<T, Part>(which, c, d); }); return d; };
  Dig a = once(w1, c.sd, 0, false), b = once(w2, s2, j2, jobs); CHECK(a.v == b.v, nm, w1, w2, diff(a, b));
  Dig e = once(w2, s3, 1, false); CHECK(a.v == e.v, nm, w1, w2, "third run", diff(a, e));
}
}
#define A_(K, T) PBT_SUB(algos##K, 500, 6000, 60, F_NONE) { det<T, K>(g, #T); }
#if PART == 0
A_(0, vt::Small)
#elif PART == 1
A_(1, vt::Small)
#elif PART == 2
A_(2, vt::Small)
#elif PART == 3
A_(3, vt::Small)
#elif PART == 4
A_(4, vt::Small)
#elif PART == 5
A_(5, vt::Small)
#elif PART == 6
A_(0, vt::Tracked)
#elif PART == 7
A_(1, vt::Tracked)
#elif PART == 8
A_(2, vt::Tracked)
#elif PART == 9
A_(3, vt::Tracked)
#elif PART == 10
A_(4, vt::Tracked)
#elif PART == 11
A_(5, vt::Tracked)
#endif
