// Order independence: the tasks of every loop and fork as coroutines of one thread, in any order and exchanged at any fork, join or user call (lib/fj).
#include "algos.h"
#include "fj/fj.h"
using namespace al;
namespace { template <typename T, int Part> void fj_case(Gen& g, const char* type) {
  int which = Part + NP * (int)g.below(NALGO / NP); Ctx c = ctx(g, g.thorough ? 120000 : 30000); Dig dummy; const char* nm = algo<T, Part>(which, c, dummy, true); u64 s1 = g.seed(), s2 = g.seed(); int m1 = (int)g.below(3), m2 = 1 + (int)g.below(2);
  g.desc << nm << " of " << type << " one after the other, and twice with tasks exchanged (" << m1 << "," << m2 << ") " << describe(c); g.ready(); g.label(nm);
  Dig a; algo<T, Part>(which, c, a); size_t t = 0;
  auto once = [&](u64 s, int m) { Dig d; fj::set_workers(1 + (int)(s % 9)); fj::begin(s, m); algo<T, Part>(which, c, d); t += fj::tasks(); fj::end(); CHECK(a.v == d.v, nm, "tasks exchanged", m, diff(a, d)); };
  once(s1, m1); once(s2, m2); g.mark(t > 0); if (t > 200) g.label("more than 200 tasks"); } }
#define F_(K) PBT_SUB(order##K, 500, 8000, 60, F_SINGLE) { fj_case<vt::Small, K>(g, "Small"); }
#if PART == 0
F_(0)
#elif PART == 1
F_(1)
#elif PART == 2
F_(2)
#elif PART == 3
F_(3)
#elif PART == 4
F_(4)
#elif PART == 5
F_(5)
#endif
