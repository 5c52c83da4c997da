// Determinacy races: every pair of accesses that no fork or join orders, whatever the schedule (lib/fj).
#include "algos.h"
#include "fj/fj.h"
using namespace al;
namespace { template <typename T, int Part> void fj_case(Gen& g, const char* type) {
  int which = Part + NP * (int)g.below(NALGO / NP); if (which >= 74 && which <= 77) { g.discard(); return; }   // per-worker objects: logically parallel tasks may share one
  Ctx c = ctx(g, g.thorough ? 30000 : 8000); Dig dummy; const char* nm = algo<T, Part>(which, c, dummy, true); u64 s1 = g.seed(); int mode = (int)g.below(3);
  g.desc << nm << " of " << type << " tasks exchanged " << (mode == 0 ? "at joins " : mode == 1 ? "at forks and joins " : "at forks, joins and in user functions ") << describe(c); g.ready(); g.label(nm);
  Dig d; fj::set_workers(1 + (int)(s1 % 9)); fj::begin(s1, mode); algo<T, Part>(which, c, d); size_t t = fj::tasks(); fj::end(); g.mark(t > 0); if (t > 100) g.label("more than 100 tasks"); } }
#define F_(K) PBT_SUB(order##K, 300, 3000, 60, F_SINGLE) { fj_case<vt::Small, K>(g, "Small"); }
#if PART == 0
F_(0)
#elif PART == 1
F_(1)
#elif PART == 2
F_(2)
#elif PART == 3
F_(3)
#elif PART == 4
F_(4)
#elif PART == 5
F_(5)
#endif
