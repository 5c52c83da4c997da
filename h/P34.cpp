// Differential: the same call in every build configuration that was compiled in.
#include "algos.h"
#include "P34.h"
using namespace pbt;
namespace {
void one(Gen& g, int part) {
  std::vector<p34::Entry> here; for (auto& e : p34::table()) if (e.part == part) here.push_back(e);
  std::sort(here.begin(), here.end(), [](auto& a, auto& b) { return std::string(a.cfg) < b.cfg; }); if (here.size() < 2) { g.discard(); return; }
  int which = part + al::NP * (int)g.below(al::NALGO / al::NP); al::Ctx c = al::ctx(g, g.thorough ? 120000 : 30000);
  size_t a = 0; for (size_t i = 0; i < here.size(); i++) if (std::string(here[i].cfg) == "base") a = i;
  int w1 = g.pick({1, 2, 5, 8}), w2 = g.pick({1, 2, 3, 4, 8, 13}); size_t b = g.below(here.size() - 1); if (b >= a) b++; std::vector<int64_t> x, y; const char *nm = "?", *nm2 = "?";
  g.desc << "call " << which << " in configurations " << here[a].cfg << " (" << w1 << " workers) and " << here[b].cfg << " (" << w2 << " workers) " << al::describe(c); g.ready(); g.label(here[b].cfg); g.mark(c.n > 1);
  here[a].fn(which, &c, w1, &x, &nm); here[b].fn(which, &c, w2, &y, &nm2); al::Dig dx, dy; dx.v = x; dy.v = y;
  CHECK(x == y, nm, here[a].cfg, here[b].cfg, al::diff(dx, dy));
}
}
#define D_(K) PBT_SUB(same##K, 400, 8000, 60, F_NONE) { one(g, K); }
D_(0) D_(1) D_(2) D_(3) D_(4) D_(5)
