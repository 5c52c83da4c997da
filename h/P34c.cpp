// One build configuration (set by the flags and the renaming macros in checks.py) of one part of the catalogue.
#include "algos.h"
#if defined(PARLAY_OPENMP)
#include <omp.h>
#elif defined(PARLAY_TBB)
#include <tbb/task_arena.h>
#endif
#include "P34.h"
namespace {
void go(int which, const void* cp, int workers, std::vector<int64_t>* out, const char** name) {
  const al::Ctx& c = *(const al::Ctx*)cp; al::Dig d; auto f = [&] { *name = al::algo<vt::Small, PART>(which, c, d, false); };
#if defined(PARLAY_OPENMP)
  omp_set_num_threads(workers); f();
#elif defined(PARLAY_TBB)
  tbb::task_arena arena(workers); arena.execute(f);
#else
  parlay::execute_with_scheduler((unsigned)workers, f);
#endif
  *out = std::move(d.v);
}
struct Reg { Reg() { p34::table().push_back({CFG, PART, go}); } } reg;
}
