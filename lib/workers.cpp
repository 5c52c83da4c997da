// Number of workers of a case for back ends that do not read PARLAY_NUM_THREADS
#if defined(PARLAY_OPENMP)
#include <omp.h>
extern "C" void pbt_set_workers(int n) { omp_set_num_threads(n); }
#elif defined(PARLAY_TBB)
#include <tbb/global_control.h>
extern "C" void pbt_set_workers(int n) { static tbb::global_control* c = new tbb::global_control(tbb::global_control::max_allowed_parallelism, (size_t)n); (void)c; }
#endif
