// Worker ids and scheduler instances.
#include "pbt.h"
#include <thread>
#include <mutex>
#include <set>
#include <map>
#include <dirent.h>
#include <parlay/parallel.h>
#include <parlay/primitives.h>
using namespace pbt;
namespace {
int os_threads() { int n = 0; DIR* d = opendir("/proc/self/task"); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
void await_threads(int want) {
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
  return;   // it has a thread of its own
#endif
#endif
  int n = 0; for (int k = 0; k < 4000; k++) { n = os_threads(); if (n <= want) return; usleep(500); } CHECK(n <= want, "threads left behind:", n, "expected", want); }
// On one scheduler an id belongs to one thread for good, and different threads have different ids.
struct Ids { size_t p; std::vector<std::atomic<u64>> who; explicit Ids(size_t p_) : p(p_), who(p_) { for (auto& w : who) w = 0; }
  static u64 me() { static std::atomic<u64> next{1}; static thread_local u64 mine = next++; return mine; }
  void see() { size_t id = parlay::worker_id(); if (parlay::num_workers() != p) { soft_fail("num_workers() is " + std::to_string(parlay::num_workers()) + " inside a scheduler of " + std::to_string(p)); return; } if (id >= p) { soft_fail("worker_id() out of range"); return; } u64 z = 0; if (!who[id].compare_exchange_strong(z, me()) && z != me()) soft_fail("two threads have worker id " + std::to_string(id)); }
  void distinct() { std::set<u64> s; for (auto& w : who) { u64 v = w; if (v) CHECK(s.insert(v).second, "one thread has two ids"); } } };
void work(Ids& ids, size_t n, long gran, bool cons) { parlay::parallel_for(0, n, [&](size_t i) { ids.see(); jitter(i); if (i % 5 == 0) parlay::par_do([&] { ids.see(); }, [&] { ids.see(); jitter(i + 1); }, cons); ids.see(); }, gran, cons); }
struct Spec { int p; size_t n; long gran; bool cons; std::vector<Spec> kids; bool in_task; };
Spec spec(Gen& g, int depth) { Spec s; s.p = (int)(g.chance(80) ? 1 + g.below(6) : 1 + g.below(g.thorough ? 40 : 20)); s.n = g.len(300); s.gran = g.pick<long>({0, 1, 1, 3}); s.cons = g.chance(20); s.in_task = g.coin(); size_t k = depth ? g.below(3) : 0; for (size_t i = 0; i < k; i++) s.kids.push_back(spec(g, depth - 1)); return s; }
int depth_of(const Spec& s) { int d = 0; for (auto& k : s.kids) d = std::max(d, depth_of(k)); return d + 1; }
int count_of(const Spec& s) { int d = 1; for (auto& k : s.kids) d += count_of(k); return d; }
void go(const Spec& s) {
  parlay::execute_with_scheduler((unsigned)s.p, [&] { Ids ids((size_t)s.p); ids.see(); SOFT(parlay::worker_id() == 0, "creator has id", parlay::worker_id()); work(ids, s.n, s.gran, s.cons);
    if (s.in_task) parlay::parallel_for(0, s.kids.size(), [&](size_t i) { size_t id = parlay::worker_id(), nw = parlay::num_workers(); ids.see(); go(s.kids[i]); ids.see(); SOFT(parlay::worker_id() == id && parlay::num_workers() == nw, "after a nested scheduler", parlay::worker_id(), id); }, 1);
    else for (auto& k : s.kids) { go(k); ids.see(); work(ids, s.n / 2, s.gran, s.cons); }
    work(ids, s.n, 1, s.cons); ids.distinct(); });
}
}
PBT_SUB(instances, 2500, 20000, 40, F_NONE) {   // trees of schedulers
  Spec s = spec(g, (int)g.below(4)); unsigned jit = g.pick({0u, 1u, 5u}); set_jitter(g.seed(), jit); g.desc << "schedulers: " << count_of(s) << " nested to depth " << depth_of(s) << ", first of " << s.p << " workers, delays " << jit; g.ready(); g.mark(count_of(s) > 1 || s.p > 1);
  size_t nw = parlay::num_workers(), id = parlay::worker_id(); int before = os_threads(); go(s); CHECK(parlay::num_workers() == nw && parlay::worker_id() == id, "surrounding scheduler", parlay::num_workers(), parlay::worker_id()); Ids ids(nw); work(ids, 100, 1, false); await_threads(before);
}
PBT_SUB(threads, 1200, 10000, 40, F_NONE) {   // several user threads, each with its own schedulers
  size_t k = 1 + g.below(4); std::vector<Spec> s; std::vector<int> own; for (size_t i = 0; i < k; i++) { s.push_back(spec(g, (int)g.below(2))); own.push_back((int)g.below(3)); } set_jitter(g.seed(), g.pick({0u, 1u, 5u})); g.desc << k << " user threads with their own schedulers"; g.ready(); g.mark(k > 1); size_t nw = parlay::num_workers(); int before = os_threads();
  { std::vector<std::thread> t; for (size_t i = 0; i < k; i++) t.emplace_back([&, i] { if (own[i]) { Ids ids(nw); work(ids, 50, 1, false); go(s[i]); work(ids, 50, 0, false); if (own[i] == 2) { parlay::scheduler<parlay::WorkStealingJob> a(3); Ids x(3); work(x, 60, 1, false); { parlay::scheduler<parlay::WorkStealingJob> b(2); Ids y(2); work(y, 60, 1, false); } work(x, 60, 1, false); } Ids::me(); ids.see(); } else go(s[i]); }); for (auto& x : t) x.join(); }
  await_threads(before);
}
PBT_SUB(churn, 1500, 12000, 40, F_NONE) {   // create and destroy at once, idle for longer or shorter than the time after which workers sleep
  size_t k = 1 + g.below(12); g.desc << k << " schedulers in a row:"; struct St { int p; size_t n; int idle; }; std::vector<St> st; for (size_t i = 0; i < k; i++) { st.push_back({(int)(1 + g.below(10)), g.len(60), g.pick({0, 0, 0, 1, 3, 14})}); g.desc << " " << st[i].p << "/" << st[i].n << "/" << st[i].idle << "ms"; } set_jitter(g.seed(), g.pick({0u, 0u, 5u})); g.ready(); g.mark(k > 1); parlay::num_workers(); int before = os_threads();
  for (auto& s : st) parlay::execute_with_scheduler((unsigned)s.p, [&] { Ids ids((size_t)s.p); work(ids, s.n / 2, 1, false); if (s.idle) usleep((unsigned)s.idle * 1000); work(ids, s.n, 1, false); });
  await_threads(before);
}
