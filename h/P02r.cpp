// The scheduler on real threads: forks and joins after everything has gone to sleep, and branches that need each other.
#include "pbt.h"
#include <thread>
#include <mutex>
#include <map>
#include <fstream>
#include <parlay/parallel.h>
#include <dirent.h>
#include <sys/syscall.h>
using namespace pbt;
namespace {
// every other thread of this process is blocked for good: state S and no context switch for a while
std::map<int, long> snapshot(bool& all) { std::map<int, long> m; all = true; int self = (int)syscall(SYS_gettid); DIR* d = opendir("/proc/self/task"); while (dirent* e = readdir(d)) { int tid = atoi(e->d_name); if (!tid || tid == self) continue; std::ifstream f("/proc/self/task/" + std::to_string(tid) + "/status"); std::string l; long sw = 0; char st = '?'; while (std::getline(f, l)) { if (l.rfind("State:", 0) == 0) st = l[7]; if (l.find("ctxt_switches:") != std::string::npos) sw += atol(l.c_str() + l.find(':') + 1); } if (st != 'S') all = false; m[tid] = sw; } closedir(d); return m; }
bool await_sleep() { for (int k = 0; k < 60; k++) { bool a = false, b = false; auto x = snapshot(a); usleep(4000); auto y = snapshot(b); if (a && b && x == y) { usleep(3000); auto z = snapshot(b); if (b && z == y) return true; } } return false; }
// the other branch must be picked up by another worker for this to return
bool handshake(bool swap) { std::atomic<int> seen{0}; bool ok = true; auto wait = [&] { auto t0 = std::chrono::steady_clock::now(); while (!seen.load()) { std::this_thread::yield(); if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(25)) { ok = false; return; } } }; auto set = [&] { seen = 1; }; (void)swap; parlay::par_do(wait, set); return ok; }
struct Tree { std::vector<std::atomic<int>> h; explicit Tree(size_t n) : h(n) {} };
void grow(Tree& t, size_t i, u64 shape, bool cons) { if (i >= t.h.size()) return; t.h[i]++; jitter(shape + i); bool c = cons && pbt::mix(shape + i) % 4 == 0; parlay::par_do([&] { grow(t, 2 * i + 1, shape, cons); }, [&] { grow(t, 2 * i + 2, shape, cons); }, c); }
void comb(Tree& t, size_t i, bool left) { if (i >= t.h.size()) return; if (left) parlay::par_do([&] { comb(t, i + 1, left); }, [&] { t.h[i]++; }); else parlay::par_do([&] { t.h[i]++; }, [&] { comb(t, i + 1, left); }); }
}
PBT_SUB(sleepers, 160, 2500, 100, F_NONE) {   // idle times around the time after which workers go to sleep (10 ms)
  unsigned P = 2 + (unsigned)g.below(g.thorough ? 15 : 9); size_t k = 1 + g.below(5); struct St { int kind; int idle; u64 arg; }; std::vector<St> st; g.desc << P << " workers:"; for (size_t i = 0; i < k; i++) { St s{(int)g.below(4), g.pick({0, 1, 9, 10, 11, 15}), g.below(400)}; st.push_back(s); g.desc << " " << s.idle << "ms/" << (s.kind == 0 ? "handshake" : s.kind == 1 ? "tree" : s.kind == 2 ? "loop" : "nothing") << s.arg; } set_jitter(g.seed(), g.pick({0u, 0u, 5u})); g.ready(); g.mark(true);
  size_t label_asleep = 0; parlay::execute_with_scheduler(P, [&] { for (auto& s : st) { if (s.idle) usleep((unsigned)s.idle * 1000 + (unsigned)(s.arg % 7) * 100); switch (s.kind) { case 0: if (await_sleep()) { label_asleep++; SOFT(handshake(false), "a forked task was not picked up by any of the other idle workers"); } break; case 1: { Tree t(s.arg); grow(t, 0, s.arg, true); for (size_t i = 0; i < s.arg; i++) SOFT(t.h[i] == 1, "task", i, "ran", t.h[i].load(), "times"); break; } case 2: { Tree t(s.arg); parlay::parallel_for(0, s.arg, [&](size_t i) { t.h[i]++; jitter(i); }, (long)(s.arg % 3)); for (size_t i = 0; i < s.arg; i++) SOFT(t.h[i] == 1, "index", i, "ran", t.h[i].load(), "times"); break; } default: break; } } });
  if (label_asleep) g.label("handshake with sleeping workers");
}
PBT_SUB(storm, 1500, 20000, 60, F_NONE) {   // many tiny tasks: pops race with steals on nearly empty queues
  unsigned P = 2 + (unsigned)g.below(7); size_t n = g.len(5000); int kind = (int)g.below(4); size_t reps = 1 + g.below(6); bool cons = g.chance(20); set_jitter(g.seed(), g.pick({0u, 0u, 1u, 5u})); g.desc << P << " workers, " << reps << " x " << (kind == 0 ? "balanced tree" : kind == 1 ? "comb leaning left" : kind == 2 ? "comb leaning right" : "loop") << " of " << n << (cons ? " conservative" : ""); if (kind == 1 || kind == 2) n = n % 700; g.ready(); g.mark(n > 1);
  parlay::execute_with_scheduler(P, [&] { for (size_t r = 0; r < reps; r++) { Tree t(n); switch (kind) { case 0: grow(t, 0, n + r, cons); break; case 1: comb(t, 0, true); break; case 2: comb(t, 0, false); break; case 3: parlay::parallel_for(0, n, [&](size_t i) { t.h[i]++; }, 1, cons); break; } for (size_t i = 0; i < n; i++) SOFT(t.h[i].load(std::memory_order_relaxed) == 1, "task", i, "ran", t.h[i].load(), "times"); } });
}
PBT_SUB(locks, 300, 3000, 60, F_NONE) {   // a conservative join inside a user's lock: nothing else may be run by the waiting thread
  unsigned P = 2 + (unsigned)g.below(7); size_t n = 1 + g.below(60), m = 1 + g.below(8); set_jitter(g.seed(), g.pick({0u, 1u, 5u})); g.desc << P << " workers, " << n << " tasks take a lock and fork " << m << " conservatively inside it"; g.ready(); g.mark(n > 1);
  parlay::execute_with_scheduler(P, [&] { std::mutex mu; size_t total = 0; std::atomic<size_t> inner{0}; parlay::parallel_for(0, n, [&](size_t i) { std::lock_guard<std::mutex> l(mu); total++; parlay::par_do([&] { inner++; jitter(i); }, [&] { inner++; jitter(i + 7); }, true); (void)m; }, 1, true); SOFT(total == n && inner == 2 * n, "totals", total, inner.load()); });
}
