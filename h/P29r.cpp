// Thread ids and thread-specific slots of real threads, up to a few hundred.
#include "pbt.h"
#include <thread>
#include <mutex>
#include <parlay/thread_specific.h>
#include <parlay/parallel.h>
#include <parlay/primitives.h>
using namespace pbt;
namespace { struct alignas(64) Cell { std::atomic<int> busy{0}; long n = 0; size_t made_for = 0; std::string text = "fresh"; Cell() = default; explicit Cell(size_t i) : made_for(i) {} Cell(Cell&& o) noexcept : n(o.n), made_for(o.made_for), text(std::move(o.text)) {} }; }
PBT_SUB(crowd, 500, 6000, 60, F_SINGLE | F_FRESH) {
  size_t rounds = 1 + g.below(4); std::vector<size_t> T; for (size_t r = 0; r < rounds; r++) T.push_back(1 + g.len(g.chance(20) ? 150 : 40)); bool together = g.coin(), early = g.coin(); u64 seed = g.seed(); set_jitter(seed, g.pick({0u, 0u, 5u})); size_t peak = 0; g.desc << "rounds of"; for (auto t : T) { g.desc << " " << t; peak = std::max(peak, t); } g.desc << " threads" << (together ? ", alive at once" : "") << (early ? ", store made first" : ""); g.ready(); g.mark(peak > 1);
  std::vector<std::atomic<int>> live(1000); auto ts = early ? std::make_unique<parlay::ThreadSpecific<Cell>>([](size_t i) { return Cell(i); }) : nullptr; std::atomic<long> total{0};
  for (size_t r = 0; r < rounds; r++) { if (!ts && r + 1 == rounds) ts = std::make_unique<parlay::ThreadSpecific<Cell>>([](size_t i) { return Cell(i); }); std::atomic<size_t> in{0}; std::vector<std::thread> th;
    for (size_t t = 0; t < T[r]; t++) th.emplace_back([&, t] { jitter(t); unsigned id = parlay::my_thread_id(); if (id >= live.size() || live[id]++) { soft_fail("id " + std::to_string(id) + " belongs to two live threads"); return; } if (id >= parlay::num_thread_ids()) soft_fail("id out of range"); in++; if (together) while (in < T[r]) std::this_thread::yield();
      if (ts) for (int k = 0; k < 20; k++) { Cell& c = ts->get(); if (c.busy++) soft_fail("two threads in one slot"); if (c.made_for != id) soft_fail("slot " + std::to_string(id) + " made for " + std::to_string(c.made_for)); c.n++; total++; c.text += "x"; if (c.text.size() > 5000) c.text = "fresh"; c.busy--; if (k == 7 && t % 8 == 0) { size_t n = 0, lo = parlay::num_thread_ids(); ts->for_each([&](Cell& d) { if (d.made_for != n) soft_fail("for_each order"); n++; }); if (n < lo) soft_fail("for_each missed slots"); } jitter(t * 31 + (u64)k); }
      if (parlay::my_thread_id() != id) soft_fail("id changed"); live[id]--; });
    for (auto& t : th) t.join(); SOFT(parlay::num_thread_ids() <= peak + 2, "peak", peak, "ids", parlay::num_thread_ids()); }
  long sum = 0; size_t n = 0; for (auto& c : *ts) { sum += c.n; SOFT(c.made_for == n, "order"); n++; } SOFT(sum == total, "updates", sum, total.load()); SOFT(n == parlay::num_thread_ids());
  long rsum = 0; auto e = ts->end(); while (e != ts->begin()) rsum += (*--e).n; SOFT(rsum == total, "backwards", rsum); long msum = parlay::reduce(parlay::delayed_map(*ts, [](const Cell& c) { return c.n; })); SOFT(msum == total, "reduce over the slots", msum); const auto& cts = *ts; long csum = 0; for (auto& c : cts) csum += c.n; SOFT(csum == total); long isum = 0; for (size_t i = 0; i < n; i++) { isum += cts.begin()[i].n; SOFT(&*(cts.end() - (long)(n - i)) == &cts.begin()[i]); } SOFT(isum == total);
}
