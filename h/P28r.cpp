// The lock-free stack on real threads that come and go.
#include "pbt.h"
#include <thread>
#include <parlay/internal/concurrency/hazptr_stack.h>
using namespace pbt;
namespace { struct V { u64 x; std::unique_ptr<u64> p; explicit V(u64 v) : x(v), p(new u64(v)) {} }; }
PBT_SUB(traffic, 1200, 15000, 60, F_SINGLE) {
  size_t T = 1 + g.below(8), S = 1 + g.below(3), rounds = 1 + g.below(3), n = g.len(3000); unsigned mix_ = (unsigned)g.pick({50, 50, 30, 70, 95}), jit = g.pick({0u, 0u, 1u, 5u}); u64 seed = g.seed(); set_jitter(seed, jit); g.desc << T << " threads x " << rounds << " rounds, " << S << " stacks, " << n << " operations each, " << mix_ << "% pushes, delays " << jit; g.ready(); g.mark(T > 1 && n > 1);
  { std::vector<parlay::internal::hazptr_stack<V>> st(S); std::vector<std::atomic<int>> seen(T * rounds * n); std::vector<std::atomic<long>> pushed(S), popped(S); for (auto& x : pushed) x = 0; for (auto& x : popped) x = 0;
    for (size_t r = 0; r < rounds; r++) { std::vector<std::thread> th; for (size_t t = 0; t < T; t++) th.emplace_back([&, t] { Rng q(pbt::mix(seed + t * 977 + r)); std::vector<u64> last(S, ~0ull); for (size_t i = 0; i < n; i++) { size_t s = q.below(S); u64 id = (r * T + t) * n + i; if (q.below(100) < mix_) { st[s].push(V(id)); pushed[s]++; jitter(id); } else { auto v = st[s].pop(); if (v) { popped[s]++; if (!v->p || *v->p != v->x || v->x >= seen.size()) { soft_fail("popped a value that was never pushed"); return; } if (seen[v->x]++) { soft_fail("value popped twice"); return; } } jitter(id); if (i % 16 == 0) { (void)st[s].empty(); if (st[s].size() > T * rounds * n) { soft_fail("size out of range"); return; } } } } }); for (auto& x : th) x.join();
      for (size_t s = 0; s < S; s++) { SOFT((long)st[s].size() == pushed[s] - popped[s], "size", st[s].size(), "pushed", pushed[s].load(), "popped", popped[s].load()); SOFT(st[s].empty() == (st[s].size() == 0)); } }
    for (size_t s = 0; s < S; s++) { if (s % 2) continue; long k = 0; u64 prev = 0; (void)prev; while (auto v = st[s].pop()) { k++; SOFT(!seen[v->x]++, "value popped twice"); } SOFT(k == pushed[s] - popped[s], "drained", k); } }
}
