#include <cstdlib>
#include <cstddef>
#include <new>
#include <atomic>
#if PART < 8
#include "seqm.h"
using namespace sm;
namespace {
template <typename S> void balanced(Gen& g, const char* type, size_t maxn) {
  long live0 = vt::Tracked::live.load(), con0 = Heap::constructed.load(); size_t heap0 = Heap::live.size();
  history<S>(g, type, maxn);
  CHECK(vt::Tracked::live.load() == live0, type, vt::Tracked::live.load() - live0, "elements too many (or too few) are alive after the sequences are destroyed"); CHECK(Heap::constructed.load() == con0, type, "constructed minus destroyed", Heap::constructed.load() - con0); CHECK(Heap::live.size() == heap0, type, Heap::live.size() - heap0, "buffers were not given back");
}
}
#define H(NAME, MAXN, ...) PBT_SUB(NAME, 2500, 25000, 30, F_NONE) { balanced<__VA_ARGS__>(g, #__VA_ARGS__, MAXN); }
#endif
#if PART == 0
H(tracked, 3000, parlay::sequence<vt::Tracked>)
#elif PART == 1
H(tracked_alloc, 3000, parlay::sequence<vt::Tracked, CAlloc<vt::Tracked>>)
#elif PART == 2
H(tracked_construct, 3000, parlay::sequence<vt::Tracked, CAllocC<vt::Tracked>>)
#elif PART == 3
H(strings, 2000, parlay::sequence<std::string, CAlloc<std::string>>)
#elif PART == 4
H(moveonly, 2000, parlay::sequence<vt::MoveOnly, CAlloc<vt::MoveOnly>>)
#elif PART == 5
H(unique, 2000, parlay::sequence<std::unique_ptr<int64_t>, CAlloc<std::unique_ptr<int64_t>>>)
#elif PART == 6
H(nested, 2000, parlay::sequence<parlay::sequence<int>, CAlloc<parlay::sequence<int>>>)
#elif PART == 7
H(chars, 3000, parlay::sequence<char, CAllocC<char>, true>)
#else
#include "algos.h"
using namespace al;
extern std::atomic<long> heap_bytes, heap_blocks;   // lib/heap.cpp
namespace { template <typename T, int Part> void algo_case(Gen& g, const char* type) {
  int which = Part + NP * (int)g.below(NALGO / NP); Ctx c = ctx(g, g.thorough ? 60000 : 18000); Dig dummy; const char* nm = algo<T, Part>(which, c, dummy, true);
  g.desc << nm << " of " << type << " " << describe(c); g.ready(); g.label(nm); g.mark(c.n > 1); set_jitter(c.sd, c.jit);
  Dig dd; dd.v.reserve(40 * c.n + 5000); long live0 = vt::Tracked::live.load(); { Dig warm; Ctx w = c; w.n = 0; w.k.clear(); w.k2.clear(); w.fl.clear(); algo<T, Part>(which, w, warm); }   // allocators and static tables are created on first use
  // Memory that a call keeps for later (a new thread's id node, popped nodes that are still protected) is kept once, not by every call: a leak shows again when the call is repeated.
  long b0 = 0, k0 = 0, b1 = 0, k1 = 0;
  for (int tries = 0; tries < 5; tries++) { dd.v.clear(); b0 = heap_bytes; k0 = heap_blocks; algo<T, Part>(which, c, dd); b1 = heap_bytes; k1 = heap_blocks; if (dd.v.size() > 40 * c.n + 5000) return;
    CHECK(vt::Tracked::live.load() == live0, nm, vt::Tracked::live.load() - live0, "elements too many (or too few) are alive afterwards"); if (b1 == b0 && k1 == k0) return; }
  if (which == 76 || which == 77) return;   // block allocators keep a pool and the stack retired nodes, by design, how much varies from run to run (P07 bounds the pool, P28 checks that the nodes go)
  CHECK(b1 == b0 && k1 == k0, nm, "keeps", b1 - b0, "bytes in", k1 - k0, "blocks, every time");
} }
#define A_(K, T) PBT_SUB(algos##K, 700, 7000, 60, F_NONE) { algo_case<T, K>(g, #T); }
#if PART == 8
A_(0, vt::Tracked)
#elif PART == 9
A_(1, vt::Tracked)
#elif PART == 10
A_(2, vt::Tracked)
#elif PART == 11
A_(3, vt::Tracked)
#elif PART == 12
A_(4, vt::Tracked)
#elif PART == 13
A_(5, vt::Tracked)
#endif
#endif
