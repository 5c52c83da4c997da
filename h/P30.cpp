// WorkerSpecific: one object per worker.
#include "pbt.h"
#include <mutex>
#include <set>
#include <parlay/parallel.h>
#include <parlay/worker_specific.h>
#include <parlay/primitives.h>
using namespace pbt;
namespace {
struct Obj { static inline std::atomic<long> live{0}, made{0}; size_t idx; u64 sum = 0; std::vector<u64> got; Obj() : Obj(12345) {} explicit Obj(size_t i) : idx(i) { live++; made++; } Obj(const Obj&) = delete; ~Obj() { live--; } };
struct alignas(128) Wide { size_t idx = 7; u64 sum = 0; char c[200] = {}; };
template <typename T, typename W> void use(Gen& g, W& ws, size_t p, size_t n, long gran, bool cons, u64 sd, const std::function<bool(size_t, T&)>& init) {
  const W& cw = ws; CHECK((size_t)(ws.end() - ws.begin()) == p, "objects", (size_t)(ws.end() - ws.begin()), "workers", p); CHECK((size_t)(cw.end() - cw.begin()) == p);
  std::vector<T*> addr; size_t i = 0; for (T& x : ws) { CHECK((uintptr_t)&x % alignof(T) == 0); CHECK(init(i, x), "object", i, "was not initialised for its worker"); addr.push_back(&x); i++; } CHECK(i == p, i, p);
  { std::set<T*> s(addr.begin(), addr.end()); CHECK(s.size() == p, "objects are shared"); for (size_t k = 0; k + 1 < p; k++) CHECK((char*)addr[k] + sizeof(T) <= (char*)addr[k + 1], "objects overlap"); }
  { std::vector<T*> b; ws.for_each([&](T& x) { b.push_back(&x); }); CHECK(b == addr, "for_each visits something else"); }
  std::atomic<u64> want{0}; u64 expect = 0; for (size_t k = 0; k < n; k++) expect += mix(sd + k) + (k % 3 == 0 ? 2 * (mix(sd ^ k) & 0xff) : 0);
  parlay::parallel_for(0, n, [&](size_t k) { size_t id = parlay::worker_id(); T& x = k % 2 ? *ws : ws.get(); if (&x != addr[id]) soft_fail("get() is not the object of the executing worker"); if (&cw.get() != &x || &*cw != &x || &cw->sum != &x.sum || &ws->sum != &x.sum) soft_fail("const access gives another object"); x.sum += mix(sd + k); jitter(k);
    if (k % 3 == 0) parlay::par_do([&] { ws->sum += mix(sd ^ k) & 0xff; jitter(k + 1); }, [&] { (*ws).sum += mix(sd ^ k) & 0xff; }, cons); }, gran, cons);
  u64 tot = 0; for (auto& x : ws) tot += x.sum; CHECK(tot == expect, "lost updates", tot, expect); tot = 0; for (auto& x : cw) tot += x.sum; CHECK(tot == expect); u64 viaslice = parlay::reduce(parlay::delayed_tabulate(p, [&](size_t k) { return ws.begin()[k].sum; })); CHECK(viaslice == expect);
  if (p > 0) for (int r = 0; r < 20; r++) { std::ptrdiff_t a = (std::ptrdiff_t)g.below(p + 1), b = (std::ptrdiff_t)g.below(p + 1); auto x = ws.begin() + a, y = ws.begin() + b; CHECK(y - x == b - a); CHECK((x < y) == (a < b) && (x <= y) == (a <= b) && (x == y) == (a == b) && (x != y) == (a != b) && (x > y) == (a > b) && (x >= y) == (a >= b)); auto z = x; z += b - a; CHECK(z == y); z -= b - a; CHECK(z == x); CHECK(y - (b - a) == x && x + (b - a) == y); if (a < (std::ptrdiff_t)p) { CHECK(&*x == addr[(size_t)a]); CHECK(&ws.begin()[(size_t)a] == addr[(size_t)a]); auto q = x++; CHECK(q - ws.begin() == a && x - ws.begin() == a + 1); q = x--; CHECK(q - ws.begin() == a + 1 && x - ws.begin() == a); ++x; --x; CHECK(x - ws.begin() == a); } typename W::const_iterator cx = x; CHECK(cx - cw.begin() == a); if (a < (std::ptrdiff_t)p) CHECK(&*cx == addr[(size_t)a]); auto s = x, t = y; swap(s, t); CHECK(s == y && t == x); }
}
}
PBT_SUB(worker, 4000, 40000, 30, F_MANY) {
  size_t p = g.chance(30) ? 0 : 1 + g.below(g.thorough ? 40 : 16), n = g.len(g.thorough ? 20000 : 4000); long gran = g.pick<long>({0, 1, 1, 7}); bool cons = g.chance(20); unsigned jit = g.pick({0u, 1u, 5u}); if (n > 1000) jit = std::min(jit, 1u); u64 sd = g.seed(); int form = (int)g.below(6);
  static const char* nm[] = {"default int-like", "constructor with index", "constructor without argument", "lvalue constructor", "over-aligned", "constructor called once per worker"}; g.label(nm[form]); g.desc << "WorkerSpecific " << nm[form] << " p=" << p << " n=" << n << " workers=" << g.workers; g.ready(); g.mark(n > 1); set_jitter(sd, jit);
  auto body = [&] { size_t q = parlay::num_workers(); if (p) CHECK(q == p);
    long live0 = Obj::live;
    switch (form) {
      case 0: { parlay::WorkerSpecific<Obj> ws; use<Obj>(g, ws, q, n, gran, cons, sd, [](size_t, Obj& o) { return o.idx == 12345 && o.sum == 0; }); CHECK(Obj::live == live0 + (long)q); break; }
      case 1: { parlay::WorkerSpecific<Obj> ws([&](size_t i) { return Obj(i + 100); }); use<Obj>(g, ws, q, n, gran, cons, sd, [](size_t i, Obj& o) { return o.idx == i + 100; }); break; }
      case 2: { parlay::WorkerSpecific<Obj> ws([] { return Obj(55); }); use<Obj>(g, ws, q, n, gran, cons, sd, [](size_t, Obj& o) { return o.idx == 55; }); break; }
      case 3: { std::vector<size_t> off{3, 1, 4}; auto f = [off](size_t i) { return Obj(off[i % 3] * 1000 + i); }; parlay::WorkerSpecific<Obj> ws(f); off.clear(); use<Obj>(g, ws, q, n, gran, cons, sd, [](size_t i, Obj& o) { size_t w[] = {3, 1, 4}; return o.idx == w[i % 3] * 1000 + i; }); break; }
      case 4: { parlay::WorkerSpecific<Wide> ws; use<Wide>(g, ws, q, n, gran, cons, sd, [](size_t, Wide& o) { return o.idx == 7 && o.sum == 0; }); break; }
      case 5: { std::vector<std::atomic<int>> calls(q); long made = Obj::made; { parlay::WorkerSpecific<Obj> ws([&](size_t i) { if (i < q) calls[i]++; else soft_fail("constructed for a worker that does not exist"); return Obj(i); }); CHECK(Obj::made == made + (long)q); for (size_t i = 0; i < q; i++) CHECK(calls[i] == 1, i, calls[i].load()); use<Obj>(g, ws, q, n, gran, cons, sd, [](size_t i, Obj& o) { return o.idx == i; }); } break; }
    }
    CHECK(Obj::live == live0, "objects left", Obj::live - live0); };
  if (p) parlay::execute_with_scheduler((unsigned)p, body); else body();
}
