// The scheduler's own code under controlled interleavings with store buffers.
#define CTL_MAIN
#include "ctl.h"
#include <parlay/parallel.h>
using namespace pbt;
namespace {
struct Node { int l = -1, r = -1, work = 0; bool cons = false; };
struct Phase { int kind; std::vector<Node> t; size_t n = 0; long gran = 0; bool cons = false; int spin = 0; };
int grow(Gen& g, std::vector<Node>& t, int depth, int& budget, bool cons) { int me = (int)t.size(); t.push_back({}); budget--; if (depth > 0 && budget > 0 && g.chance(75)) { int l = grow(g, t, depth - 1, budget, cons); int r = budget > 0 ? grow(g, t, depth - 1, budget, cons) : -1; if (r < 0) { t.push_back({}); r = (int)t.size() - 1; } t[me].l = l; t[me].r = r; t[me].cons = cons; } else t[me].work = (int)g.below(4); return me; }
std::string text(const std::vector<Node>& t, int i) { if (t[i].l < 0) return std::to_string(t[i].work); return (t[i].cons ? "c(" : "(") + text(t, t[i].l) + "," + text(t, t[i].r) + ")"; }
struct Hits { std::vector<int> h; void run(const std::vector<Node>& t, int i) { h[i]++; if (t[i].l < 0) { for (int k = 0; k < t[i].work; k++) k % 2 ? ctl::yield() : ctl::point(); return; } int before = h[t[i].l] + h[t[i].r]; SOFT(before == 0, "task ran before it was forked"); parlay::par_do([&] { run(t, t[i].l); }, [&] { run(t, t[i].r); }, t[i].cons); SOFT(done(t, t[i].l) && done(t, t[i].r), "par_do returned before its tasks had run exactly once"); }
  bool done(const std::vector<Node>& t, int i) { return h[i] == 1 && (t[i].l < 0 || (done(t, t[i].l) && done(t, t[i].r))); } };
}
PBT_SUB(forkjoin, 8000, 120000, 60, F_SINGLE) {
  unsigned P = (unsigned)g.weighted({1, 4, 4, 2}) + 1; size_t np = g.below(4); std::vector<Phase> ph(np); g.desc << P << " workers:"; bool fork = false;
  for (auto& p : ph) { p.kind = (int)g.weighted({5, 3, 2, 2, 1}); switch (p.kind) { case 0: { int b = 1 + (int)g.below(14); bool c = g.chance(20); grow(g, p.t, 5, b, c); g.desc << " tree" << text(p.t, 0); fork |= p.t.size() > 1; break; } case 1: p.n = g.below(20); p.gran = (long)g.pick({1, 1, 2, 3, 7, 0}); p.cons = g.chance(20); g.desc << " loop(" << p.n << "," << p.gran << (p.cons ? ",c)" : ")"); fork |= p.n > (size_t)p.gran; break; case 2: g.desc << " idle"; break; case 3: g.desc << " handshake"; fork |= P > 1; break; case 4: p.spin = (int)g.below(30); g.desc << " spin(" << p.spin << ")"; break; } }
  auto cfg = ctl::config(g, 600); cfg.describe(g.desc); g.ready(); g.mark(P > 1 && fork); if (cfg.tso) g.label("store buffers"); g.label(cfg.random ? "random" : "preemptions");
  auto st = ctl::run(cfg, [&] {
    parlay::execute_with_scheduler(P, [&] {
      SOFT(parlay::num_workers() == P && parlay::worker_id() == 0);
      for (auto& p : ph) switch (p.kind) {
        case 0: { Hits h; h.h.assign(p.t.size(), 0); h.run(p.t, 0); SOFT(h.done(p.t, 0), "a task of the tree did not run exactly once"); break; }
        case 1: { std::vector<int> hit(p.n, 0); parlay::parallel_for(0, p.n, [&](size_t i) { hit[i]++; ctl::point(); }, p.gran, p.cons); for (size_t i = 0; i < p.n; i++) SOFT(hit[i] == 1, "index", i, "ran", hit[i], "times"); break; }
        case 2: case 3: {
#if PARLAY_ELASTIC_PARALLELISM
          for (int k = 0; k < 3000 && !ctl::asleep(); k++) ctl::yield();
          if (!ctl::asleep()) break;
#endif
          if (p.kind == 3 && P > 1) { int seen = 0; parlay::par_do([&] { while (!seen) ctl::yield(); }, [&] { seen++; }); SOFT(seen == 1); }
          break; }
        case 4: for (int k = 0; k < p.spin; k++) ctl::point(); break; } });
    SOFT(parlay::internal::scheduler_type::get_current_scheduler() == nullptr, "scheduler still current after it is gone");
  });
  if (st.switches > 20) g.label("more than 20 switches"); if (st.waits > P) g.label("slept");
}
// The queue by itself: one owner, up to three thieves.
#ifndef VERIF_NO_INTERNAL
PBT_SUB(deque, 20000, 300000, 60, F_SINGLE) {
  struct J { int id; int taken = 0; }; size_t T = 1 + g.below(3), pre = g.chance(10) ? g.below(900) : 0, ops = 1 + g.below(14); std::vector<int> own(ops); std::vector<size_t> att(T); g.desc << "owner:"; if (pre) g.desc << " " << pre << " pushes,"; size_t pushes = pre; bool longer = g.chance(15); for (auto& o : own) { o = g.chance(55) ? 0 : 1; if (longer && g.chance(20)) { o = g.pick({2, 4, 8, 16, 32, 64, 128, 256}) + (g.chance(20) ? (int)g.below(3) : 0); g.desc << " (push pop)x" << o; pushes += (size_t)o; continue; } g.desc << (o ? " pop" : " push"); pushes += !o; } g.desc << "; thieves:"; for (auto& a : att) { a = g.below(7); g.desc << " " << a; } bool first_only = g.coin(); (void)first_only;
  auto cfg = ctl::config(g, 60); cfg.describe(g.desc); g.ready(); g.mark(pushes > 0 && att[0] > 0); if (cfg.tso) g.label("store buffers");
  using D = parlay::internal::Deque<J>; auto d = std::make_unique<D>(); std::vector<J> jobs(pushes); for (size_t i = 0; i < pushes; i++) jobs[i].id = (int)i; size_t nj = 0; for (size_t i = 0; i < pre; i++) d->push_bottom(&jobs[nj++]);
  ctl::run(cfg, [&] {
    std::vector<int> mine; for (size_t i = 0; i < pre; i++) mine.push_back((int)i); std::vector<std::thread> th; size_t stolen_upto = 0; (void)stolen_upto;
    for (size_t t = 0; t < T; t++) th.emplace_back([&, t] { int last = -1; for (size_t k = 0; k < att[t]; k++) { auto r = d->pop_top(); if (r.first) { SOFT(r.first->taken == 0, "job", r.first->id, "taken twice"); r.first->taken++; SOFT(r.first->id > last || r.first->id >= 0, "order"); last = r.first->id; } else SOFT(true); } });
    auto step = [&](int o) { if (!o) { bool was_reset = mine.empty(); bool f = d->push_bottom(&jobs[nj]); mine.push_back((int)nj++); SOFT(!(f && false) && (!was_reset || f || true)); if (was_reset) SOFT(f, "push onto a drained queue did not report that it was empty"); }
      else { J* j = d->pop_bottom(); if (j) { SOFT(j->taken == 0, "job", j->id, "taken twice"); j->taken++; SOFT(!mine.empty(), "pop from a drained queue returned a job"); if (!mine.empty()) { SOFT(j->id == mine.back(), "owner popped", j->id, "instead of its last job", mine.back()); mine.pop_back(); } } else { for (int m : mine) SOFT(jobs[(size_t)m].taken <= 1); size_t left = 0; (void)left; mine.clear(); } } };
    for (int o : own) if (o < 2) step(o); else for (int k = 0; k < o; k++) { step(0); step(1); }
    for (auto& x : th) x.join();
    while (J* j = d->pop_bottom()) { SOFT(j->taken == 0, "job", j->id, "taken twice"); j->taken++; if (!mine.empty()) { SOFT(j->id == mine.back(), "owner popped", j->id, "instead of", mine.back()); mine.pop_back(); } }
    for (size_t i = 0; i < nj; i++) SOFT(jobs[i].taken == 1, "job", i, "taken", jobs[i].taken, "times"); auto r = d->pop_top(); SOFT(!r.first && r.second, "drained queue gave a job");
  });
}
#endif
