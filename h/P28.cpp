// The lock-free stack and its memory reclamation under controlled interleavings.
#define CTL_MAIN
#include "ctl.h"
#include <parlay/internal/concurrency/hazptr_stack.h>
using namespace pbt;
namespace {
long live = 0, made = 0, gone = 0;   // one thread runs at a time
struct Val { int id; int* heap; unsigned magic = 0x600d; explicit Val(int i) : id(i), heap(new int(i)) { live++; made++; } Val(Val&& o) noexcept : id(o.id), heap(std::exchange(o.heap, nullptr)) { SOFT(o.magic == 0x600d, "value moved out of a dead object"); live++; made++; } Val(const Val&) = delete; Val& operator=(Val&&) = delete; ~Val() { SOFT(magic == 0x600d, "value destroyed twice"); magic = 0xdead; delete heap; live--; gone++; } int get() const { SOFT(magic == 0x600d && heap, "value read after it died or moved away"); return heap ? *heap : -1; } };
using Stack = parlay::internal::hazptr_stack<Val>;
enum Kind { PUSH, POP, SIZE, EMPTY, CLEAR };
struct Op { Kind k; int val = -1; long res = -1; u64 from = 0, to = 0; };
const char* kname(Kind k) { const char* n[] = {"push", "pop", "size", "empty", "clear"}; return n[k]; }
// Is there an order of the operations that explains every result and respects real time?
struct Lin { std::vector<Op>& o; std::unordered_set<std::string> seen; u64 budget = 400000;
  bool go(u64 done, std::vector<int>& st) {
    if (done == (o.size() == 64 ? ~0ull : (1ull << o.size()) - 1)) return true; if (!budget--) return true;
    std::string key((const char*)&done, 8); key.append((const char*)st.data(), st.size() * 4); if (!seen.insert(key).second) return false;
    u64 first_end = ~0ull; for (size_t i = 0; i < o.size(); i++) if (!(done >> i & 1)) first_end = std::min(first_end, o[i].to);
    for (size_t i = 0; i < o.size(); i++) if (!(done >> i & 1) && o[i].from <= first_end) { Op& x = o[i];
      switch (x.k) {
        case PUSH: st.push_back(x.val); if (go(done | 1ull << i, st)) return true; st.pop_back(); break;
        case POP: if (x.res < 0) { if (st.empty() && go(done | 1ull << i, st)) return true; } else if (!st.empty() && st.back() == x.res) { st.pop_back(); if (go(done | 1ull << i, st)) return true; st.push_back((int)x.res); } break;
        case SIZE: if ((long)st.size() == x.res && go(done | 1ull << i, st)) return true; break;
        case EMPTY: if ((long)st.empty() == x.res && go(done | 1ull << i, st)) return true; break;
        case CLEAR: if (st.empty()) { if (go(done | 1ull << i, st)) return true; } else { int v = st.back(); st.pop_back(); if (go(done, st)) return true; st.push_back(v); } break; } }
    return false; } };
// Brings this thread's list of retired nodes to a known state: w retired since the last scan.
void warm(size_t w) { ctl::Quiet q; Stack s; for (int k = 0; k < 200; k++) { s.push(Val(0)); long before = live; { auto v = s.pop(); } if (live < before) break; } for (size_t i = 0; i < w; i++) { s.push(Val(0)); s.pop(); } }
}
PBT_SUB(history, 12000, 150000, 60, F_SINGLE) {
  size_t T = 1 + g.below(4), init = g.below(5); std::vector<std::vector<Op>> prog(T); std::vector<size_t> w(T); int next = 1; size_t total = 0;
  for (size_t t = 0; t < T; t++) { size_t n = g.below(7); w[t] = g.chance(60) ? 25 + g.below(5) : g.below(30); int style = (int)g.below(4); for (size_t i = 0; i < n; i++) { Kind k = (Kind)(style == 0 ? g.below(2) : style == 1 ? (i % 2 ? PUSH : POP) : g.weighted({6, 6, 2, 1, 1})); prog[t].push_back({k, k == PUSH ? next++ : -1}); total++; } }
  g.desc << init << " values;"; for (size_t t = 0; t < T; t++) { g.desc << " thread " << t << " (" << w[t] << " retired):"; for (auto& o : prog[t]) g.desc << " " << kname(o.k) << (o.k == PUSH ? std::to_string(o.val) : ""); g.desc << ";"; }
  auto cfg = ctl::config(g, 60); cfg.describe(g.desc); g.ready(); g.mark(T > 1 && total > 2); if (cfg.tso) g.label("store buffers");
  std::vector<Op> all; u64 clock = 1; ctl::Stats cs{};
  parlay::my_thread_id(); ctl::line_up(6, [] { return parlay::my_thread_id(); });
  { auto s = std::make_unique<Stack>();
    cs = ctl::run(cfg, [&] {
      { ctl::Quiet q; for (size_t i = 0; i < init; i++) { Op o{PUSH, 1000 + (int)i}; o.from = clock++; s->push(Val(o.val)); o.to = clock++; all.push_back(o); } }
      auto body = [&](size_t t) { warm(w[t]); for (auto& o : prog[t]) { ctl::point(); o.from = clock++; switch (o.k) { case PUSH: s->push(Val(o.val)); break; case POP: { auto v = s->pop(); o.res = v ? v->get() : -1; break; } case SIZE: o.res = (long)s->size(); break; case EMPTY: o.res = s->empty(); break; case CLEAR: s->clear(); break; } o.to = clock++; } };
      std::vector<std::thread> th; for (size_t t = 1; t < T; t++) th.emplace_back(body, t); body(0); for (auto& x : th) x.join();
      for (auto& p : prog) for (auto& o : p) all.push_back(o);
      ctl::Quiet q; Op z{SIZE}; z.from = clock++; z.res = (long)s->size(); z.to = clock++; all.push_back(z); size_t left = (size_t)z.res; SOFT(left < 60, "size", left);
      for (size_t i = 0; i <= std::min<size_t>(left, 60); i++) { Op o{POP}; o.from = clock++; auto v = s->pop(); o.res = v ? v->get() : -1; o.to = clock++; all.push_back(o); }
      warm(0);
    }); }
  Lin l{all, {}}; std::vector<int> st; bool ok = l.go(0, st);
  if (!ok) { std::string h; for (auto& o : all) h += std::string(" ") + kname(o.k) + (o.k == PUSH ? std::to_string(o.val) : o.k == CLEAR ? "" : "=" + std::to_string(o.res)) + "[" + std::to_string(o.from) + "," + std::to_string(o.to) + "]"; SOFT(false, "history is not linearizable:", h); }
  SOFT(live >= 0 && live < 2000, "nodes pile up:", live); if (cs.switches > 6) g.label("more than 6 switches");
}
// Reclamation alone, with nodes that know whether they are dead.
namespace {
struct Obj { Obj* next = nullptr; int state = 1; long kept = 0; friend Obj* intrusive_get_next(Obj* o) { return o->next; } friend void intrusive_set_next(Obj* o, Obj* n) { o->next = n; } };
struct Del { void operator()(Obj* o) { SOFT(o->state == 2, "deleted", o->state == 1 ? "without being retired" : "twice"); SOFT(o->kept == 0, "deleted while", o->kept, "threads hold it"); o->state = 3; } };
}
PBT_SUB(reclaim, 12000, 150000, 60, F_SINGLE) {
  using AR = parlay::internal::intrusive_acquire_retire<Obj, Del>;
  size_t T = 1 + g.below(4), cells = 1 + g.below(3); struct St { int kind; size_t cell; size_t n; }; std::vector<std::vector<St>> prog(T); g.desc << cells << " cells;"; for (size_t t = 0; t < T; t++) { size_t n = 1 + g.below(6); for (size_t i = 0; i < n; i++) { St s{(int)g.weighted({4, 4, 2}), g.below(cells), s.kind == 2 ? 24 + g.below(9) : g.below(4)}; prog[t].push_back(s); g.desc << (s.kind == 0 ? " hold" : s.kind == 1 ? " replace" : " churn") << s.cell << "x" << s.n; } g.desc << ";"; }
  auto cfg = ctl::config(g, 100); cfg.describe(g.desc); g.ready(); g.mark(T > 1); if (cfg.tso) g.label("store buffers");
  parlay::my_thread_id(); ctl::line_up(6, [] { return parlay::my_thread_id(); });
  std::deque<Obj> pool; std::vector<std::atomic<Obj*>> cell(cells); size_t retired = 0, dead_early = 0;
  ctl::run(cfg, [&] {
    auto fresh = [&] { pool.emplace_back(); return &pool.back(); };
    { AR ar; for (auto& c : cell) c.store(fresh());
      auto body = [&](size_t t) { for (auto& s : prog[t]) { auto& c = cell[s.cell]; switch (s.kind) {
        case 0: { Obj* p = ar.acquire(c); SOFT(p->state == 1 || p->state == 2, "acquired an object that is already deleted"); p->kept++; for (size_t k = 0; k < s.n; k++) ctl::point(); SOFT(p->state != 3, "object deleted while held"); p->kept--; ar.release(); break; }
        case 1: { Obj* n = fresh(); Obj* o = c.exchange(n); SOFT(o->state == 1); o->state = 2; retired++; ar.retire(o); break; }
        case 2: { for (size_t k = 0; k < s.n; k++) { Obj* n = fresh(); Obj* o; if (k % 3 == 0) o = c.exchange(n); else o = n; o->state = 2; retired++; if (k + 3 < s.n) { ctl::Quiet q; ar.retire(o); } else ar.retire(o); } break; } } } };
      std::vector<std::thread> th; for (size_t t = 1; t < T; t++) th.emplace_back(body, t); body(0); for (auto& x : th) x.join();
      for (auto& o : pool) dead_early += o.state == 3; }
    size_t dead = 0; for (auto& o : pool) { SOFT(o.state != 2, "a retired object was never deleted"); dead += o.state == 3; } SOFT(dead == retired, "deleted", dead, "retired", retired); });
  if (dead_early) g.label("deleted before the end");
}
