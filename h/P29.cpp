// Thread ids and thread-specific slots under controlled interleavings, every case in a fresh process.
#define CTL_MAIN
#include "ctl.h"
#include <parlay/thread_specific.h>
using namespace pbt;
namespace {
struct Book {   // one thread runs at a time
  std::map<unsigned, int> live; size_t open = 0, peak = 0;
  void begin() { open++; peak = std::max(peak, open); } void end() { open--; }
  void take(unsigned id, int t) { SOFT(!live.count(id), "thread", t, "was given id", id, "of the live thread", live.count(id) ? live[id] : -1); live[id] = t; SOFT(id < parlay::num_thread_ids(), "id", id, "not below", parlay::num_thread_ids()); }
  void give(unsigned id) { live.erase(id); } };
struct Slot { unsigned made_for; int owner = -1; long uses = 0; bool dead = false; unsigned magic = 0xabcd; };
struct Store {   // what a ThreadSpecific should look like
  std::map<unsigned, std::pair<Slot*, long>> at; std::map<unsigned, int> made; bool param = true;
};
enum { GET, CGET, EACH, ITER, CITER, BACK, JUMP, COUNT, PAUSE, NKIND };
const char* kname(int k) { const char* n[] = {"get", "const-get", "for_each", "iterate", "const-iterate", "backwards", "jump", "count", "pause"}; return n[k]; }
}
PBT_SUB(threads, 6000, 80000, 60, F_SINGLE | F_FRESH) {
  size_t nts = 1 + g.below(2); std::vector<int> ctor(nts); for (auto& c : ctor) c = (int)g.below(3);
  size_t T = 1 + g.weighted({6, 6, 3, 1}) * 3 + g.below(4); struct Th { size_t after; bool joined_before; std::vector<std::pair<int, size_t>> ops; }; std::vector<Th> th(T); g.desc << nts << " stores (constructor";  for (auto c : ctor) g.desc << " " << c; g.desc << ");";
  for (size_t t = 0; t < T; t++) { th[t].after = t && g.chance(50) ? 1 + g.below(t) : 0; size_t n = g.below(6); for (size_t i = 0; i < n; i++) { int k = (int)g.weighted({8, 2, 3, 2, 2, 1, 2, 1, 3}); th[t].ops.push_back({k, g.below(60) * nts + g.below(nts)}); } g.desc << " thread"; if (th[t].after) g.desc << " after joining " << th[t].after - 1; for (auto& o : th[t].ops) g.desc << " " << kname(o.first); g.desc << ";"; }
  auto cfg = ctl::config(g, 80); cfg.describe(g.desc); g.ready(); g.mark(T > 1); if (cfg.tso) g.label("store buffers"); if (T > 4) g.label("more than one chunk"); if (T > 8) g.label("more than two chunks");
  Book book; std::vector<Store> store(nts);
  ctl::run(cfg, [&] {
    using TS = parlay::ThreadSpecific<Slot>; std::vector<std::unique_ptr<TS>> ts; book.begin();
    auto make = [&](size_t s) -> std::unique_ptr<TS> { Store& st = store[s]; if (ctor[s] == 0) return std::make_unique<TS>([&st](std::size_t id) { st.made[(unsigned)id]++; ctl::point(); return Slot{(unsigned)id}; }); if (ctor[s] == 1) return std::make_unique<TS>([] { return Slot{~0u}; }); return std::make_unique<TS>(); };
    for (size_t s = 0; s < nts; s++) ts.push_back(make(s));
    unsigned mine0 = parlay::my_thread_id(); book.take(mine0, -1);
    auto check = [&](size_t s, unsigned id, const Slot& x) { auto& st = store[s]; SOFT(x.magic == 0xabcd, "slot", id, "not constructed"); if (ctor[s] == 0) SOFT(x.made_for == id, "slot", id, "was constructed for", x.made_for); auto it = st.at.find(id); if (it != st.at.end()) { SOFT(it->second.first == &x, "slot", id, "moved"); SOFT(x.uses == it->second.second, "slot", id, "has", x.uses, "updates of", it->second.second); } else SOFT(x.uses == 0, "slot", id, "was changed by somebody else"); for (auto& o : st.at) if (o.first != id) SOFT(o.second.first != &x, "ids", id, "and", o.first, "share a slot"); };
    auto body = [&](int t, std::vector<std::pair<int, size_t>>& ops) {
      bool has = t < 0; unsigned id = mine0;
      for (auto& op : ops) { size_t s = op.second % nts; size_t arg = op.second / nts; TS& x = *ts[s]; const TS& cx = x;
        if (op.first != COUNT && op.first != PAUSE && !has) { id = parlay::my_thread_id(); has = true; book.take(id, t); }
        switch (op.first) {
          case GET: { Slot& a = x.get(); ctl::Quiet q; SOFT(parlay::my_thread_id() == id, "id changed"); check(s, id, a); a.uses++; a.owner = t; store[s].at[id] = {&a, a.uses}; SOFT(&*x == &a && x.operator->() == &a); break; }
          case CGET: { const Slot& a = *cx; ctl::Quiet q; check(s, id, a); store[s].at[id] = {const_cast<Slot*>(&a), a.uses}; break; }
          case EACH: { size_t lo = parlay::num_thread_ids(), n = 0; std::set<const Slot*> seen; x.for_each([&](Slot& a) { ctl::Quiet q; SOFT(seen.insert(&a).second, "for_each visited a slot twice"); check(s, (unsigned)n, a); n++; }); size_t hi = parlay::num_thread_ids(); SOFT(n >= lo && n <= hi, "for_each visited", n, "slots of", lo, "to", hi); break; }
          case ITER: case CITER: { size_t lo = parlay::num_thread_ids(), n = 0; std::set<const Slot*> seen; auto f = [&](const Slot& a) { ctl::Quiet q; SOFT(seen.insert(&a).second, "iteration visited a slot twice"); check(s, (unsigned)n, a); n++; }; if (op.first == ITER) for (Slot& a : x) f(a); else for (const Slot& a : cx) f(a); size_t hi = parlay::num_thread_ids(); SOFT(n >= lo && n <= hi, "iteration visited", n, "slots of", lo, "to", hi); break; }
          case BACK: { auto b = cx.begin(), e = cx.end(); size_t n = (size_t)(e - b), k = n; while (e != b) { --e; ctl::Quiet q; check(s, (unsigned)--k, *e); } SOFT(k == 0, "backwards"); break; }
          case JUMP: { auto b = x.begin(), e = x.end(); long n = e - b; if (n <= 0) { SOFT(false, "empty"); break; } long i = (long)arg % n, j = (long)(arg * 7 + 3) % n; auto p = b + i; { ctl::Quiet q; check(s, (unsigned)i, *p); check(s, (unsigned)j, b[(size_t)j]); } p += j - i; { ctl::Quiet q; check(s, (unsigned)j, *p); } p -= j - i; SOFT(p - b == i && e - p == n - i && p - e == i - n && (b + n) == e && (e - n) == b, "distances", i, j, n); SOFT((p < e) && (b <= p) && !(e < p) && (i == 0) == (p == b)); auto q1 = p - i; SOFT(q1 == b); auto q2 = p; ++q2; --q2; SOFT(q2 == p); { ctl::Quiet q; check(s, (unsigned)i, *q2); } break; }
          case COUNT: SOFT(parlay::num_thread_ids() >= 1); break;
          case PAUSE: for (size_t k = 0; k <= arg % 6; k++) ctl::point(); break; } }
      if (has && t >= 0) { SOFT(parlay::my_thread_id() == id, "id changed"); book.give(id); }
    };
    std::vector<std::thread> run(T); std::vector<bool> joined(T, false); auto join = [&](size_t t) { if (!joined[t]) { run[t].join(); joined[t] = true; ctl::Quiet q; book.end(); } };
    for (size_t t = 0; t < T; t++) { if (th[t].after) join(th[t].after - 1); book.begin(); run[t] = std::thread([&, t] { body((int)t, th[t].ops); }); }
    for (size_t t = 0; t < T; t++) join(t);
    SOFT(parlay::num_thread_ids() <= book.peak, "at most", book.peak, "threads were alive, but there are", parlay::num_thread_ids(), "ids");
    std::vector<std::pair<int, size_t>> all; for (size_t s = 0; s < nts; s++) { all.push_back({EACH, s}); all.push_back({CITER, s}); all.push_back({BACK, s}); all.push_back({JUMP, 17 * nts + s}); } body(-1, all);
    for (auto& st : store) for (auto& m : st.made) SOFT(m.second == 1, "slot", m.first, "constructed", m.second, "times");
  });
}
