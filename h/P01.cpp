// Parallel loops and forks: every index (block, branch) exactly once, nothing else, and finished when the call returns.
#include "pbt.h"
#include <mutex>
#include <memory>
#include <parlay/parallel.h>
#include <parlay/primitives.h>
#include "lin.h"
#ifndef PART
#define PART 0
#endif
using namespace pbt;
namespace {
// What the body does: counts are plain bytes (a repeated index races and shows up as a count, too), results are plain words.
struct Log {
  size_t base, n; std::vector<unsigned char> cnt; std::vector<u64> res; std::atomic<size_t> in{0}, out{0}, stray{0}; u64 sd; unsigned jit;
  Log(size_t base_, size_t n_, u64 sd_, unsigned jit_) : base(base_), n(n_), cnt(n_, 0), res(n_, 0), sd(sd_), jit(jit_) {}
  void hit(size_t i) { in.fetch_add(1, std::memory_order_relaxed); if (jit) jitter(sd + i); size_t k = i - base; if (k >= n) { stray++; } else { __atomic_fetch_add(&cnt[k], (unsigned char)(__atomic_load_n(&cnt[k], __ATOMIC_RELAXED) < 200), __ATOMIC_RELAXED); res[k] = mix(sd ^ k); } out.fetch_add(1, std::memory_order_relaxed); }
  void check(const char* what) {
    size_t a = in.load(), b = out.load(); CHECK(a == b, what, "returned with running bodies:", a, b); CHECK(stray == 0, what, "ran", stray.load(), "indices outside the range");
    for (size_t k = 0; k < n; k++) { CHECK(cnt[k] == 1, what, "index", k, "ran", (int)cnt[k], "times"); CHECK(res[k] == mix(sd ^ k), what, "the write of index", k, "is not visible"); }
  }
};
struct Node { int kind; size_t n, bs; long gran; bool cons; std::vector<std::unique_ptr<Node>> kids; std::vector<u64> slot; std::unique_ptr<std::atomic<int>[]> runs; };
int total_nodes;
std::unique_ptr<Node> tree(Gen& g, int depth) {
  auto t = std::make_unique<Node>(); total_nodes++; bool leaf = depth == 0 || total_nodes > 40; t->kind = leaf ? 0 : (int)g.below(9); t->cons = g.chance(30); t->gran = g.pick<long>({0, 1, 2, 5, 100, 0, 1000000}); t->bs = g.pick<size_t>({1, 2, 3, 7, 50, (size_t)-1}); size_t k = t->kind == 0 ? 0 : t->kind == 4 || t->kind == 5 ? 3 : 2;
  t->n = t->kind == 1 || t->kind >= 6 ? g.len(g.thorough ? 60 : 24) : k; if (t->kind == 1 || t->kind >= 6) k = t->n > 0 ? std::min<size_t>(t->n, 1 + g.below(3)) : 0;   // loop bodies share up to three subtrees
  for (size_t i = 0; i < k; i++) t->kids.push_back(tree(g, depth - 1)); t->slot.assign(t->n, 0); t->runs.reset(new std::atomic<int>[t->n + 1]); for (size_t i = 0; i <= t->n; i++) t->runs[i] = 0; return t; }
// The value of a subtree is computed with real forks, a plain result word per index, and compared with a sequential evaluation.
u64 value_seq(const Node& t, u64 x) { u64 h = mix(x + (u64)t.kind); if (t.kind == 0) return h; for (size_t i = 0; i < t.n; i++) h = mix(h ^ value_seq(*t.kids[i % t.kids.size()], x + i + 1)); return h; }
u64 value_par(const Node& t, u64 x) {
  u64 h = mix(x + (u64)t.kind); if (t.kind == 0) { jitter(x); return h; }
  std::vector<u64> r(t.n, 0); std::atomic<long> ran{0}; auto one = [&](size_t i) { if (i < t.n) r[i] = value_par(*t.kids[i % t.kids.size()], x + i + 1); else soft_fail("index outside the range"); ran++; };
  switch (t.kind) {
    case 1: parlay::parallel_for(0, t.n, one, t.gran, t.cons); break;
    case 2: parlay::par_do([&] { one(0); }, [&] { one(1); }, t.cons); break;
    case 3: parlay::parallel_do([&] { one(0); }, [&] { one(1); }, t.cons); break;
    case 4: parlay::par_do3([&] { one(0); }, [&] { one(1); }, [&] { one(2); }); break;
    case 5: parlay::par_do3_if(t.cons, [&] { one(0); }, [&] { one(1); }, [&] { one(2); }); break;
    case 6: parlay::blocked_for(0, t.n, t.bs, [&](size_t, size_t s, size_t e) { for (size_t i = s; i < e; i++) one(i); }, t.cons); break;
    case 7: { auto v = parlay::iota(t.n); parlay::for_each(v, one); break; }
    case 8: if (t.n >= 2) parlay::par_do_if(t.cons, [&] { one(0); }, [&] { parlay::parallel_for(1, t.n, one, t.gran, !t.cons); }, t.cons); else parlay::parallel_for(0, t.n, one); break;
  }
  SOFT((size_t)ran.load() == t.n, "kind", t.kind, "n", t.n, "ran", ran.load()); for (size_t i = 0; i < t.n; i++) h = mix(h ^ r[i]); return h; }
}
#if PART == 0
PBT_SUB(loop, 4000, 40000, 30, F_MANY) {
  size_t n = g.len(g.thorough ? 300000 : 50000, {128, 1000, 1024, 2048}), base = g.pick<size_t>({0, 0, 1, 1000, (size_t)1 << 32, ((size_t)1 << 63) - 5, (size_t)-1 - 400000}); int form = (int)g.below(6); bool cons = g.chance(30); unsigned jit = g.pick({0u, 0u, 1u, 5u, 30u}); if (n > 3000 && jit > 1) jit = 1; u64 sd = g.seed();
  long gran = g.pick<long>({0, 0, 1, 2, 3, 16, 100, 1000, -1, 1L << 40}); if (g.chance(10)) gran = (long)n + g.range(-1, 1); size_t bs = g.pick<size_t>({1, 2, 3, 10, 100, 1000, 1 << 20, (size_t)-1, (size_t)1 << 63}); if (g.chance(15)) bs = std::max<size_t>(1, n + (size_t)g.range(-1, 1)); if (g.chance(5)) bs = (size_t)-1 - g.below(200);
  static const char* nm[] = {"parallel_for", "blocked_for", "for_each slice", "for_each lazy", "sliced_for", "parallel_for end<=start"}; g.label(nm[form]); g.desc << nm[form] << " start=" << base << " n=" << n << " granularity=" << gran << " block=" << bs << " conservative=" << cons << " workers=" << g.workers << " delays=" << jit; g.ready(); g.mark(n > 1); set_jitter(sd, jit); Log l(base, n, sd, jit);
  switch (form) {
    case 0: parlay::parallel_for(base, base + n, [&](size_t i) { l.hit(i); }, gran, cons); break;
    case 1: { if (n > 4000 && bs < 3) bs = 3; size_t nb = n == 0 ? 0 : (n - 1) / bs + 1; Log b(0, nb, sd + 1, 0); parlay::blocked_for(base, base + n, bs, [&](size_t i, size_t s, size_t e) { b.hit(i); SOFT(s == base + i * bs && e > s && e <= base + n && (e - s == bs || e == base + n), "block", i, s, e, "of", nb); for (size_t k = s; k < e && k - s <= n; k++) l.hit(k); }, cons); b.check("blocks"); break; }
    case 2: { l.base = 0; std::vector<size_t> v(n); for (size_t i = 0; i < n; i++) v[i] = i; parlay::for_each(parlay::make_slice(v), [&](size_t& i) { l.hit(i); i += 7; }); for (size_t i = 0; i < n; i++) CHECK(v[i] == i + 7); break; }
    case 3: { l.base = 0; parlay::for_each(parlay::delayed_tabulate(n, [](size_t i) { return i * 3; }), [&](size_t i) { if (i % 3) soft_fail("wrong element"); l.hit(i / 3); }); break; }
    case 4: { l.base = 0; bs = std::min<size_t>(bs, (size_t)1 << 40); size_t nb = n == 0 ? 0 : (n - 1) / bs + 1; Log b(0, nb, sd + 1, 0); lin::sliced_for(n, bs, [&](size_t i, size_t s, size_t e) { b.hit(i); SOFT(s == i * bs && e > s && e <= n, i, s, e); for (size_t k = s; k < e; k++) l.hit(k); }, cons); b.check("slices"); break; }
    case 5: { l.n = 0; size_t hi = base + n, lo = g.coin() ? base : base + n; if (lo == hi || hi > lo) std::swap(lo, hi); if (lo <= hi) lo = hi; parlay::parallel_for(lo, hi, [&](size_t i) { l.hit(i); }, gran < 0 ? 0 : gran > 1000 ? 0 : gran, cons); parlay::blocked_for(lo, hi, bs, [&](size_t i, size_t, size_t) { l.hit(i); }, cons); break; }
  }
  l.check(nm[form]);
}
PBT_SUB(nested, 4000, 40000, 30, F_MANY) {
  total_nodes = 0; int d = 1 + (int)g.below(4); auto t = tree(g, d); unsigned jit = g.pick({0u, 1u, 10u, 50u}); u64 sd = g.seed(); size_t work = 0; std::function<size_t(const Node&)> w = [&](const Node& x) -> size_t { size_t s = 1; for (size_t i = 0; i < x.n; i++) s += w(*x.kids[i % x.kids.size()]); return s; }; work = w(*t); if (work > 20000) g.discard(); if (work > 300) jit = std::min(jit, 1u);
  g.desc << "nested program, depth " << d << ", " << total_nodes << " constructs, " << work << " tasks, workers=" << g.workers << " delays=" << jit; g.ready(); g.mark(work > 3); set_jitter(sd, jit); u64 a = value_seq(*t, sd), b = value_par(*t, sd); CHECK(a == b, "a task was lost, repeated or not finished"); b = value_par(*t, sd); CHECK(a == b, "second run");
}
PBT_SUB(locks, 600, 6000, 30, F_MANY) {   // a conservative wait may happen inside a lock
  size_t outer = 1 + g.below(12), inner = g.below(200); long go = g.pick<long>({1, 1, 2, 0}), gi = g.pick<long>({1, 4, 0}); unsigned jit = g.pick({0u, 1u, 10u}); u64 sd = g.seed(); bool oc = g.coin(); int form = (int)g.below(3);
  g.desc << "conservative loops inside a lock: " << outer << "x" << inner << " form " << form; g.ready(); g.mark(outer > 1 && inner > 1); set_jitter(sd, jit); std::mutex m; std::vector<size_t> sum(outer, 0); size_t shared = 0; Log l(0, outer * inner, sd, jit);
  parlay::parallel_for(0, outer, [&](size_t o) { std::lock_guard<std::mutex> lk(m); size_t before = shared;
    auto body = [&](size_t i) { l.hit(o * inner + i); };
    if (form == 0) parlay::parallel_for(0, inner, body, gi, true); else if (form == 1) parlay::blocked_for(0, inner, 3, [&](size_t, size_t s, size_t e) { for (; s < e; s++) body(s); }, true); else parlay::par_do([&] { parlay::parallel_for(0, inner / 2, body, gi, true); }, [&] { parlay::parallel_for(inner / 2, inner, body, gi, true); }, true);
    if (shared != before) soft_fail("another task ran inside the lock"); shared += inner; }, go, oc);
  CHECK(shared == outer * inner, shared); l.check("locked loops");
}
#endif
