// Race freedom of what several threads or tasks use at once: publication of plain data through the library's own structures, shared read-only objects, comparisons.
#include "pbt.h"
#include <thread>
#include <parlay/parallel.h>
#include <parlay/primitives.h>
#include <parlay/delayed.h>
#include <parlay/io.h>
#include <parlay/random.h>
#include <parlay/hash_table.h>
#include <parlay/alloc.h>
#include <parlay/thread_specific.h>
#include <parlay/worker_specific.h>
#ifndef VERIF_NO_INTERNAL
#include <parlay/internal/block_allocator.h>
#include <parlay/internal/pool_allocator.h>
#include <parlay/internal/concurrency/hazptr_stack.h>
#endif
using namespace pbt; namespace pd = parlay::delayed;
namespace {
template <int B> struct W { int v; char pad[B]; friend bool operator==(const W& a, const W& b) { jitter((u64)a.v * 7 + 1); return a.v == b.v; } friend bool operator!=(const W& a, const W& b) { return !(a == b); } friend bool operator<(const W& a, const W& b) { return a.v < b.v; } };
template <typename T, typename Mk> void compare(Gen& g, const char* nm, size_t maxn, Mk mk) {
  size_t n = g.len(maxn, {1024, 8192, 2048, 16384}), same = g.coin() ? n : n ? (size_t)g.below(n) : 0, every = g.pick<size_t>({1, 2, 100, 5000}); u64 sd = g.seed(); unsigned j = g.pick({0u, 3u}); g.desc << "comparing " << nm << " n=" << n << " equal up to " << same << ", then differing every " << every; g.label(nm); g.ready(); g.mark(n > 2000); set_jitter(sd, j);
  auto a = parlay::tabulate(n, [&](size_t i) { return mk((int)(mix(sd + i) & 63)); }); auto b = parlay::tabulate(n, [&](size_t i) { return mk((int)(mix(sd + i) & 63) + (i >= same && (i - same) % every == 0)); });
  bool eq = same >= n; CHECK((a == b) == eq); CHECK((a != b) == !eq); bool l = a < b; CHECK(l == !eq, "operator<"); CHECK(!(b < a)); CHECK(parlay::equal(a, b) == eq);
  auto m = parlay::mismatch(a, b); CHECK((size_t)(m.first - a.begin()) == same, m.first - a.begin(), same); (void)parlay::lexicographical_compare(a, b, std::less<>());
}
struct Cell { long a = 0; std::string s; };
struct PtrH { using eType = Cell*; using kType = long; eType empty() { return nullptr; } kType getKey(eType v) { return v->a; } size_t hash(kType k) { return (size_t)mix((u64)k); } int cmp(kType a, kType b) { return a > b ? 1 : a == b ? 0 : -1; } bool replaceQ(eType, eType) { return false; } eType update(eType v, eType) { return v; } bool cas(eType* p, eType o, eType n) { return reinterpret_cast<std::atomic<eType>*>(p)->compare_exchange_strong(o, n, std::memory_order_acq_rel); } };
}
PBT_SUB(compare, 150, 1500, 60, F_MANY) { switch (g.below(4)) { case 0: compare<char>(g, "chars", 400000, [](int v) { return (char)v; }); break; case 1: compare<long>(g, "longs", 60000, [](int v) { return (long)v; }); break; case 2: compare<W<28>>(g, "32-byte elements", 20000, [](int v) { W<28> w{}; w.v = v; return w; }); break; default: compare<W<1020>>(g, "1 KB elements", 2000, [](int v) { W<1020> w{}; w.v = v; return w; }); } }
PBT_SUB(ids, 60, 900, 60, F_NONE) {   // thread ids, and what goes with them, pass from thread to thread
  size_t T = 2 + g.below(10), waves = 1 + g.below(5); u64 sd = g.seed(); g.desc << T << " threads at a time, " << waves << " waves"; g.ready(); g.mark(); set_jitter(sd, 4);
  parlay::ThreadSpecific<Cell> ts; std::atomic<long> used{0}; std::vector<std::thread> th;
  for (size_t w = 0; w < waves; w++) { for (size_t t = 0; t < T; t++) th.emplace_back([&, t, w] { for (u64 k = 0; k < mix(sd + t * 31 + w) % 200; k++) { jitter(k); std::this_thread::yield(); } if (mix(sd ^ (t + w)) % 4 == 0) return; ts->a++; ts->s += "x"; void* p = parlay::p_malloc(24); memset(p, 1, 24); parlay::p_free(p); jitter(t); ts->a++; used += 2; }); if (w % 2) { for (auto& x : th) x.join(); th.clear(); } }
  for (auto& x : th) x.join(); long tot = 0; ts.for_each([&](Cell& c) { tot += c.a; }); CHECK(tot == used, tot, used.load());
}
#ifndef VERIF_NO_INTERNAL
PBT_SUB(blocks, 120, 1500, 60, F_MANY) {   // memory freed by one thread and given to another
  size_t n = 20 + g.below(300), rounds = 2 + g.below(6), sz = g.pick<size_t>({8, 64, 1000, 20000, 300000}), len = g.pick<size_t>({1, 2, 5}); int kind = (int)g.below(4); bool thr = g.coin(); u64 sd = g.seed(); if (sz == 300000) n = 20; g.desc << "allocator " << kind << " blocks of " << sz << ", " << n << " live, " << rounds << " rounds" << (thr ? " on user threads" : " in a loop"); g.ready(); g.mark(); set_jitter(sd, 2);
  parlay::internal::block_allocator ba(sz, 8, 0, len); parlay::internal::pool_allocator pa(std::vector<size_t>{8, 64, 1024, 32768}); parlay::allocator<char> al;
  auto get = [&]() -> char* { return kind == 0 ? (char*)parlay::p_malloc(sz) : kind == 1 ? (char*)ba.alloc() : kind == 2 ? (char*)pa.allocate(sz) : al.allocate(sz); }; auto put = [&](char* p) { if (kind == 0) parlay::p_free(p); else if (kind == 1) ba.free(p); else if (kind == 2) pa.deallocate(p, sz); else al.deallocate(p, sz); };
  std::vector<char*> v(n, nullptr); auto step = [&](size_t i, size_t r) { size_t at = i; if (v[at]) { v[at][0]++; v[at][sz - 1]++; put(v[at]); } jitter(i); v[at] = get(); memset(v[at], (int)(r & 63), sz); };
  for (size_t r = 0; r < rounds; r++) { u64 rot = mix(sd + r) % n; if (thr) { std::vector<std::thread> th; for (size_t t = 0; t < 4; t++) th.emplace_back([&, t] { for (size_t i = 0; i < n; i++) if ((i + rot) / 7 % 4 == t) step(i, r); }); for (auto& x : th) x.join(); } else parlay::parallel_for(0, n, [&](size_t i) { step((i + rot) % n, r); }, 1); }
  for (auto p : v) put(p);
}
#endif
#ifndef VERIF_NO_INTERNAL
PBT_SUB(stack, 150, 2000, 60, F_MANY) {
  size_t n = 50 + g.below(1500); bool thr = g.coin(), own = g.coin(); u64 sd = g.seed(); g.desc << n << " operations on a stack of " << (own ? "strings" : "pointers") << (thr ? " by user threads" : " by tasks"); g.ready(); g.mark(); set_jitter(sd, 2); std::vector<Cell> cells(n); parlay::internal::hazptr_stack<Cell*> st; parlay::internal::hazptr_stack<std::string> ss; std::atomic<long> in{0}, out{0};
  auto op = [&](size_t i) { if (mix(sd + i) % 5 < 3) { if (own) { ss.push(std::string(40, (char)('a' + i % 26))); in += 40; } else { cells[i].a = (long)i; cells[i].s = "p"; st.push(&cells[i]); in += 1; } } else if (own) { auto x = ss.pop(); if (x) { x->back() = '!'; out += (long)x->size(); } } else { auto x = st.pop(); if (x) { (*x)->a++; (*x)->s += "q"; out += (long)(*x)->s.size() - 1; st.push(*x); out--; } } jitter(i); };
  if (thr) { std::vector<std::thread> th; for (size_t t = 0; t < 4; t++) th.emplace_back([&, t] { for (size_t i = t; i < n; i += 4) op(i); }); for (auto& x : th) x.join(); } else parlay::parallel_for(0, n, op, 1);
  long left = 0; if (own) { while (auto x = ss.pop()) left += (long)x->size(); CHECK(in == out + left, in.load(), out.load(), left); } else { while (auto x = st.pop()) left++; CHECK(left == in, left, in.load()); }
}
#endif
PBT_SUB(table, 150, 2000, 60, F_MANY) {   // a record found in the table was written by the task that put it in
  size_t n = 50 + g.below(1500), keys = 1 + g.below(200); u64 sd = g.seed(); g.desc << n << " insertions and finds of " << keys << " records"; g.ready(); g.mark(); set_jitter(sd, 2); std::vector<Cell> cells(n); parlay::hashtable<PtrH> t(keys, PtrH()); std::atomic<long> hit{0};
  parlay::parallel_for(0, n, [&](size_t i) { long k = (long)(mix(sd + i) % keys); if (i % 2 == 0) { cells[i].a = k; cells[i].s = std::to_string(k); jitter(i); t.insert(&cells[i]); } }, 1);
  parlay::parallel_for(0, n, [&](size_t i) { long k = (long)(mix(sd * 3 + i) % keys); jitter(i); Cell* c = t.find(k); if (c) { if (c->a != k || c->s != std::to_string(k)) soft_fail("found another record"); hit++; } }, 1);
  auto e = t.entries(); CHECK(e.size() == t.count()); g.mark(hit > 0);
}
PBT_SUB(shared, 200, 2500, 60, F_MANY) {   // one object, read by several tasks or threads
  size_t n = g.len(12000, {1000, 2000, 2048, 4000}); int k = (int)g.below(12); bool thr = g.chance(30); u64 sd = g.seed(); size_t R = 2 + g.below(7); auto x = parlay::tabulate(n, [&](size_t i) { return (long)(mix(sd + i) % 100); }); static const char* nm[] = {"filter", "flatten", "flatten of sequences", "scan", "map_maybe", "zip", "map over a moved range", "filtered filter", "sequence", "random_generator", "short sequence", "hash table"}; g.desc << R << (thr ? " threads" : " tasks") << " reading one " << nm[k] << " n=" << n; g.label(nm[k]); g.ready(); g.mark(n > 0); set_jitter(sd, 1);
  std::vector<u64> res(R, 1); auto each = [&](auto&& f) { if (thr) { std::vector<std::thread> th; for (size_t r = 0; r < R; r++) th.emplace_back([&, r] { jitter(r); res[r] = f(); }); for (auto& t : th) t.join(); } else parlay::parallel_for(0, R, [&](size_t r) { jitter(r); res[r] = f(); }, 1); };
  auto dg = [](auto const& s) { u64 h = 7; for (auto const& y : s) h = mix(h ^ (u64)y); return h; }; auto ev = [](long y) { return y % 3 != 0; };
  auto rd = [&](auto const& v) { each([&] { auto s = pd::to_sequence(v); u64 h = dg(s); return h ^ (u64)pd::reduce(v) ^ s.size(); }); };
  auto nest = parlay::tabulate(n / 40 + 1, [&](size_t i) { return parlay::sequence<long>(mix(sd + i) % 80, (long)i); });
  switch (k) {
    case 0: { const auto v = pd::filter(x, ev); rd(v); break; } case 1: { const auto v = pd::flatten(pd::map(parlay::iota(n / 40 + 1), [&](size_t i) { return pd::map(parlay::iota(i % 50), [i](size_t j) { return (long)(i * j); }); })); rd(v); break; }
    case 2: { const auto v = pd::flatten(nest); rd(v); break; } case 3: { const auto v = pd::scan(x, parlay::plus<long>()).first; rd(v); break; } case 4: { const auto v = pd::map_maybe(x, [](long y) -> std::optional<long> { if (y % 3) return y * 2; return std::nullopt; }); rd(v); break; }
    case 5: { const auto v = pd::map(pd::zip(x, parlay::iota(n)), [](auto&& p) { return std::get<0>(p) + (long)std::get<1>(p); }); rd(v); break; } case 6: { const auto v = pd::map(parlay::sequence<long>(x), [](long y) { return y + 1; }); rd(v); break; } case 7: { const auto v = pd::filter(pd::filter(x, ev), [](long y) { return y % 2 == 0; }); rd(v); break; }
    case 8: each([&] { const auto& c = x; auto s = parlay::sort(c); auto y = c; return dg(s) ^ (u64)parlay::reduce(c) ^ (y == c) ^ dg(parlay::filter(c, ev)) ^ parlay::count(c, 5L); }); break;
    case 9: { const parlay::random_generator gen(sd); each([&] { return dg(parlay::tabulate(n / 4, [&](size_t i) { auto q = gen[i]; return q() ^ q(); })); }); break; }
    case 10: { const parlay::short_sequence<char> c(n % 40, 'q'); each([&] { auto d = c; d.push_back('z'); return dg(d) ^ c.size() ^ (c == d); }); break; }
    default: { parlay::hashtable<parlay::hash_numeric<long>> t(n + 1, parlay::hash_numeric<long>{}); parlay::parallel_for(0, n, [&](size_t i) { t.insert(x[i]); }); each([&] { u64 h = dg(t.entries()); for (long y = 0; y < 40; y++) h = mix(h ^ (u64)t.find(y)); return h + t.count(); }); } }
  for (auto r : res) CHECK(r == res[0], "readers disagree");
}
PBT_SUB(idle, 30, 400, 60, F_NONE) {   // plain data across fork and join, with workers asleep in between
  size_t rounds = 1 + g.below(4), n = g.len(20000) + 2; u64 sd = g.seed(); size_t us = g.pick<size_t>({0, 2000, 9000, 15000, 40000}); g.desc << rounds << " loops over " << n << ", idle for " << us << " us before each"; g.ready(); g.mark(); set_jitter(sd, 2); std::vector<long> a(n), b(n); parlay::WorkerSpecific<Cell> ws;
  for (size_t r = 0; r < rounds; r++) { std::this_thread::sleep_for(std::chrono::microseconds(us)); for (size_t i = 0; i < n; i += 97) a[i] = (long)r; parlay::parallel_for(0, n, [&](size_t i) { b[i] = a[i] + (long)i; if (i % 64 == 0) { jitter(i); ws->a++; } }, g.pick<long>({0, 10, 500})); long l = 0, q = 0; parlay::par_do([&] { jitter(1); l = b[0]; }, [&] { jitter(2); q = b[n - 1]; }); CHECK(l == a[0] && q == a[n - 1] + (long)n - 1); }
  long c = 0; for (auto& x : ws) c += x.a; CHECK(c == (long)(rounds * ((n + 63) / 64)), c);
}
