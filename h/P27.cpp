// Allocators: histories of allocations and frees from several threads, with hand-over and thread exit.
#include "pbt.h"
#include <thread>
#include <mutex>
#include <map>
#include <memory>
#include <parlay/alloc.h>
#include <parlay/random.h>
#include <parlay/primitives.h>
using namespace pbt;
#ifndef PART
#define PART 0
#endif
namespace {
struct Blk { char* p; size_t n, align; int kind; u64 id; };
std::atomic<u64> next_id{1};
void fill(Blk& b) { b.id = next_id++; u64 x = mix(b.id); if (b.n <= 4096) for (size_t i = 0; i < b.n; i++) b.p[i] = (char)(x >> (8 * (i & 7))) + (char)(i >> 3); else for (size_t i = 0; i < 256; i++) b.p[i] = b.p[b.n - 1 - i] = (char)(x >> (8 * (i & 7))) + (char)(i >> 3); }
bool intact(const Blk& b) { u64 x = mix(b.id); if (b.n <= 4096) { for (size_t i = 0; i < b.n; i++) if (b.p[i] != (char)((char)(x >> (8 * (i & 7))) + (char)(i >> 3))) return false; } else for (size_t i = 0; i < 256; i++) { char c = (char)((char)(x >> (8 * (i & 7))) + (char)(i >> 3)); if (b.p[i] != c || b.p[b.n - 1 - i] != c) return false; } return true; }
template <size_t N, size_t A = 1> struct alignas(A) Obj { char c[N]; };
struct Made { static inline std::atomic<long> live{0}; u64 a; char pad[40]; explicit Made(u64 x) : a(x) { live++; } ~Made() { live--; } };
// What is under test: a set of kinds of blocks.
struct Kinds { virtual ~Kinds() {} virtual int count() = 0; virtual size_t size(int kind, u64 r, size_t& align) = 0; virtual void* alloc(int kind, size_t n, size_t align) = 0; virtual void free(int kind, void* p, size_t n, size_t align) = 0; virtual std::string quiescent(const std::vector<Blk>& live) { return ""; } virtual const char* name() = 0; };
size_t up2(size_t n) { size_t k = 16; while (k < n) k *= 2; return k; }
size_t some_size(u64 r, size_t big) { switch (mix(r) % 6) { case 0: return mix(r + 1) % 17; case 1: return mix(r + 1) % 300; case 2: return ((size_t)1 << (4 + mix(r + 1) % 10)) + mix(r + 2) % 3 - 1; case 3: return mix(r + 1) % 20000; case 4: return big > (1 << 18) ? ((size_t)1 << (17 + mix(r + 1) % 3)) + mix(r + 2) % 3 - 1 : mix(r + 1) % 100; default: return mix(r + 1) % (big + 1); } }
struct Global : Kinds {   // p_malloc and allocator<T>
  std::pair<size_t, size_t> base; size_t big; explicit Global(size_t big_) : base(parlay::internal::memory_usage()), big(big_) {} const char* name() override { return "p_malloc and allocator<T>"; } int count() override { return 6; }
  size_t size(int k, u64 r, size_t& al) override { switch (k) { case 0: al = 16; return some_size(r, big); case 1: al = (size_t)1 << (mix(r ^ 5) % 14); return some_size(r, big); case 2: al = 1; return 1 + some_size(r, big); case 3: al = 8; return 8 * (some_size(r, big) / 8 + mix(r ^ 3) % 2); case 4: al = 64; return 64 * (1 + some_size(r, big / 4) / 64); default: al = 512; return 512 * (1 + some_size(r, 30000) / 512); } }
  void* alloc(int k, size_t n, size_t al) override { switch (k) { case 0: return parlay::p_malloc(n); case 1: return parlay::p_malloc(n, al); case 2: return parlay::allocator<char>().allocate(n); case 3: return parlay::allocator<double>().allocate(n / 8); case 4: return parlay::allocator<Obj<64, 64>>().allocate(n / 64); default: return parlay::allocator<Obj<512, 512>>().allocate(n / 512); } }
  void free(int k, void* p, size_t n, size_t) override { switch (k) { case 0: case 1: parlay::p_free(p); break; case 2: parlay::allocator<char>().deallocate((char*)p, n); break; case 3: parlay::allocator<double>().deallocate((double*)p, n / 8); break; case 4: parlay::allocator<Obj<64, 64>>().deallocate((Obj<64, 64>*)p, n / 64); break; default: parlay::allocator<Obj<512, 512>>().deallocate((Obj<512, 512>*)p, n / 512); } }
  std::string quiescent(const std::vector<Blk>& live) override { auto u = parlay::internal::memory_usage(); size_t lo = 0, hi = 0; for (auto& b : live) { lo += b.n; hi += up2(b.n + std::max<size_t>(64, b.align)); } size_t d = u.first - base.first; if (u.first > ((size_t)1 << 46)) return "reported used amount is absurd: " + std::to_string(u.first); if (u.second > ((size_t)1 << 46)) return "reported reserve is absurd: " + std::to_string(u.second); if (d < lo || d > hi) return "reported used " + std::to_string(d) + " for live blocks of " + std::to_string(lo) + " to " + std::to_string(hi) + " bytes"; return ""; } };
struct Types : Kinds {
  size_t base[7]; const char* name() override { return "type_allocator<T>"; } int count() override { return 7; }
  template <typename F> static auto with(int k, F f) { switch (k) { case 0: return f((Obj<1>*)nullptr); case 1: return f((Obj<3>*)nullptr); case 2: return f((Obj<24, 8>*)nullptr); case 3: return f((Obj<200, 4>*)nullptr); case 4: return f((Obj<256, 256>*)nullptr); case 5: return f((Obj<50000, 16>*)nullptr); default: return f((Obj<300000, 8>*)nullptr); } }
  template <typename P> using TA = parlay::type_allocator<std::remove_pointer_t<P>>;
  Types() { for (int k = 0; k < 7; k++) base[k] = with(k, [](auto p) { return TA<decltype(p)>::num_used_blocks(); }); }
  size_t size(int k, u64, size_t& al) override { return with(k, [&](auto p) { al = alignof(decltype(*p)); return sizeof(*p); }); }
  void* alloc(int k, size_t n, size_t) override { return with(k, [&](auto p) -> void* { auto q = TA<decltype(p)>::alloc(); return (void*)q; }); }
  void free(int k, void* x, size_t, size_t) override { with(k, [&](auto p) { TA<decltype(p)>::free((decltype(p))x); return 0; }); }
  std::string quiescent(const std::vector<Blk>& live) override { size_t c[7] = {}; for (auto& b : live) c[b.kind]++; for (int k = 0; k < 7; k++) { size_t u = with(k, [](auto p) { return TA<decltype(p)>::num_used_blocks(); }), a = with(k, [](auto p) { return TA<decltype(p)>::num_allocated_blocks(); }), bs = with(k, [](auto p) { return TA<decltype(p)>::block_size(); }), by = with(k, [](auto p) { return TA<decltype(p)>::num_used_bytes(); }); size_t al, n = size(k, 0, al); if (u - base[k] != c[k] || a < u || bs < n || by != u * bs) return "type " + std::to_string(k) + ": used " + std::to_string(u - base[k]) + " of " + std::to_string(a) + ", live " + std::to_string(c[k]); } return ""; } };
struct Block : Kinds {   // short lists, so that whole lists travel between threads all the time
  size_t bs, al, len; parlay::internal::block_allocator a; Block(size_t bs_, size_t al_, size_t len_) : bs(bs_), al(al_), len(len_), a(bs_, al_, 0, len_) {} const char* name() override { return "block_allocator"; } int count() override { return 1; }
  size_t size(int, u64, size_t& x) override { x = al; return bs; } void* alloc(int, size_t, size_t) override { return a.alloc(); } void free(int, void* p, size_t, size_t) override { a.free(p); }
  std::string quiescent(const std::vector<Blk>& live) override { size_t u = a.num_used_blocks(), al2 = a.num_allocated_blocks(); if (u != live.size() || al2 < u) return "used " + std::to_string(u) + " of " + std::to_string(al2) + ", live " + std::to_string(live.size()); if (al2 % (len ? len : 1)) return "allocated blocks are not whole lists"; if (!live.empty()) { if (a.clear()) return "clear() with live blocks"; } else if (live.empty() && mix(al2 + u) % 3 == 0) { if (!a.clear()) return "clear() refused without live blocks"; if (a.num_allocated_blocks() != 0 || a.num_used_blocks() != 0) return "blocks left after clear()"; } return ""; } };
struct Pool : Kinds {
  std::vector<size_t> sz; parlay::internal::pool_allocator a; explicit Pool(std::vector<size_t> s) : sz(s), a(s) {} const char* name() override { return "pool_allocator"; } int count() override { return 1; }
  size_t size(int, u64 r, size_t& al) override { size_t i = mix(r) % (sz.size() + 1), n; if (i == sz.size()) n = sz.back() + mix(r + 1) % 5000; else n = sz[i] - mix(r + 1) % 3 + mix(r + 2) % 2; al = 1; for (size_t c : sz) if (n <= c) { al = c & (~c + 1); break; } if (n > sz.back() || al > 128) al = 128; return n; }
  void* alloc(int, size_t n, size_t) override { return a.allocate(n); } void free(int, void* p, size_t n, size_t) override { a.deallocate(p, n); }
  std::string quiescent(const std::vector<Blk>& live) override { auto u = a.stats(); size_t lo = 0, hi = 0; for (auto& b : live) { lo += b.n; size_t c = 0; for (size_t s : sz) if (b.n <= s) { c = s; break; } hi += c ? c : up2(b.n); } if (u.first < lo || u.first > hi) return "reported used " + std::to_string(u.first) + " for live blocks of " + std::to_string(lo) + " to " + std::to_string(hi) + " bytes"; if (u.second > ((size_t)1 << 44)) return "reported reserve is absurd: " + std::to_string(u.second); if (mix(lo) % 3 == 0) { a.clear(); auto v = a.stats(); if (v.first != u.first || v.second > u.second) return "clear() changed used " + std::to_string(u.first) + " to " + std::to_string(v.first) + ", reserve " + std::to_string(u.second) + " to " + std::to_string(v.second); } return ""; } };

void history(Gen& g, Kinds& K) {
  size_t T = 1 + g.below(5), phases = 1 + g.below(4), slots = 1 + g.below(6); unsigned jit = g.pick({0u, 1u, 5u}); u64 sd = g.seed(); bool tasks = g.chance(25), few = g.chance(30); struct Plan { size_t ops; unsigned pfree, phand; bool dies; }; std::vector<std::vector<Plan>> plan(phases, std::vector<Plan>(T));
  g.desc << ": " << (tasks ? "tasks" : "threads") << "=" << T << " phases:"; bool any = false; size_t hi = g.thorough ? 2000 : 400; for (auto& ph : plan) { g.desc << " ["; for (auto& p : ph) { p = {g.len(hi), g.pick({0u, 20u, 45u, 50u, 60u, 90u}), g.pick({0u, 10u, 30u}), g.coin()}; any |= p.ops > 5; g.desc << p.ops << "/" << p.pfree << (p.dies ? "x " : " "); } g.desc << "]"; } g.ready(); g.mark(any); g.label(K.name()); set_jitter(sd, jit);
  std::vector<std::vector<Blk>> own(T); std::vector<std::mutex> mm(slots); std::vector<std::vector<Blk>> box(slots); size_t limit = few ? 8 : 400; std::mutex errm; std::string err; auto bad = [&](const std::string& s) { std::lock_guard<std::mutex> l(errm); if (err.empty()) err = s; };
  auto release = [&](Blk b) { if (!intact(b)) bad("a live block of " + std::to_string(b.n) + " bytes was modified"); memset(b.p, 0xdd, std::min<size_t>(b.n, 64)); K.free(b.kind, b.p, b.n, b.align); };
  auto step = [&](size_t t, u64 r, const Plan& p) { auto& v = own[t]; unsigned c = (unsigned)(mix(r) % 100); jitter(r);
    if (c < p.pfree && !v.empty()) { size_t i = mix(r + 1) % v.size(); if (mix(r + 2) % 3) i = v.size() - 1; Blk b = v[i]; v[i] = v.back(); v.pop_back(); release(b); }
    else if (c < p.pfree + p.phand && !v.empty()) { Blk b = v.back(); v.pop_back(); Blk o{}; size_t s = mix(r + 3) % slots; { std::lock_guard<std::mutex> l(mm[s]); box[s].push_back(b); if (box[s].size() > 3) { o = box[s].front(); box[s].erase(box[s].begin()); } } if (o.p) { if (mix(r + 4) % 2) release(o); else v.push_back(o); } }
    else { if (v.size() >= limit) { Blk b = v.back(); v.pop_back(); release(b); } Blk b; b.kind = (int)(mix(r + 5) % (u64)K.count()); b.n = K.size(b.kind, r + 6, b.align); b.p = (char*)K.alloc(b.kind, b.n, b.align); if (!b.p) { bad("null"); return; } if ((uintptr_t)b.p % b.align) bad("block of " + std::to_string(b.n) + " bytes not aligned to " + std::to_string(b.align)); fill(b); v.push_back(b); } };
  auto check = [&](const char* when) { std::map<char*, Blk> m; std::vector<Blk> live; auto add = [&](Blk& b) { live.push_back(b); CHECK(intact(b), when, "a live block of", b.n, "bytes was modified"); if (b.n) { auto r = m.emplace(b.p, b); CHECK(r.second, when, "handed out twice"); } }; for (auto& v : own) for (auto& b : v) add(b); for (auto& v : box) for (auto& b : v) add(b); char* end = nullptr; for (auto& x : m) { CHECK(x.first >= end, when, "blocks overlap"); end = x.first + x.second.n; } std::string e = K.quiescent(live); CHECK(e.empty(), when, e); };
  check("at first");
  for (size_t ph = 0; ph < phases; ph++) {
    if (tasks) parlay::parallel_for(0, T, [&](size_t t) { for (size_t i = 0; i < plan[ph][t].ops; i++) step(t, mix(sd + ph * 1000003 + t * 7919) + i * 11, plan[ph][t]); }, 1);
    else { std::vector<std::thread> th; for (size_t t = 0; t < T; t++) th.emplace_back([&, t] { for (size_t i = 0; i < plan[ph][t].ops; i++) step(t, mix(sd + ph * 1000003 + t * 7919) + i * 11, plan[ph][t]); }); for (auto& x : th) x.join(); }
    CHECK(err.empty(), err); check("after a phase:");
    for (size_t t = 0; t < T; t++) if (plan[ph][t].dies) { for (auto& b : own[t]) release(b); own[t].clear(); } CHECK(err.empty(), err); check("after frees:"); }
  for (auto& v : own) { for (auto& b : v) release(b); v.clear(); } for (auto& v : box) { for (auto& b : v) release(b); v.clear(); } CHECK(err.empty(), err); check("at the end:");
}
}
#if PART == 0
PBT_SUB(global, 4000, 30000, 40, F_NONE) { Global K(g.pick<size_t>({1000, 5000, 300000, 2000000})); g.desc << "p_malloc, allocator<T> up to " << K.big; history(g, K); }
PBT_SUB(types, 2500, 20000, 40, F_NONE) { Types K; g.desc << "type_allocator"; history(g, K); }
PBT_SUB(huge, 300, 1500, 40, F_SERIAL) {   // beyond the largest pool
  size_t mx = parlay::internal::default_allocator_max_pool_size, k = 1 + g.below(4); std::vector<size_t> n; std::vector<int> form; g.desc << "huge blocks:"; for (size_t i = 0; i < k; i++) { n.push_back(g.pick<size_t>({mx / 2, mx, mx * 2, up2(mx), up2(mx) - 64, up2(mx) + 1, mx / 3, mx / 2 + mx / 7}) - g.below(200)); form.push_back((int)g.below(3)); g.desc << " " << n.back() << (form.back() ? "a" : "p"); } g.ready(); g.mark(); auto b = parlay::internal::memory_usage(); std::vector<Blk> v; Global K(1);
  for (int round = 0; round < 2; round++) { for (size_t i = 0; i < k; i++) { Blk x; x.n = n[i] & ~(size_t)511; x.kind = form[i] == 0 ? 0 : form[i] == 1 ? 2 : 5; x.align = form[i] == 0 ? 64 : form[i] == 1 ? 1 : 512; x.p = (char*)K.alloc(x.kind, x.n, x.align); CHECK((uintptr_t)x.p % x.align == 0); fill(x); v.push_back(x); auto e = K.quiescent(v); CHECK(e.empty(), e); } while (!v.empty()) { size_t i = g.below(v.size()); CHECK(intact(v[i])); K.free(v[i].kind, v[i].p, v[i].n, v[i].align); v.erase(v.begin() + (long)i); auto e = K.quiescent(v); CHECK(e.empty(), e); } }
  CHECK(parlay::internal::memory_usage().first == b.first, "used amount does not return"); parlay::internal::memory_clear(); auto c = parlay::internal::memory_usage(); CHECK(c.first == b.first && c.second < ((size_t)1 << 46), "after memory_clear", c.first, c.second);
}
#else
PBT_SUB(blocks, 4000, 30000, 40, F_NONE) { size_t len = g.pick<size_t>({1, 2, 3, 4, 7, 50, 0}), bs = g.pick<size_t>({1, 8, 16, 24, 100, 1000, 40000}), al = g.pick<size_t>({1, 8, 16, 128, 256}); bs = (bs + al - 1) / al * al; if (bs < 8) bs = 8; if (al < 8) al = 8; bs = (bs + 7) / 8 * 8; if (al > 8) bs = (bs + al - 1) / al * al; Block K(bs, al, len); g.desc << "block_allocator(" << bs << "," << al << ",lists of " << len << ")"; history(g, K); }
PBT_SUB(pools, 3000, 20000, 40, F_NONE) { std::vector<size_t> s; switch (g.below(5)) { case 0: s = {8, 16, 64, 1024}; break; case 1: s = {16, 48, 144, 100000}; break; case 2: s = {64, 4096, 262144, 524288}; break; case 3: s = {262144, 300000, 1000000}; break; case 4: s = {128, 262136, 262144}; break; } Pool K(s); g.desc << "pool_allocator{" << show(s) << "}"; history(g, K); }
PBT_SUB(reuse, 1500, 10000, 40, F_NONE) {   // one thread allocates, another frees: memory must come back
  size_t len = g.pick<size_t>({1, 1, 2, 3, 8}), rounds = 20 + g.below(60), k = 1 + g.below(40); bool die = g.coin(), many = g.coin(); g.desc << "lists of " << len << ": " << rounds << " rounds of " << k << " blocks allocated here and freed " << (die ? "by a new thread each round" : "by another thread"); g.ready(); g.mark(); parlay::internal::block_allocator a(64, 64, 0, len); std::vector<void*> v; std::mutex m; size_t most = 0;
  auto freeall = [&] { for (void* p : v) a.free(p); v.clear(); };
  if (die) for (size_t r = 0; r < rounds; r++) { for (size_t i = 0; i < k; i++) v.push_back(a.alloc()); std::thread t(freeall); t.join(); most = std::max(most, a.num_allocated_blocks()); }
  else { std::atomic<int> turn{0}; std::thread t([&] { for (size_t r = 0; r < rounds; r++) { while (turn != 1) std::this_thread::yield(); freeall(); turn = 0; } }); for (size_t r = 0; r < rounds; r++) { for (size_t i = 0; i < k; i++) v.push_back(a.alloc()); turn = 1; while (turn != 0) std::this_thread::yield(); most = std::max(most, a.num_allocated_blocks()); } t.join(); }
  size_t bound = k + 2 * (2 * len + 2) + 3 * len; CHECK(most <= bound, "blocks allocated", most, "for at most", k, "live ones"); CHECK(a.num_used_blocks() == 0, a.num_used_blocks()); (void)many;
}
PBT_SUB(objects, 1500, 10000, 40, F_MANY) {   // create and destroy
  size_t n = g.len(3000); u64 sd = g.seed(); g.desc << "type_allocator create/destroy of " << n; g.ready(); g.mark(n > 1); set_jitter(sd, n < 500 ? 2 : 0); using TA = parlay::type_allocator<Made>; long live = Made::live; size_t used = TA::num_used_blocks(); auto p = parlay::tabulate(n, [&](size_t i) { jitter(i); return i % 2 ? TA::create(mix(sd + i)) : TA::allocate(mix(sd + i)); }, 1); CHECK(Made::live == live + (long)n); CHECK(TA::num_used_blocks() == used + n, TA::num_used_blocks()); for (size_t i = 0; i < n; i++) CHECK(p[i]->a == mix(sd + i)); auto q = parlay::random_shuffle(p); parlay::parallel_for(0, n, [&](size_t i) { jitter(i); if (i % 2) TA::destroy(q[i]); else TA::retire(q[i]); }, 1); CHECK(Made::live == live && TA::num_used_blocks() == used, TA::num_used_blocks());
}
#endif
