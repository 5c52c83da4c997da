// Controlled concurrency: the library's own code runs on real threads that pass a baton, so that every atomic
// operation, lock, yield, futex call and thread start is a scheduling point decided by the choices of the case.
// Stores weaker than seq_cst can sit in per-thread FIFO store buffers (x86-TSO).
// Include this header first, then the repository's headers, in a translation unit that does not use the default scheduler.
#ifndef VERIF_CTL_H
#define VERIF_CTL_H
#include "pbt.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <climits>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <forward_list>
#include <functional>
#include <future>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <stack>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <utility>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <fstream>
#include <iomanip>
#include <charconv>
#include <linux/futex.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#ifdef __cpp_lib_atomic_wait
#undef __cpp_lib_atomic_wait
#ifdef CTL_STD_WAIT
#define __cpp_lib_atomic_wait 201907L
#endif
#endif

namespace ctl {
using pbt::u64;
struct Entry { char* addr; unsigned size; u64 born; alignas(16) char bytes[16]; };
enum State { RUN, BLOCKED, DONE };
struct Ring { Entry e[32]; size_t h = 0, n = 0; bool empty() const { return n == 0; } size_t size() const { return n; } Entry& front() { return e[h % 32]; } void pop_front() { h++; n--; } Entry& operator[](size_t i) { return e[(h + i) % 32]; } void push_back(const Entry& x) { e[(h + n++) % 32] = x; } };
struct Thr {
  int id; std::atomic<int> go{0}; State st = RUN; const void* on = nullptr; bool yielded = false, woken = false; u64 streak = 0;
  Ring buf; std::thread real; std::function<void()> fn;
};
struct Preempt { u64 step; unsigned target; };
struct Config {
  bool random = false; unsigned inv = 4; u64 seed = 0; std::vector<Preempt> pre; unsigned tso = 0; u64 limit = 400000; unsigned tick = 1;
  void describe(std::ostream& o) const { if (random) o << " schedule: switch 1/" << inv; else { o << " schedule: preempt at"; for (auto& p : pre) o << " " << p.step << "->" << p.target; } if (tso) o << (tso == 1 ? ", store buffers" : ", lazy store buffers"); }
};
inline Config config(pbt::Gen& g, u64 horizon = 300) {
  Config c; c.random = g.chance(40); c.tso = (unsigned)g.weighted({5, 2, 3}); c.seed = g.chance(85) ? g.seed() : 0; c.tick = g.pick({1u, 1u, 50u, 2000u});
  if (c.random) c.inv = g.pick({2u, 3u, 6u, 15u});
  else { size_t d = g.below(6); u64 s = 0; for (size_t i = 0; i < d; i++) { u64 h = g.choose(horizon + 1, [&](pbt::Rng& r) -> u64 { return r.below(3) ? r.below(1 + horizon / 6) : r.below(horizon + 1); }); s += h + 1; c.pre.push_back({s, (unsigned)g.below(6)}); } }
  return c;
}
struct World {
  Config cfg; std::vector<std::unique_ptr<Thr>> all; u64 steps = 0, rng = 0, now = 0, switches = 0, waits = 0; size_t npre = 0, rr = 0; u64 run_id = 0; char* arena_from = nullptr; bool active = false; std::atomic<int> over{0};
};
inline World* W = nullptr;
inline thread_local Thr* me = nullptr;
inline thread_local int quiet = 0;      // > 0: no scheduling points (set-up work)
struct Quiet { Quiet() { quiet++; } ~Quiet() { quiet--; } };

inline void fwait(std::atomic<int>& a) { while (a.load(std::memory_order_acquire) == 0) ::syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, 0, 0); a.store(0, std::memory_order_relaxed); }
inline void fwake(std::atomic<int>& a) { a.store(1, std::memory_order_release); ::syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, 0, 0); }
[[noreturn]] inline void fatal(const std::string& m) { std::string s = "CTL " + m + " after " + std::to_string(W ? W->steps : 0) + " steps\n"; if (W) for (auto& t : W->all) s += "  thread " + std::to_string(t->id) + (t->st == DONE ? " done" : t->st == BLOCKED ? " blocked" : t->yielded ? " yielding" : " running") + (me == t.get() ? " (current)" : "") + "\n"; [[maybe_unused]] auto r = ::write(2, s.data(), s.size()); _exit(86); }

inline u64 rnd() { return W->rng = pbt::mix(W->rng + 0x1234567); }
inline void commit(Entry& e) { switch (e.size) { case 1: __atomic_store_n((uint8_t*)e.addr, *(uint8_t*)e.bytes, __ATOMIC_SEQ_CST); break; case 2: __atomic_store_n((uint16_t*)e.addr, *(uint16_t*)e.bytes, __ATOMIC_SEQ_CST); break; case 4: __atomic_store_n((uint32_t*)e.addr, *(uint32_t*)e.bytes, __ATOMIC_SEQ_CST); break; case 8: __atomic_store_n((uint64_t*)e.addr, *(uint64_t*)e.bytes, __ATOMIC_SEQ_CST); break; default: memcpy(e.addr, e.bytes, e.size); } }
inline void drain(Thr* t) { while (!t->buf.empty()) { commit(t->buf.front()); t->buf.pop_front(); } }
inline void drain_self() { if (me && !me->buf.empty()) drain(me); }
inline void flush_some() {
  for (auto& t : W->all) while (!t->buf.empty()) { bool f = W->steps - t->buf.front().born > 300 || t->buf.size() > 12 || (W->cfg.tso == 1 && rnd() % 4 == 0); if (!f) break; commit(t->buf.front()); t->buf.pop_front(); }
}
inline Thr* pick(bool not_me) {
  // runnable threads, preferring those that have not just yielded
  Thr* c[64]; size_t n = 0; for (int pass = 0; pass < 2 && !n; pass++) { for (auto& t : W->all) if (t->st == RUN && (pass || !t->yielded) && !(not_me && t.get() == me) && n < 64) c[n++] = t.get(); }
  if (!n) return nullptr;
  if (W->cfg.seed == 0 && !W->cfg.random) { W->rr++; for (size_t k = 0; k < n; k++) if (me && c[k]->id > me->id) return c[k]; return c[0]; }
  return c[rnd() % n];
}
inline void to(Thr* t) {   // hand the baton over
  if (t == me) { return; }
  W->switches++; t->yielded = false; t->streak = 0; Thr* self = me; fwake(t->go); if (self->st != DONE) fwait(self->go);
}
inline void step_common() { if (++W->steps > W->cfg.limit) fatal("no progress: step limit"); W->now += W->cfg.tick; if (W->cfg.tso) flush_some(); }
inline void point() {
  if (!me || quiet) return; step_common(); Thr* next = me;
  if (W->cfg.random) { if (rnd() % W->cfg.inv == 0) { Thr* t = pick(false); if (t) next = t; } }
  else if (W->npre < W->cfg.pre.size() && W->steps >= W->cfg.pre[W->npre].step) { unsigned k = W->cfg.pre[W->npre++].target; size_t n = W->all.size(); for (size_t i = 0; i < n; i++) { Thr* t = W->all[(k + i) % n].get(); if (t->st == RUN && t != me) { next = t; break; } } }
  if (next == me && ++me->streak > 4000) { Thr* t = pick(true); me->streak = 0; if (t) next = t; }
  to(next);
}
inline void yield() { if (!me) { std::this_thread::yield(); return; } if (quiet) return; step_common(); drain(me); W->now += 100; me->yielded = true; Thr* t = pick(true); if (t && t->yielded) { for (auto& x : W->all) x->yielded = false; } if (t) to(t); me->yielded = false; }
inline void block(const void* on) { step_common(); drain(me); me->st = BLOCKED; me->on = on; W->waits++; Thr* t = pick(true); if (!t) fatal("deadlock: every thread is blocked"); to(t); }
inline size_t wake(const void* on, size_t n) { size_t k = 0; if (!W) return 0; size_t m = W->all.size(); bool any = false; for (auto& t : W->all) any |= t->st == BLOCKED && t->on == on; if (!any) return 0; size_t s = rnd() % m; for (size_t i = 0; i < m && k < n; i++) { Thr* t = W->all[(s + i) % m].get(); if (t->st == BLOCKED && t->on == on) { t->st = RUN; t->on = nullptr; t->woken = true; k++; } } return k; }
inline size_t blocked() { size_t k = 0; for (auto& t : W->all) k += t->st == BLOCKED; return k; }
inline bool asleep() { for (auto& t : W->all) if (t.get() != me && t->st == RUN) return false; return true; }
inline void finish() {   // last act of a controlled thread, after its thread_local objects are gone
  drain(me); me->st = DONE; wake(me, 1000); Thr* t = nullptr; Thr* self = me; bool any = false; for (auto& x : W->all) any |= x->st != DONE; if (!any) { W->over.store(1); ::syscall(SYS_futex, (int*)&W->over, FUTEX_WAKE_PRIVATE, 100, nullptr, 0, 0); me = nullptr; return; }
  t = pick(true); if (!t) fatal("deadlock: the remaining threads are blocked"); W->switches++; t->yielded = false; t->streak = 0; (void)self; me = nullptr; fwake(t->go);
}
struct Last { ~Last() { if (me) finish(); } };
inline thread_local Last last_guard;
inline Thr* start(std::function<void()> f) {
  W->all.emplace_back(new Thr); Thr* t = W->all.back().get(); t->id = (int)W->all.size() - 1; t->fn = std::move(f);
  t->real = std::thread([t] { Last* volatile g = &last_guard; (void)g; fwait(t->go); me = t; t->fn(); quiet++; t->fn = nullptr; quiet--; });   // thread_local objects made by fn die before last_guard
  return t;
}
inline void pin() { static bool once = [] { cpu_set_t cur; if (sched_getaffinity(0, sizeof cur, &cur) == 0) { std::vector<int> av; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cur)) av.push_back(i); if (av.size() > 1) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(av[(size_t)getpid() % av.size()], &s); sched_setaffinity(0, sizeof s, &s); } } return true; }(); (void)once; }
// Calls f (which takes a thread id of the library) on n threads at once and lets them end last to first, so that every run finds the free ids in the same order.
template <typename F> void line_up(unsigned n, F f) { std::vector<std::thread> t; std::atomic<unsigned> in{0}; std::vector<std::unique_ptr<std::atomic<int>>> go; std::vector<std::pair<unsigned, unsigned>> ids; for (unsigned i = 0; i < n; i++) go.emplace_back(new std::atomic<int>(0)); std::atomic<int> ready{0}; std::vector<unsigned> id(n);
  for (unsigned i = 0; i < n; i++) { t.emplace_back([&, i] { id[i] = (unsigned)f(); ready.store(1); ::syscall(SYS_futex, (int*)&ready, FUTEX_WAKE_PRIVATE, 1, nullptr, 0, 0); fwait(*go[i]); }); fwait(ready); }
  for (unsigned i = 0; i < n; i++) ids.push_back({id[i], i}); std::sort(ids.rbegin(), ids.rend()); for (auto& x : ids) { fwake(*go[x.second]); t[x.second].join(); } }
struct Stats { u64 steps, switches, waits; };
// Run f as controlled thread 0 (it starts the others); returns when every controlled thread has finished.
inline Stats run(const Config& c, std::function<void()> f) {
  pin(); static u64 ids = 0; World w; w.run_id = ++ids; w.cfg = c; w.rng = c.seed; W = &w; Thr* t = start(std::move(f)); fwake(t->go);
  while (w.over.load() == 0) ::syscall(SYS_futex, (int*)&w.over, FUTEX_WAIT_PRIVATE, 0, nullptr, 0, 0);
  for (auto& x : w.all) if (x->real.joinable()) x->real.join();
  W = nullptr; return {w.steps, w.switches, w.waits};
}

template <typename T> T vload(const T* p) { point(); if (me && !me->buf.empty()) { for (size_t i = me->buf.size(); i-- > 0;) { Entry& e = me->buf[i]; if (e.addr == (char*)p && e.size == sizeof(T)) { T r; memcpy((void*)&r, e.bytes, sizeof(T)); return r; } if (e.addr < (char*)p + sizeof(T) && (char*)p < e.addr + e.size) { drain(me); break; } } } T r; __atomic_load(const_cast<T*>(p), &r, __ATOMIC_SEQ_CST); return r; }
template <typename T> void vstore(T* p, T v, int order) { point(); if (me && !quiet && W->cfg.tso && order != __ATOMIC_SEQ_CST && sizeof(T) <= 16) { Entry e; e.addr = (char*)p; e.size = sizeof(T); e.born = W->steps; memcpy(e.bytes, (const void*)&v, sizeof(T)); if (me->buf.size() >= 30) drain(me); me->buf.push_back(e); return; } drain_self(); __atomic_store(p, &v, __ATOMIC_SEQ_CST); }
template <typename T> T vexchange(T* p, T v) { point(); drain_self(); T r; __atomic_exchange(p, &v, &r, __ATOMIC_SEQ_CST); return r; }
template <typename T> bool vcas(T* p, T* e, T v, bool weak) { point(); drain_self(); if (weak && me && !quiet && W->cfg.random && rnd() % 16 == 0) { __atomic_load(p, e, __ATOMIC_SEQ_CST); return false; } return __atomic_compare_exchange(p, e, &v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
inline void vfence(int o) { point(); if (o == __ATOMIC_SEQ_CST) drain_self(); }
inline long vsys(long nr, const void* a, int op, int val) { if (nr != SYS_futex || !me) return nr == SYS_futex ? ::syscall(nr, a, op, val, nullptr, 0, 0) : -1; point(); if (quiet) return 0; op &= ~FUTEX_PRIVATE_FLAG; if (op == FUTEX_WAIT) { drain(me); if (*(const volatile int*)a != val) return -1; block(a); return 0; } drain(me); return (long)wake(a, (size_t)val); }
template <typename T, typename U> T vadd(T* p, U v) { point(); drain_self(); return __atomic_fetch_add(p, (T)v, __ATOMIC_SEQ_CST); }
template <typename T, typename U> T vsub(T* p, U v) { point(); drain_self(); return __atomic_fetch_sub(p, (T)v, __ATOMIC_SEQ_CST); }
}  // namespace ctl

// every deletion commits the buffered stores first: memory never changes hands with a store to it still pending
#ifdef CTL_MAIN
namespace ctl {
// Memory of controlled threads: within a run a freed block is the next one handed out again, whatever happened before the run.
#if !defined(__SANITIZE_ADDRESS__) && !(defined(__has_feature) && __has_feature(address_sanitizer))
struct Arena { char *base = nullptr, *cur = nullptr, *end = nullptr; void* freed[33] = {}; u64 of = 0; };
inline Arena A; inline u64 runs = 0;
inline void* arena_new(size_t n) { if (!me || !W || n > 496) return nullptr; if (!A.base) { size_t z = 1ull << 36; void* m = mmap(nullptr, z, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) return nullptr; A.base = A.cur = (char*)m; A.end = A.base + z; } if (A.of != W->run_id) { A.of = W->run_id; W->arena_from = A.cur; memset(A.freed, 0, sizeof A.freed); } size_t c = (n + 15) / 16; if (void* p = A.freed[c]) { A.freed[c] = *(void**)p; return p; } if (A.cur + 16 + c * 16 > A.end) return nullptr; *(size_t*)A.cur = c; char* p = A.cur + 16; A.cur += 16 + c * 16 + 16; return p; }
inline bool arena_free(void* p) { if (!A.base || (char*)p < A.base || (char*)p >= A.end) return false; if (me && W && A.of == W->run_id && (char*)p >= W->arena_from) { size_t c = *(size_t*)((char*)p - 16); memset(p, 0xdb, c * 16); *(void**)p = A.freed[c]; A.freed[c] = p; } return true; }
#else
inline void* arena_new(size_t) { return nullptr; } inline bool arena_free(void*) { return false; }
#endif
}
#define CTL_NEW_(n, al) if ((al) <= 16) { if (void* q = ctl::arena_new(n)) return q; } void* p = (al) > 16 ? aligned_alloc((al), ((n) + (al) - 1) / (al) * (al)) : malloc((n) ? (n) : 1); if (!p) throw std::bad_alloc(); return p;
void* operator new(size_t n) { CTL_NEW_(n, 0) } void* operator new[](size_t n) { CTL_NEW_(n, 0) }
void* operator new(size_t n, std::align_val_t a) { CTL_NEW_(n, (size_t)a) } void* operator new[](size_t n, std::align_val_t a) { CTL_NEW_(n, (size_t)a) }
#define CTL_DEL_ { if (!p) return; ctl::drain_self(); if (!ctl::arena_free(p)) free(p); }
void operator delete(void* p) noexcept CTL_DEL_ void operator delete[](void* p) noexcept CTL_DEL_ void operator delete(void* p, size_t) noexcept CTL_DEL_ void operator delete[](void* p, size_t) noexcept CTL_DEL_
void operator delete(void* p, std::align_val_t) noexcept CTL_DEL_ void operator delete[](void* p, std::align_val_t) noexcept CTL_DEL_ void operator delete(void* p, size_t, std::align_val_t) noexcept CTL_DEL_ void operator delete[](void* p, size_t, std::align_val_t) noexcept CTL_DEL_
#endif

namespace std {
template <typename T> class vatomic {
  alignas(sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8 || sizeof(T) == 16 ? (sizeof(T) > alignof(T) ? sizeof(T) : alignof(T)) : alignof(T)) T v;
  static constexpr int ord(memory_order o) { return (int)o; }
 public:
  using value_type = T; static constexpr bool is_always_lock_free = std::atomic<T>::is_always_lock_free; bool is_lock_free() const { return is_always_lock_free; }
  constexpr vatomic() noexcept : v() {} constexpr vatomic(T x) noexcept : v(x) {} vatomic(const vatomic&) = delete; vatomic& operator=(const vatomic&) = delete;
  ~vatomic() { if (ctl::me && !ctl::me->buf.empty()) ctl::drain_self(); }
  T load(memory_order = memory_order_seq_cst) const noexcept { return ctl::vload(&v); } operator T() const noexcept { return load(); }
  void store(T x, memory_order o = memory_order_seq_cst) noexcept { ctl::vstore(&v, x, ord(o)); } T operator=(T x) noexcept { store(x); return x; }
  T exchange(T x, memory_order = memory_order_seq_cst) noexcept { return ctl::vexchange(&v, x); }
  bool compare_exchange_strong(T& e, T x, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept { return ctl::vcas(&v, &e, x, false); }
  bool compare_exchange_weak(T& e, T x, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept { return ctl::vcas(&v, &e, x, true); }
  template <typename U> T fetch_add(U x, memory_order = memory_order_seq_cst) noexcept { return rmw([&](T o) { return (T)(o + x); }); }
  template <typename U> T fetch_sub(U x, memory_order = memory_order_seq_cst) noexcept { return rmw([&](T o) { return (T)(o - x); }); }
  T fetch_and(T x, memory_order = memory_order_seq_cst) noexcept { return rmw([&](T o) { return (T)(o & x); }); } T fetch_or(T x, memory_order = memory_order_seq_cst) noexcept { return rmw([&](T o) { return (T)(o | x); }); } T fetch_xor(T x, memory_order = memory_order_seq_cst) noexcept { return rmw([&](T o) { return (T)(o ^ x); }); }
  T operator++() { return fetch_add(1) + 1; } T operator++(int) { return fetch_add(1); } T operator--() { return fetch_sub(1) - 1; } T operator--(int) { return fetch_sub(1); } template <typename U> T operator+=(U x) { return fetch_add(x) + x; } template <typename U> T operator-=(U x) { return fetch_sub(x) - x; } T operator|=(T x) { return fetch_or(x) | x; } T operator&=(T x) { return fetch_and(x) & x; }
  void wait(T old, memory_order = memory_order_seq_cst) const { while (true) { T c = load(); if (memcmp(&c, &old, sizeof(T))) return; if (!ctl::me) { std::this_thread::yield(); continue; } ctl::drain_self(); T d; __atomic_load(const_cast<T*>(&v), &d, __ATOMIC_SEQ_CST); if (memcmp(&d, &old, sizeof(T))) return; ctl::block(this); } }
  void notify_one() { ctl::point(); ctl::drain_self(); ctl::wake(this, 1); } void notify_all() { ctl::point(); ctl::drain_self(); ctl::wake(this, 1000); }
 private:
  template <typename F> T rmw(F f) { ctl::point(); ctl::drain_self(); T o, n; __atomic_load(&v, &o, __ATOMIC_SEQ_CST); do n = f(o); while (!__atomic_compare_exchange(&v, &o, &n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)); return o; }
};
template <typename T> T atomic_load(const vatomic<T>* a) { return a->load(); } template <typename T> T atomic_load_explicit(const vatomic<T>* a, memory_order o) { return a->load(o); } template <typename T, typename U> void atomic_store(vatomic<T>* a, U x) { a->store((T)x); } template <typename T, typename U> void atomic_store_explicit(vatomic<T>* a, U x, memory_order o) { a->store((T)x, o); } template <typename T, typename U> T atomic_exchange(vatomic<T>* a, U x) { return a->exchange((T)x); } template <typename T, typename U> T atomic_fetch_add(vatomic<T>* a, U x) { return a->fetch_add(x); } template <typename T, typename U> T atomic_fetch_sub(vatomic<T>* a, U x) { return a->fetch_sub(x); }
template <typename T, typename U> bool atomic_compare_exchange_weak(vatomic<T>* a, T* e, U x) { return a->compare_exchange_weak(*e, (T)x); } template <typename T, typename U> bool atomic_compare_exchange_strong(vatomic<T>* a, T* e, U x) { return a->compare_exchange_strong(*e, (T)x); } template <typename T, typename U> bool atomic_compare_exchange_weak_explicit(vatomic<T>* a, T* e, U x, memory_order, memory_order) { return a->compare_exchange_weak(*e, (T)x); } template <typename T, typename U> bool atomic_compare_exchange_strong_explicit(vatomic<T>* a, T* e, U x, memory_order, memory_order) { return a->compare_exchange_strong(*e, (T)x); }
template <typename T, typename U> void atomic_wait(const vatomic<T>* a, U x) { a->wait((T)x); } template <typename T, typename U> void atomic_wait_explicit(const vatomic<T>* a, U x, memory_order o) { a->wait((T)x, o); } template <typename T> void atomic_notify_one(vatomic<T>* a) { a->notify_one(); } template <typename T> void atomic_notify_all(vatomic<T>* a) { a->notify_all(); }
inline void vatomic_thread_fence(memory_order o) { ctl::vfence((int)o); }
struct vatomic_flag { vatomic<bool> b{false}; bool test_and_set(memory_order = memory_order_seq_cst) { return b.exchange(true); } void clear(memory_order o = memory_order_seq_cst) { b.store(false, o); } bool test(memory_order o = memory_order_seq_cst) const { return b.load(o); } };
class vmutex {
  bool held = false; std::mutex real;
 public:
  constexpr vmutex() noexcept = default; vmutex(const vmutex&) = delete; vmutex& operator=(const vmutex&) = delete;
  void lock() { if (!ctl::me) { real.lock(); return; } ctl::point(); while (held) ctl::block(this); ctl::drain_self(); held = true; }
  bool try_lock() { if (!ctl::me) return real.try_lock(); ctl::point(); if (held) return false; ctl::drain_self(); held = true; return true; }
  void unlock() { if (!ctl::me) { real.unlock(); return; } ctl::drain_self(); held = false; ctl::wake(this, 1000); ctl::point(); }
};
class vthread {
  std::thread real; ctl::Thr* t = nullptr;
 public:
  using id = std::thread::id; using native_handle_type = std::thread::native_handle_type;
  vthread() = default; vthread(vthread&& o) noexcept : real(std::move(o.real)), t(std::exchange(o.t, nullptr)) {} vthread& operator=(vthread&& o) noexcept { if (joinable()) std::terminate(); real = std::move(o.real); t = std::exchange(o.t, nullptr); return *this; }
  template <typename F, typename... A, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, vthread>>> explicit vthread(F&& f, A&&... a) { if (!ctl::me) { real = std::thread(std::forward<F>(f), std::forward<A>(a)...); return; } ctl::point(); ctl::drain_self(); auto p = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...); t = ctl::start([p] { std::apply([](auto&&... x) { std::invoke(std::move(x)...); }, std::move(*p)); }); ctl::point(); }
  ~vthread() { if (joinable()) std::terminate(); }
  bool joinable() const { return t || real.joinable(); } void join() { if (!t) { real.join(); return; } ctl::point(); ctl::drain_self(); while (t->st != ctl::DONE) ctl::block(t); t = nullptr; } void detach() { if (t) t = nullptr; else real.detach(); }
  id get_id() const { return t ? t->real.get_id() : real.get_id(); } static unsigned hardware_concurrency() noexcept { return 1; } void swap(vthread& o) { std::swap(real, o.real); std::swap(t, o.t); }
};
namespace vthis_thread { inline void yield() { ctl::yield(); } template <typename D> void sleep_for(const D&) { ctl::yield(); } template <typename D> void sleep_until(const D&) { ctl::yield(); } inline std::thread::id get_id() { return std::this_thread::get_id(); } }
namespace chrono { struct vsteady_clock { using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<vsteady_clock, duration>; static constexpr bool is_steady = true; static time_point now() noexcept { if (!ctl::me) return time_point(std::chrono::steady_clock::now().time_since_epoch()); return time_point(duration((rep)(ctl::W->now += ctl::W->cfg.tick) * 1000)); } }; }
}  // namespace std

#define atomic vatomic
#define atomic_thread_fence vatomic_thread_fence
#define atomic_flag vatomic_flag
#define mutex vmutex
#define thread vthread
#define this_thread vthis_thread
#define steady_clock vsteady_clock
#define high_resolution_clock vsteady_clock
#define sched_yield() ctl::yield()
#define usleep(x) ctl::yield()
#define CTL_SYS_(nr, a, op, val, ...) ctl::vsys((nr), (a), (op), (int)(val))
#define syscall(...) CTL_SYS_(__VA_ARGS__, 0)
#define __atomic_load_n(p, o) ctl::vload(p)
#define __atomic_store_n(p, v, o) ctl::vstore((p), (std::remove_reference_t<decltype(*(p))>)(v), (int)(o))
#define __atomic_exchange_n(p, v, o) ctl::vexchange((p), (std::remove_reference_t<decltype(*(p))>)(v))
#define __atomic_fetch_add(p, v, o) ctl::vadd((p), (v))
#define __atomic_fetch_sub(p, v, o) ctl::vsub((p), (v))
#define __atomic_thread_fence(o) ctl::vfence(o)
#endif
