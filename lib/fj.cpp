#include "fj/fj.h"
#include <ucontext.h>
#include <stdlib.h>
#include <stdio.h>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define FJ_TSAN 1
#include <sanitizer/tsan_interface.h>
#endif
#endif
#define RAW __attribute__((no_sanitize("thread"), noinline))
namespace fj {
namespace {
struct Co { ucontext_t ctx; void* stack; void* fiber; Fn f; void* arg; Co* waiter; int done; int slot; int id; };
enum { STACK = 512 * 1024, MAXLIVE = 1500 };
Co root; Co* cur = nullptr; Co* ready[MAXLIVE + 8]; int nready = 0, live = 0, mode = 0, nw = 4; uint64_t state = 1; size_t spawned = 0; pthread_t owner; __thread int mine = 0;
RAW uint64_t next() { uint64_t z = (state += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
RAW void push(Co* c) { c->slot = nready; ready[nready++] = c; }
RAW void take(Co* c) { int s = c->slot; ready[s] = ready[--nready]; ready[s]->slot = s; c->slot = -1; }
RAW void go(Co* t) { Co* me = cur; cur = t;
#ifdef FJ_TSAN
  __tsan_switch_to_fiber(t->fiber, __tsan_switch_to_fiber_no_sync);
#endif
  swapcontext(&me->ctx, &t->ctx); }
RAW void entry(unsigned hi, unsigned lo) { Co* c = (Co*)((uintptr_t)hi << 32 | lo); c->f(c->arg);
#ifdef FJ_TSAN
  __tsan_release(c);
#endif
  c->done = 1; if (c->waiter) push(c->waiter); if (!nready) { fprintf(stderr, "fj: nothing to run\n"); abort(); } Co* t = (mode == 0 || live > 60) && c->waiter ? c->waiter : ready[next() % (unsigned)nready]; take(t); go(t); abort(); }
RAW void yield() { if (!nready || live > 60) return; Co* t = ready[next() % (unsigned)nready]; take(t); push(cur); go(t); }
}
RAW void begin(uint64_t seed, int m) { state = seed; mode = m; cur = &root; nready = 0; live = 0; spawned = 0; root.id = 0; mine = 1;
#ifdef FJ_TSAN
  root.fiber = __tsan_get_current_fiber();
#endif
}
RAW void end() { if (nready || live) { fprintf(stderr, "fj: %d tasks left\n", live); abort(); } cur = nullptr; mine = 0; }
RAW size_t tasks() { return spawned; }
RAW uint64_t rnd() { return next(); }
RAW int workers() { return nw; }
RAW int worker() { return cur && mine ? cur->id % nw : 0; }
RAW void set_workers(int n) { nw = n < 1 ? 1 : n; }
RAW size_t leaf_for(size_t n) { if (!cur || !mine) return n; size_t k = spawned > 3000 ? 1 + next() % 3 : 1 + next() % (next() % 4 ? 6 : 40); size_t l = n / k; return l ? l : 1; }
RAW void run2(Fn a, void* pa, Fn b, void* pb) {
  if (!cur || !mine || live >= MAXLIVE) { a(pa); b(pb); return; }
  if (next() % 2) { Fn f = a; a = b; b = f; void* p = pa; pa = pb; pb = p; }
  Co* c = (Co*)calloc(1, sizeof(Co)); c->stack = malloc(STACK); c->f = b; c->arg = pb; c->id = (int)(++spawned); live++;
#ifdef FJ_TSAN
  c->fiber = __tsan_create_fiber(0);
#endif
  getcontext(&c->ctx); c->ctx.uc_stack.ss_sp = c->stack; c->ctx.uc_stack.ss_size = STACK; c->ctx.uc_link = nullptr; makecontext(&c->ctx, (void (*)())entry, 2, (unsigned)((uintptr_t)c >> 32), (unsigned)(uintptr_t)c);
  push(c); if (mode >= 1 && next() % 4 == 0) yield();
  a(pa);
  if (mode >= 1 && next() % 4 == 0) yield();
  while (!c->done) { c->waiter = cur; Co* t; if ((mode == 0 || live > 60) && c->slot >= 0) t = c; else { if (!nready) { fprintf(stderr, "fj: deadlock\n"); abort(); } t = ready[next() % (unsigned)nready]; } take(t); go(t); }
#ifdef FJ_TSAN
  __tsan_acquire(c); __tsan_destroy_fiber(c->fiber);
#endif
  live--; free(c->stack); free(c);
}
}
extern "C" void pbt_yield(unsigned long) { if (fj::cur && fj::mine && fj::mode >= 2 && fj::next() % 8 == 0) fj::yield(); }
