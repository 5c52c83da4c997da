// A fork-join executor of one OS thread, behind stand-ins for the oneTBB headers that parlay's TBB back end includes.
// Every spawned task is a coroutine on a stack of its own; forks, joins and jitter() are the points at which it may be exchanged for another one,
// chosen by a seeded generator. Under ThreadSanitizer each task is a fiber whose only happens-before edges are fork and join, so two accesses
// that no fork or join orders are reported whatever the schedule was.
#ifndef FJ_H
#define FJ_H
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utility>
namespace fj {
typedef void (*Fn)(void*);
void run2(Fn a, void* pa, Fn b, void* pb);   // a and b may run in any order or at once
void begin(uint64_t seed, int mode);         // mode 0: any order, depth first; 1: also exchanged at forks; 2: also at jitter()
void end();
size_t tasks();                              // spawned since begin
uint64_t rnd();
int workers(); int worker();
void set_workers(int);
template <typename F> void call(void* p) { (*static_cast<std::remove_reference_t<F>*>(p))(); }
template <typename A, typename B> void both(A&& a, B&& b) { run2(call<A>, (void*)&a, call<B>, (void*)&b); }
template <typename I, typename Body> void loop(I b, I e, size_t leaf, const Body& f) {
  size_t n = (size_t)(e - b); if (n <= leaf || n < 2) { if (n) f(b, e); return; }
  I m = b + (I)(1 + rnd() % (n - 1)); if (rnd() % 2) m = b + (I)(n / 2);
  both([&] { loop(b, m, leaf, f); }, [&] { loop(m, e, leaf, f); });
}
size_t leaf_for(size_t n);
}
namespace tbb {
struct auto_partitioner {}; struct simple_partitioner {}; struct static_partitioner {};
template <typename T> struct blocked_range { using const_iterator = T; T b_, e_; size_t g_; blocked_range(T b, T e, size_t g = 1) : b_(b), e_(e), g_(g) {} T begin() const { return b_; } T end() const { return e_; } size_t size() const { return (size_t)(e_ - b_); } bool empty() const { return !(b_ < e_); } size_t grainsize() const { return g_; } };
template <typename T, typename Body, typename P = auto_partitioner> void parallel_for(const blocked_range<T>& r, const Body& body, P&& = P()) { if (r.empty()) return; fj::loop(r.begin(), r.end(), fj::leaf_for(r.size()), [&](T x, T y) { body(blocked_range<T>(x, y, r.grainsize())); }); }
template <typename I, typename F> void parallel_for(I b, I e, const F& f) { if (b < e) fj::loop(b, e, fj::leaf_for((size_t)(e - b)), [&](I x, I y) { for (; x < y; ++x) f(x); }); }
template <typename A, typename B> void parallel_invoke(A&& a, B&& b) { fj::both(a, b); }
template <typename A, typename B, typename... C> void parallel_invoke(A&& a, B&& b, C&&... c) { fj::both(a, [&] { tbb::parallel_invoke(b, c...); }); }
struct task_arena { static constexpr int not_initialized = -2, automatic = -1; };
namespace this_task_arena { inline int max_concurrency() { return fj::workers(); } inline int current_thread_index() { return fj::worker(); } template <typename F> auto isolate(F&& f) { return f(); } }
}
#endif
