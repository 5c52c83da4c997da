#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HEAP_NOW() ((long)__sanitizer_get_current_allocated_bytes())
#include <cstring>
inline int& fill_byte() { static int b = -1; return b; }
inline void fill_on() { static int once = __sanitizer_install_malloc_and_free_hooks([](const volatile void* p, size_t n) { if (fill_byte() >= 0) memset((void*)p, fill_byte(), n < (1u << 22) ? n : (1u << 22)); }, [](const volatile void*) {}); (void)once; }
#define FILL(B) (fill_on(), fill_byte() = (B))
#endif
#endif
#ifndef HEAP_NOW
#define HEAP_NOW() 0L
#define FILL(B)
#endif
#if PART < 12
#include "algos.h"
using namespace al;
namespace { template <typename T, int Part> void mem_case(Gen& g, const char* type) {
  size_t maxn = sizeof(T) > 4000 ? 1200 : sizeof(T) > 100 ? 9000 : g.thorough ? 40000 : 12000;
  int which = Part + NP * (int)g.below(NALGO / NP); Ctx c = ctx(g, maxn); Dig dummy; const char* nm = algo<T, Part>(which, c, dummy, true);
  g.desc << nm << " of " << type << " " << describe(c); g.ready(); g.label(nm); g.mark(c.n > 1); set_jitter(c.sd, c.jit);
  // memory that was never written must not influence a result: fresh blocks come filled with different bytes
  { Dig d, e, f; FILL(0x5a); algo<T, Part>(which, c, d); FILL(0xff); algo<T, Part>(which, c, e); FILL(-1); if (d.v != e.v) { FILL(0x5a); algo<T, Part>(which, c, f); FILL(-1); CHECK(d.v != f.v, nm, "depends on the contents of fresh memory", diff(d, e)); } }
  if (c.n < 3000 && std::string(nm) != "stack" && std::string(nm) != "format nested") for (int again = 0;; again++) { long b0; { b0 = HEAP_NOW(); Dig d; algo<T, Part>(which, c, d); } long b1 = HEAP_NOW(); if (b1 - b0 < 64) break; CHECK(again < 12, nm, "keeps", b1 - b0, "bytes on every call"); }
} }
#define A_(K, T) PBT_SUB(algos##K, 500, 5000, 60, F_NONE) { mem_case<T, K>(g, #T); }
#if PART == 0
A_(0, vt::Small)
#elif PART == 1
A_(1, vt::Padded<300>)
#elif PART == 2
A_(2, std::string)
#elif PART == 3
A_(3, vt::Small)
#elif PART == 4
A_(4, vt::Padded<300>)
#elif PART == 5
A_(5, std::string)
#elif PART == 6
A_(0, vt::Padded<9000>)
#elif PART == 7
A_(1, vt::Small)
#elif PART == 8
A_(2, vt::Padded<9000>)
#elif PART == 9
A_(3, std::string)
#elif PART == 10
A_(4, vt::Small)
#elif PART == 11
A_(5, vt::Padded<9000>)
#endif
#elif PART == 12
#include "seqm.h"
using namespace sm;
PBT_SUB(histories, 3000, 30000, 60, F_NONE) { history<parlay::sequence<std::string>>(g, "sequence<string>", 3000); }
#elif PART == 13
#include "seqm.h"
using namespace sm;
PBT_SUB(char_histories, 3000, 30000, 60, F_NONE) { history<parlay::chars>(g, "chars", 5000); }
#endif
