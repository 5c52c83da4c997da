#include "seqm.h"
using namespace sm;
#define H(NAME, MAXN, ...) PBT_SUB(NAME, 4000, 40000, 30, F_NONE) { history<__VA_ARGS__>(g, #__VA_ARGS__, MAXN); }
#if PART == 0
H(ints, 5000, parlay::sequence<int64_t>)
#elif PART == 1
H(chars, 5000, parlay::chars)
#elif PART == 2
H(short_ints, 5000, parlay::short_sequence<int>)
#elif PART == 3
H(short_u16, 5000, parlay::short_sequence<uint16_t, CAlloc<uint16_t>>)
#elif PART == 4
H(strings, 2500, parlay::sequence<std::string>)
#elif PART == 5
H(nested, 2500, parlay::sequence<parlay::sequence<int>>)
#elif PART == 6
H(unique, 2500, parlay::sequence<std::unique_ptr<int64_t>>)
#elif PART == 7
H(huge, 300, parlay::sequence<Huge<9000>>)
#elif PART == 8
H(aligned, 2500, parlay::sequence<Al<64>, std::allocator<Al<64>>>)
#else
H(padded, 2500, parlay::short_sequence<Al<256>>)
#endif
