// Every byte taken through operator new is counted, filled when taken and when given back, and checked against double frees.
#include <cstdlib>
#include <cstddef>
#include <cstring>
#include <new>
#include <atomic>
#include "pbt.h"
using namespace pbt;
std::atomic<long> heap_bytes{0}, heap_blocks{0}; namespace { struct Hd { size_t n, off; }; 
void* take(size_t n, size_t a) { if (a < 16) a = 16; size_t off = (sizeof(Hd) + a - 1) / a * a; char* b = (char*)aligned_alloc(a, (n + off + a - 1) / a * a); if (!b) abort(); char* p = b + off; ((Hd*)p)[-1] = {n, off}; heap_bytes += (long)n; heap_blocks++; memset(p, 0xCD, n); return p; }
void drop(void* p) { if (!p) return; Hd h = ((Hd*)p)[-1]; if (h.off == 0xDEAD) { soft_fail("block freed twice"); return; } heap_bytes -= (long)h.n; heap_blocks--; memset(p, 0xDF, h.n); ((Hd*)p)[-1].off = 0xDEAD; free((char*)p - h.off); } }
void* operator new(size_t n) { return take(n, 16); } void* operator new[](size_t n) { return take(n, 16); } void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); } void* operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void operator delete(void* p) noexcept { drop(p); } void operator delete[](void* p) noexcept { drop(p); } void operator delete(void* p, size_t) noexcept { drop(p); } void operator delete[](void* p, size_t) noexcept { drop(p); } void operator delete(void* p, std::align_val_t) noexcept { drop(p); } void operator delete[](void* p, std::align_val_t) noexcept { drop(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { drop(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { drop(p); }
