// Internal functions of the library that the harnesses call by name. When a file does not compile with them
// (check.py, VERIF_NO_INTERNAL) the public function that rests on the same code stands in, so that renaming one is no violation.
#ifndef VERIF_LIN_H
#define VERIF_LIN_H
#include "pbt.h"
#include <algorithm>
#include <parlay/primitives.h>
#ifndef VERIF_NO_INTERNAL
#include <parlay/internal/merge.h>
#include <parlay/internal/merge_sort.h>
#include <parlay/internal/quicksort.h>
#include <parlay/internal/bucket_sort.h>
#include <parlay/internal/binary_search.h>
#include <parlay/internal/integer_sort.h>
#include <parlay/internal/counting_sort.h>
#endif
namespace lin {
#ifndef VERIF_NO_INTERNAL
template <typename F> void sliced_for(size_t n, size_t bs, F f, bool cons) { parlay::internal::sliced_for(n, bs, f, cons ? parlay::fl_conservative : parlay::no_flag); }
template <typename S, typename C> void quicksort(S s, const C& c) { parlay::internal::quicksort(s, c); }
template <typename S, typename C> void bucket_sort(S s, const C& c, bool stable) { parlay::internal::bucket_sort(s, c, stable); }
template <typename S, typename C> auto merge_sort(S s, const C& c) { return parlay::internal::merge_sort(s, c); }
template <typename S, typename T, typename C> auto merge(S a, T b, const C& c) { return parlay::internal::merge(a, b, c, true); }
template <typename S, typename... A> size_t binary_search(const S& s, A&&... a) { return parlay::internal::binary_search(s, std::forward<A>(a)...); }
template <typename F> size_t find_if_index(size_t n, F f, size_t gr) { return parlay::internal::find_if_index(n, f, gr); }
template <typename F> size_t count_if_index(size_t n, F f) { return parlay::internal::count_if_index(n, f); }
template <typename S, typename K> auto integer_sort(S s, K k, unsigned bits) { return parlay::internal::integer_sort(s, k, bits); }
template <typename S, typename K> auto integer_sort_with_counts(S s, K k, size_t nb) { return parlay::internal::integer_sort_with_counts(s, k, nb); }
#else
template <typename F> void sliced_for(size_t n, size_t bs, F f, bool cons) { parlay::blocked_for(0, n, bs, f, cons); }
template <typename S, typename C> void quicksort(S s, const C& c) { parlay::sort_inplace(s, c); }
template <typename S, typename C> void bucket_sort(S s, const C& c, bool) { parlay::stable_sort_inplace(s, c); }
template <typename S, typename C> auto merge_sort(S s, const C& c) { return parlay::stable_sort(s, c); }
template <typename S, typename T, typename C> auto merge(S a, T b, const C& c) { return parlay::merge(a, b, c); }
template <typename S, typename Q, typename L> size_t binary_search(const S& s, const Q& q, L l) { return (size_t)(std::lower_bound(s.begin(), s.end(), q, [&](const auto& a, const auto& b) -> bool { return l(a, b) ? true : false; }) - s.begin()); }
template <typename S, typename P> size_t binary_search(const S& s, P p) { return (size_t)(std::partition_point(s.begin(), s.end(), p) - s.begin()); }
template <typename F> size_t find_if_index(size_t n, F f, size_t) { auto v = parlay::iota<size_t>(n); return (size_t)(parlay::find_if(v, f) - v.begin()); }
template <typename F> size_t count_if_index(size_t n, F f) { return parlay::count_if(parlay::iota<size_t>(n), f); }
template <typename S, typename K> auto integer_sort(S s, K k, unsigned) { return parlay::stable_integer_sort(s, k); }
template <typename S, typename K> auto integer_sort_with_counts(S s, K k, size_t nb) { auto r = parlay::stable_integer_sort(s, k); parlay::sequence<size_t> c(nb, 0); for (auto& x : r) c[(size_t)k(x)]++; return std::make_pair(std::move(r), std::move(c)); }
#endif
}
#endif
