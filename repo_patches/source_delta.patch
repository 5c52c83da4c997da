From e0321e4e737f66a0edcce710ad9f54aade551ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 01/45] fix: adjacent_find on an empty range reads outside of
 it

---
 include/parlay/primitives.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 962f557..0b4b6ad 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -632,6 +632,7 @@ template <typename R, typename BinaryPred>
 auto adjacent_find(R&& r, BinaryPred&& p) {
   static_assert(is_random_access_range_v<R>);
   static_assert(std::is_invocable_r_v<bool, BinaryPred, range_reference_type_t<R>, range_reference_type_t<R>>);
+  if (parlay::size(r) == 0) return std::end(r);
   auto idx = internal::find_if_index(parlay::size(r) - 1,
                  [&p, it = std::begin(r)](size_t i) {
                    return p(it[i], it[i + 1]); });
-- 
2.43.0


From 7b8ab69fe9528797faec7853fcb307aba263355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 02/45] fix: find_end with a pattern longer than the range
 reads outside of it

---
 include/parlay/primitives.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 0b4b6ad..6a83207 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -703,6 +703,9 @@ auto find_end(R1&& r1, R2&& r2, BinaryPred&& p) {
   // According to the C++ standard, std::find_end should return the end iterator if the pattern is empty
   if (n2 == 0) return std::end(r1);
 
+  // A pattern longer than the range can not occur in it
+  if (n2 > n1) return std::end(r1);
+
   size_t idx = internal::find_if_index(n1 - n2 + 1, [&](size_t i) {
     size_t j;
     for (j = 0; j < n2; j++)
-- 
2.43.0


From 14e81b600bb427389fe5196cc4e5c981b1adf442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 03/45] fix: find_first_of passes the elements to the predicate
 in the wrong order

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 6a83207..dbb8913 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -614,7 +614,7 @@ auto find_first_of(R1&& r1, R2&& r2, BinaryPredicate&& p) {
   static_assert(is_random_access_range_v<R2>);
   static_assert(std::is_invocable_r_v<bool, BinaryPredicate, range_reference_type_t<R1>, range_reference_type_t<R2>>);
   return std::begin(r1) + internal::find_if_index(parlay::size(r1), [&, it = std::begin(r1)] (size_t i) {
-    return find_if(r2, [&, it](auto&& x) { return p(std::forward<decltype(x)>(x), it[i]); }) != std::end(r2);
+    return parlay::find_if(r2, [&, it](auto&& x) { return p(it[i], std::forward<decltype(x)>(x)); }) != std::end(r2);
   });
 }
 
-- 
2.43.0


From 8b80e3f83dcc72c4a1aa6e30bd3b14dca27e19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 04/45] fix: is_sorted and is_sorted_until require the
 elements, not the range, to be comparable

---
 include/parlay/primitives.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index dbb8913..034593e 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -910,7 +910,7 @@ bool is_sorted(R&& r, Compare&& comp) {
 template <typename R>
 bool is_sorted(R&& r) {
   static_assert(is_random_access_range_v<R>);
-  static_assert(is_less_than_comparable_v<R>);
+  static_assert(is_less_than_comparable_v<range_reference_type_t<R>>);
   return parlay::is_sorted(std::forward<R>(r), std::less<>());
 }
 
@@ -926,7 +926,7 @@ auto is_sorted_until(R&& r, Compare&& comp) {
 template <typename R>
 auto is_sorted_until(R& r) {
   static_assert(is_random_access_range_v<R>);
-  static_assert(is_less_than_comparable_v<R>);
+  static_assert(is_less_than_comparable_v<range_reference_type_t<R>>);
   return parlay::is_sorted_until(std::forward<R>(r), std::less<>());
 }
 
-- 
2.43.0


From e9b68957f9982b945230590b8ff21497c0ca50f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 05/45] fix: counting_sort_by_keys does not compile for ranges
 of references

---
 include/parlay/primitives.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 034593e..3547c93 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -488,8 +488,8 @@ template<typename Range>
 [[nodiscard]] auto counting_sort_by_keys(Range&& in, size_t num_buckets) {
   static_assert(is_random_access_range_v<Range>);
   static_assert(is_pair_v<range_reference_type_t<Range>>);
-  static_assert(std::is_integral_v<std::tuple_element_t<0, range_reference_type_t<Range>>>);
-  static_assert(std::is_unsigned_v<std::tuple_element_t<0, range_reference_type_t<Range>>>);
+  static_assert(std::is_integral_v<std::tuple_element_t<0, range_value_type_t<Range>>>);
+  static_assert(std::is_unsigned_v<std::tuple_element_t<0, range_value_type_t<Range>>>);
   auto values = delayed::values_view(in);
   return internal::count_sort(make_slice(values), delayed::keys_view(in), num_buckets);
 }
-- 
2.43.0


From f4cf43d480329c4bee72012a9d9a0a94973e6fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 06/45] fix: heap_tree.h and stream_delayed.h can not be
 included twice

---
 include/parlay/internal/heap_tree.h      | 5 +++++
 include/parlay/internal/stream_delayed.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/parlay/internal/heap_tree.h b/include/parlay/internal/heap_tree.h
index 34d5c44..2494ceb 100644
--- a/include/parlay/internal/heap_tree.h
+++ b/include/parlay/internal/heap_tree.h
@@ -1,3 +1,6 @@
+#ifndef PARLAY_INTERNAL_HEAP_TREE_H_
+#define PARLAY_INTERNAL_HEAP_TREE_H_
+
 #include <cstddef>
 
 #include <functional>
@@ -57,3 +60,5 @@ struct heap_tree {
 
 }  // namespace internal
 }  // namespace parlay
+
+#endif  // PARLAY_INTERNAL_HEAP_TREE_H_
diff --git a/include/parlay/internal/stream_delayed.h b/include/parlay/internal/stream_delayed.h
index d93dc06..8fe5036 100644
--- a/include/parlay/internal/stream_delayed.h
+++ b/include/parlay/internal/stream_delayed.h
@@ -1,3 +1,6 @@
+#ifndef PARLAY_INTERNAL_STREAM_DELAYED_H_
+#define PARLAY_INTERNAL_STREAM_DELAYED_H_
+
 #include <cstddef>
 #include <iterator>
 #include <type_traits>
@@ -207,3 +210,5 @@ auto filter_op(const SeqIn &In, F f) {
 
 }  // namespace stream_delayed
 }  // namespace parlay
+
+#endif  // PARLAY_INTERNAL_STREAM_DELAYED_H_
-- 
2.43.0


From 6ecb0a424cb001e1a4bb5cfdaac250ab09ffb494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 07/45] fix: integer_sort fails an assertion when a key uses
 all 64 bits

---
 include/parlay/internal/integer_sort.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/integer_sort.h b/include/parlay/internal/integer_sort.h
index f2fd452..2ab1156 100644
--- a/include/parlay/internal/integer_sort.h
+++ b/include/parlay/internal/integer_sort.h
@@ -6,6 +6,7 @@
 #include <cstdio>
 
 #include <algorithm>
+#include <limits>
 #include <string>
 #include <tuple>
 #include <type_traits>
@@ -330,7 +331,9 @@ sequence<size_t> integer_sort_(slice<InIterator, InIterator> In,
   if (bits == 0) {
     auto get_key = [&](size_t i) { return static_cast<size_t>(g(In[i])); };
     auto keys = delayed_seq<size_t>(In.size(), get_key);
-    bits = log2_up(internal::reduce(make_slice(keys), maximum<size_t>()) + 1);
+    size_t max_key = internal::reduce(make_slice(keys), maximum<size_t>());
+    // one past the largest key does not fit in a size_t when all bits are used
+    bits = (max_key == (std::numeric_limits<size_t>::max)()) ? std::numeric_limits<size_t>::digits : log2_up(max_key + 1);
   }
   return integer_sort_r<inplace_tag, assignment_tag>(
     In, Out, Tmp, g, bits, num_buckets);
-- 
2.43.0


From e5fd65a070dbc4fa4666100b2c0124708c5e1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 08/45] fix: kth_smallest takes quadratic time and deep
 recursion on elements that tie but differ

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 3547c93..cfccedc 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -1290,7 +1290,7 @@ auto kth_smallest_copy(Range&& in, size_t k, Compare&& less = {}) {
   // elements from the bucket when recursing in case there is a massive number of
   // duplicates of the pivot element
   auto filtered_bucket = parlay::pack(in, parlay::tabulate(n, [&] (size_t i) -> bool {
-    return ids[i] == id && (ids[i] == sample_size || it[i] != pivots[ids[i]]);
+    return ids[i] == id && (ids[i] == sample_size || less(it[i], pivots[ids[i]]) || less(pivots[ids[i]], it[i]));
   }));
   assert(filtered_bucket.size() <= bucket_length);
   auto filtered_bucket_length = filtered_bucket.size();
-- 
2.43.0


From 57f1fdafdd9df2ef9bc45868d6a8c2fafee7df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 09/45] fix: reduce_by_index, histogram_by_index and
 remove_duplicate_integers divide by zero on an empty input

---
 include/parlay/internal/collect_reduce.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parlay/internal/collect_reduce.h b/include/parlay/internal/collect_reduce.h
index 49ea7f9..960ce68 100644
--- a/include/parlay/internal/collect_reduce.h
+++ b/include/parlay/internal/collect_reduce.h
@@ -49,6 +49,7 @@ template <typename Seq, typename Helper>
 auto collect_reduce_few(Seq const &A, Helper const &helper, size_t num_buckets) {
   using result_type = decltype(helper.init());
   size_t n = A.size();
+  if (n == 0) return seq_collect_reduce(A, helper, num_buckets);
 
   size_t num_threads = num_workers();
   size_t num_blocks_ = (std::min)(4 * num_threads, n / num_buckets / 64) + 1;
-- 
2.43.0


From ede00861e426461f6f04a543704f625159ba4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 10/45] fix: group_by_index loses groups when the input is
 longer than the index type can count

---
 include/parlay/internal/group_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index a859411..2a92f47 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -331,7 +331,7 @@ auto group_by_index(R&& A, Integer_t num_buckets) {
     size_t bits = log2_up(num_buckets);
     auto sorted = internal::integer_sort(make_slice(A), internal::get_key, bits);
 
-    auto iota = internal::delayed_tabulate(n, [](Integer_t i) { return i; });
+    auto iota = internal::delayed_tabulate(n, [](size_t i) { return i; });
     auto starts = block_delayed::filter(iota, [&] (size_t i) {
 	return (i==0) || internal::get_key(sorted[i-1]) < internal::get_key(sorted[i]);});
     size_t m = starts.size();
-- 
2.43.0


From 6d1c29262bf4d23c48d4ecee7e7fc53aa1715327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:28 +0000
Subject: [PATCH 11/45] fix: remove_duplicate_integers returns integers that do
 not occur in the input

---
 include/parlay/internal/group_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/group_by.h b/include/parlay/internal/group_by.h
index 2a92f47..2ece1ef 100644
--- a/include/parlay/internal/group_by.h
+++ b/include/parlay/internal/group_by.h
@@ -277,7 +277,7 @@ auto remove_duplicate_integers(R&& A, Integer_t max_value) {
     static key_type get_key(const key_type& a) { return a; }
     static val_type get_val(const key_type&) { return true; }
     static val_type init() { return false; }
-    static void update(val_type& d, val_type) { d = true; }
+    static void update(val_type& d, val_type a) { d = d || a; }
     static void combine(val_type& d, slice<key_type*,key_type*>) {
       d = true; }
   };
-- 
2.43.0


From d4b463814a20c457b787b2e048d7a2681b44d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:11 +0000
Subject: [PATCH 12/45] fix: delayed scan_inclusive of a single block reads
 past its block sums

---
 include/parlay/internal/delayed/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/scan.h b/include/parlay/internal/delayed/scan.h
index 56bbf0a..d85e5fe 100644
--- a/include/parlay/internal/delayed/scan.h
+++ b/include/parlay/internal/delayed/scan.h
@@ -61,7 +61,7 @@ struct block_delayed_scan_t :
       total = parlay::internal::scan_inplace(make_slice(block_sums), parlay::make_monoid(*(op.get()), identity));
     }
     else {
-      block_sums = sequence<T>(1, identity);
+      block_sums = sequence<T>(n_blocks + 1, identity);
     }
 
     // If inclusive, each block needs to initially include its first value
-- 
2.43.0


From f588d2dc690f7fcd2c83dcc0f505cc883eac70f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 13/45] fix: assigning a delayed filter or flatten view swaps
 the contents of the ranges it refers to

---
 include/parlay/internal/delayed/filter.h  | 2 +-
 include/parlay/internal/delayed/flatten.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/delayed/filter.h b/include/parlay/internal/delayed/filter.h
index f73b50c..c80a63c 100644
--- a/include/parlay/internal/delayed/filter.h
+++ b/include/parlay/internal/delayed/filter.h
@@ -55,7 +55,7 @@ struct block_delayed_filter_t :
 
   friend void swap(block_delayed_filter_t& first, block_delayed_filter_t& second) {
     using std::swap;
-    swap(first.base_view(), second.base_view());
+    swap(static_cast<base&>(first), static_cast<base&>(second));
     swap(first.result, second.result);
     swap(first.p, second.p);
   }
diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index ce4874b..a53d40b 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -65,7 +65,7 @@ struct block_delayed_flatten_t :
 
   friend void swap(block_delayed_flatten_t& first, block_delayed_flatten_t& second) {
     using std::swap;
-    swap(first.base_view(), second.base_view());
+    swap(static_cast<base&>(first), static_cast<base&>(second));
     swap(first.n_blocks, second.n_blocks);
     swap(first.n_elements, second.n_elements);
     swap(first.outer_starts, second.outer_starts);
-- 
2.43.0


From 5b9606077dc3e490c8d9a0b07fdae820fb8e9a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 14/45] fix: moving a delayed view that owns its range leaves
 stored iterators dangling

---
 include/parlay/internal/delayed/common.h | 26 ++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/delayed/common.h b/include/parlay/internal/delayed/common.h
index fef4623..a0128ff 100644
--- a/include/parlay/internal/delayed/common.h
+++ b/include/parlay/internal/delayed/common.h
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <memory>
 #include <utility>
 #include <type_traits>
 
@@ -140,6 +141,25 @@ using view_storage_type = std::conditional_t<std::is_lvalue_reference_v<T>,
                             std::reference_wrapper<std::remove_reference_t<T>>,
                                                    std::remove_reference_t<T>>;
 
+// Owns a view at an address that does not change when the owner is moved or swapped,
+// so that iterators into the view that are stored alongside it remain valid. Copying
+// makes a copy of the view.
+template<typename View>
+struct stable_view {
+  explicit stable_view(View&& v) : ptr(std::make_unique<View>(std::move(v))) { }
+  stable_view(const stable_view& other) : ptr(std::make_unique<View>(*other.ptr)) { }
+  stable_view(stable_view&&) noexcept = default;
+  stable_view& operator=(const stable_view& other) { return *this = stable_view(other); }
+  stable_view& operator=(stable_view&&) noexcept = default;
+  ~stable_view() = default;
+
+  /* implicit */ operator View&() { return *ptr; }
+  /* implicit */ operator const View&() const { return *ptr; }
+
+ private:
+  std::unique_ptr<View> ptr;
+};
+
 template<typename UnderlyingView>
 struct block_iterable_view_base_data {
   explicit block_iterable_view_base_data(UnderlyingView&& v) : view_m(static_cast<UnderlyingView&&>(v)) { }
@@ -148,7 +168,8 @@ struct block_iterable_view_base_data {
   const UnderlyingView& base_view() const { return view_m; }
 
  private:
-  view_storage_type<UnderlyingView> view_m;
+  std::conditional_t<std::is_lvalue_reference_v<UnderlyingView>,
+      view_storage_type<UnderlyingView>, stable_view<std::remove_reference_t<UnderlyingView>>> view_m;
 };
 
 template<>
@@ -175,7 +196,8 @@ struct block_iterable_view_base_data<void> { };
 // The base class also helps to store the base view. If the underlying (base) view is
 // a reference type, then it is wrapped in a reference_wrapper so that the parent
 // view type is still copy-assignable. If the underlying view is not a reference type,
-// then it is just stored as a value member.
+// then it is owned by the view, but kept at a stable address, since parent views may
+// store iterators into it.
 //
 // If the underlying view is void, then no extra data member is stored. This is useful
 // if the view is actually going to move/copy the underlying data and store it itself.
-- 
2.43.0


From 56db4813a72cea08ef7fdbc0dea538a4aca4c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 15/45] fix: copying or moving a delayed flatten of temporaries
 leaves it pointing into the original

---
 include/parlay/internal/delayed/flatten.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index a53d40b..1887170 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -244,7 +244,7 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
   using base = block_iterable_view_base<void, block_delayed_flatten_copy_t<UnderlyingView>>;
 
   using inner_sequence_type = range_value_type_t<UnderlyingView>;
-  using flattener_type = block_delayed_flatten_t<sequence<inner_sequence_type>&>;
+  using flattener_type = block_delayed_flatten_t<sequence<inner_sequence_type>>;
 
  public:
   using value_type = range_value_type_t<range_value_type_t<UnderlyingView>>;
@@ -255,7 +255,7 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
 
   template<typename UV>
   block_delayed_flatten_copy_t(UV&& v, int) : base(),
-      data(parlay::internal::delayed::to_sequence(std::forward<UV>(v))), result(data, 0) {
+      result(parlay::internal::delayed::to_sequence(std::forward<UV>(v)), 0) {
 
   }
 
@@ -273,7 +273,6 @@ struct block_delayed_flatten_copy_t : public block_iterable_view_base<void, bloc
   auto get_begin_block(size_t i) const { return result.get_begin_block(i); }
 
  private:
-  sequence<inner_sequence_type> data;
   flattener_type result;
 };
 
-- 
2.43.0


From 6f28e460307f37fa44709c4e54be4c0a0ab9a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 16/45] fix: delayed flatten of a filtered range reads past its
 block offsets

---
 include/parlay/internal/delayed/flatten.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/flatten.h b/include/parlay/internal/delayed/flatten.h
index 1887170..b0d1152 100644
--- a/include/parlay/internal/delayed/flatten.h
+++ b/include/parlay/internal/delayed/flatten.h
@@ -201,7 +201,8 @@ struct block_delayed_flatten_t :
         size_t out_block_id = std::distance(std::begin(out_block_offsets),
                                             std::lower_bound(std::begin(out_block_offsets), std::end(out_block_offsets), block_start));
 
-        size_t outer_idx = out_block_offsets[out_block_id];
+        // If no output block begins at or after this input block, then there is nothing to find
+        size_t outer_idx = (out_block_id < out_block_offsets.size()) ? out_block_offsets[out_block_id] : block_end;
         if (outer_idx < block_end) {
           auto outer_it = begin_block(base_view(), i);
           std::advance(outer_it, outer_idx - block_start);
-- 
2.43.0


From 766aabcb1b09c3b9734dcb71170796c0b5d17b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:15 +0000
Subject: [PATCH 17/45] fix: self-assignment of copyable_function_wrapper
 destroys the function it copies from

---
 include/parlay/utilities.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/utilities.h b/include/parlay/utilities.h
index 319d1b4..e9eee16 100644
--- a/include/parlay/utilities.h
+++ b/include/parlay/utilities.h
@@ -303,7 +303,7 @@ struct copyable_function_wrapper {
     if constexpr (std::is_copy_assignable_v<F>) {
       f = other.f;
     }
-    else {
+    else if (this != std::addressof(other)) {
       f.~F();
       new (std::addressof(f)) F(other.f);
     }
@@ -315,7 +315,7 @@ struct copyable_function_wrapper {
     if constexpr (std::is_move_assignable_v<F>) {
       f = std::move(other.f);
     }
-    else {
+    else if (this != std::addressof(other)) {
       f.~F();
       new (std::addressof(f)) F(std::move(other.f));
     }
-- 
2.43.0


From 1655f7d6468518f67bfd5714357cbf63e78aadf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 18/45] fix: sequence operations given a reference to one of
 their own elements read relocated or freed memory

---
 include/parlay/sequence.h | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 4970214..6533554 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -232,6 +232,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     if (p == end()) {
       return emplace_back(std::forward<Args>(args)...);
     } else {
+      // args might refer to elements of this sequence that are about to be
+      // relocated, so the new element must be constructed before that happens
+      value_type v(std::forward<Args>(args)...);
+
       // p might be invalidated when the capacity is increased,
       // so we need to remember where it occurs in the sequence
       auto pos = p - begin();
@@ -242,7 +246,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
       // append since we ensured that there was sufficient capacity already,
       // so a second reallocation will never happen after this point
       auto the_tail = pop_tail(p);
-      auto it = emplace_back(std::forward<Args>(args)...);
+      auto it = emplace_back(std::move(v));
       append(std::move(the_tail));
       return it;
     }
@@ -250,8 +254,15 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
 
   template<typename... Args>
   iterator emplace_back(Args&&... args) {
-    storage.ensure_capacity(size() + 1);
-    storage.initialize(end(), std::forward<Args>(args)...);
+    if (size() == capacity()) {
+      // args might refer to elements of this sequence that are about to be
+      // relocated, so the new element must be constructed before that happens
+      value_type v(std::forward<Args>(args)...);
+      storage.ensure_capacity(size() + 1);
+      storage.initialize(end(), std::move(v));
+    } else {
+      storage.initialize(end(), std::forward<Args>(args)...);
+    }
     storage.set_size(size() + 1);
     return end() - 1;
   }
@@ -372,9 +383,12 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
         auto buffer = storage.data();
         parallel_for(new_size, current, [&](size_t i) { storage.destroy(&buffer[i]); });
       }
-    } else {
+    } else if (new_size > capacity()) {
+      value_type copy(v);               // v might refer to an element of this sequence
       storage.ensure_capacity(new_size);
       assert(storage.capacity() >= new_size);
+      resize(new_size, copy);
+    } else {
       auto buffer = storage.data();
       parallel_for(
           current, new_size, [&](size_t i) { storage.initialize_explicit(&buffer[i], v); },
@@ -588,7 +602,11 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   iterator append_n(size_t n, const value_type& t) {
-    storage.ensure_capacity(size() + n);
+    if (size() + n > capacity()) {
+      value_type copy(t);               // t might refer to an element of this sequence
+      storage.ensure_capacity(size() + n);
+      return append_n(n, copy);
+    }
     auto it = end();
     parallel_for(0, n, [&](size_t i) {
       storage.initialize_explicit(it + i, t);
@@ -630,6 +648,8 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   iterator insert_n(iterator p, size_t n, const value_type& v) {
+    value_type copy(v);                 // v might refer to an element of this sequence
+
     // p might be invalidated when the capacity is increased,
     // so we have to remember where it is in the sequence
     auto pos = p - begin();
@@ -640,7 +660,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     // append since we ensured that there was sufficient capacity already,
     // so a second reallocation will never happen after this point
     auto the_tail = pop_tail(p);
-    auto it = append_n(n, v);
+    auto it = append_n(n, copy);
     append(std::move(the_tail));
     return it;
   }
-- 
2.43.0


From af74143c9caf13526e8597b51deb484a92b32e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 19/45] fix: relocating or comparing sequences of elements
 larger than 8192 bytes divides by zero or never ends

---
 include/parlay/relocation.h | 2 +-
 include/parlay/sequence.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/relocation.h b/include/parlay/relocation.h
index 0803827..f2da385 100644
--- a/include/parlay/relocation.h
+++ b/include/parlay/relocation.h
@@ -94,7 +94,7 @@ inline std::pair<InputIterator, NoThrowForwardIterator> uninitialized_relocate_n
   // The most efficient scenario -- The objects are trivially relocatable and the iterators
   // point to contiguous memory so, we can memcpy chunks of more than one T object at a time.
   if constexpr (contiguous && trivially_relocatable) {
-    constexpr size_t chunk_size = 1024 * sizeof(size_t) / sizeof(T);
+    constexpr size_t chunk_size = (std::max)(size_t{1}, 1024 * sizeof(size_t) / sizeof(T));
     const size_t n_chunks = (n + chunk_size - 1) / chunk_size;
     parallel_for(0, n_chunks, [&](size_t i) {
       size_t n_objects = (std::min)(chunk_size, n - i * chunk_size);
diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 6533554..9f6f34b 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -682,7 +682,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   template<typename Iterator_>
   bool compare_equal(Iterator_ other, size_t granularity = 0) const {
     if (granularity == 0) {
-      granularity = 1024 * sizeof(size_t) / sizeof(value_type);
+      granularity = (std::max)(size_t{1}, 1024 * sizeof(size_t) / sizeof(value_type));
     }
     auto n = size();
     auto self = begin();
-- 
2.43.0


From 41b531d93f4c32fd0c4a50f4b380c25bd804bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 20/45] fix: relocating between different types constructs the
 source type in the destination

---
 include/parlay/relocation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/relocation.h b/include/parlay/relocation.h
index f2da385..b477be9 100644
--- a/include/parlay/relocation.h
+++ b/include/parlay/relocation.h
@@ -54,7 +54,7 @@ namespace parlay {
 // Relocate from source to dest, which may be of different
 // (but compatible) types, which is equivalent to
 //
-//   ::new (voidify(dest)) T(std::move(source));
+//   ::new (voidify(dest)) U(std::move(source));
 //   std::destroy_at(std::addressof(source));
 //
 template<typename T, typename U>
@@ -67,7 +67,7 @@ inline void relocate_or_move_and_destroy(T& source, U& dest) {
   }
   else {
     PARLAY_ASSERT_UNINITIALIZED(dest);
-    ::new (voidify(dest)) T(std::move(source));
+    ::new (voidify(dest)) U(std::move(source));
     std::destroy_at(std::addressof(source));
     PARLAY_ASSERT_UNINITIALIZED(source);
   }
-- 
2.43.0


From 9b9cdd3285c6adf33555c8296afafeda774f224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:37 +0000
Subject: [PATCH 21/45] fix: sequence buffers of over-aligned elements are
 misaligned

---
 include/parlay/internal/sequence_base.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/parlay/internal/sequence_base.h b/include/parlay/internal/sequence_base.h
index 1f85a47..a417662 100644
--- a/include/parlay/internal/sequence_base.h
+++ b/include/parlay/internal/sequence_base.h
@@ -48,7 +48,12 @@ struct alignas(uint64_t) sequence_base {
 
   using allocator_type = Allocator;
   using T_allocator_type = typename std::allocator_traits<allocator_type>::template rebind_alloc<T>;
-  using raw_allocator_type = typename std::allocator_traits<allocator_type>::template rebind_alloc<std::byte>;
+
+  // The unit in which raw memory is allocated. Memory for bytes is only guaranteed to be suitably
+  // aligned for types with fundamental alignment, so over-aligned types need an over-aligned unit.
+  struct overaligned_unit { alignas(T) std::byte bytes[alignof(T)]; };
+  using raw_unit = std::conditional_t<(alignof(T) > alignof(std::max_align_t)), overaligned_unit, std::byte>;
+  using raw_allocator_type = typename std::allocator_traits<allocator_type>::template rebind_alloc<raw_unit>;
 
   using value_type = T;
 
@@ -281,14 +286,14 @@ struct alignas(uint64_t) sequence_base {
 
         static header* create(size_t capacity, raw_allocator_type& a) {
           auto buffer_size = offsetof(header, data) + capacity * sizeof(value_type);
-          std::byte* bytes = std::allocator_traits<raw_allocator_type>::allocate(a, buffer_size);
-          return new (bytes) header(capacity);
+          raw_unit* units = std::allocator_traits<raw_allocator_type>::allocate(a, buffer_size / sizeof(raw_unit));
+          return new (units) header(capacity);
         }
 
         static void destroy(header* p, raw_allocator_type& a) {
           auto buffer_size = offsetof(header, data) + p->capacity * sizeof(value_type);
-          std::byte* bytes = reinterpret_cast<std::byte*>(p);
-          std::allocator_traits<raw_allocator_type>::deallocate(a, bytes, buffer_size);
+          raw_unit* units = reinterpret_cast<raw_unit*>(p);
+          std::allocator_traits<raw_allocator_type>::deallocate(a, units, buffer_size / sizeof(raw_unit));
         }
 
         explicit header(size_t _capacity) : capacity(_capacity) {}
-- 
2.43.0


From d55c061d0661fcaeb10ad6cce7c07d2fe9a3fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 22/45] fix: sequence insert of zero copies at the front
 returns a dangling iterator

---
 include/parlay/sequence.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 9f6f34b..dffad33 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -656,13 +656,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     storage.ensure_capacity(size() + n);
     p = begin() + pos;
 
-    // Note that "it" is guaranteed to remain valid even after the call to
-    // append since we ensured that there was sufficient capacity already,
-    // so a second reallocation will never happen after this point
     auto the_tail = pop_tail(p);
-    auto it = append_n(n, copy);
+    append_n(n, copy);
     append(std::move(the_tail));
-    return it;
+    return begin() + pos;   // The append may have adopted the tail's buffer if nothing precedes it
   }
 
   template<typename Iterator_>
-- 
2.43.0


From 59f73e80a43ca59b1d36deb43e2784ae92c4b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:35 +0000
Subject: [PATCH 23/45] fix: growing a sequence whose allocator has its own
 construct does not compile

---
 include/parlay/internal/sequence_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/sequence_base.h b/include/parlay/internal/sequence_base.h
index a417662..f770c80 100644
--- a/include/parlay/internal/sequence_base.h
+++ b/include/parlay/internal/sequence_base.h
@@ -572,8 +572,8 @@ struct alignas(uint64_t) sequence_base {
         }
         else {
           parallel_for(0, n, [&](size_t i){
-            std::allocator_traits<T_allocator_type>::construct(alloc, std::addressof(dest_buffer[i]), std::move(current_buffer[i]));
-            std::allocator_traits<T_allocator_type>::destroy(alloc, std::addressof(current_buffer[i]));
+            std::allocator_traits<T_allocator_type>::construct(*this, std::addressof(dest_buffer[i]), std::move(current_buffer[i]));
+            std::allocator_traits<T_allocator_type>::destroy(*this, std::addressof(current_buffer[i]));
           });
         }
 
-- 
2.43.0


From 1f0afbe988506b086373e34db756afc37b772e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:35 +0000
Subject: [PATCH 24/45] fix: hashtable count and get_index do not compile

---
 include/parlay/hash_table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/hash_table.h b/include/parlay/hash_table.h
index 9452bf4..e0088da 100644
--- a/include/parlay/hash_table.h
+++ b/include/parlay/hash_table.h
@@ -226,7 +226,7 @@ class hashtable {
   // returns the number of entries
   size_t count() {
     auto is_full = [&](size_t i) -> size_t { return (TA[i] == empty) ? 0 : 1; };
-    return internal::reduce(delayed_seq<size_t>(m, is_full), addm<size_t>());
+    return internal::reduce(delayed_seq<size_t>(m, is_full), plus<size_t>());
   }
 
   // returns all the current entries compacted into a sequence
@@ -260,7 +260,7 @@ class hashtable {
         return 0;
     };
     auto x = sequence<index>::from_function(m, is_full);
-    internal::scan_inplace(make_slice(x), addm<index>());
+    internal::scan_inplace(make_slice(x), plus<index>());
     return x;
   }
 
-- 
2.43.0


From 16d437c1e95e60cf296f63de4a60c5f631d0f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:32 +0000
Subject: [PATCH 25/45] fix: sequences built or extended from forward ranges
 bypass the allocator's construct

---
 include/parlay/sequence.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index dffad33..2741753 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -591,7 +591,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     else if (is_forward_iterator_v<Iterator_>) {
       auto n = std::distance(first, last);
       storage.initialize_capacity(n);
-      std::uninitialized_copy(first, last, storage.data());
+      for (auto p = storage.data(); first != last; ++first, ++p) storage.initialize(p, *first);
       storage.set_size(n);
     }
     else {
@@ -634,7 +634,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
       auto n = std::distance(first, last);
       storage.ensure_capacity(size() + n);
       auto it = end();
-      std::uninitialized_copy(first, last, it);
+      for (auto p = it; first != last; ++first, ++p) storage.initialize(p, *first);
       storage.set_size(size() + n);
       return it;
     }
-- 
2.43.0


From d15c18b78eb5b64f007fa0fd2a6cbebae915fd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:48 +0000
Subject: [PATCH 26/45] fix: reduce_by_index gives different results for
 different numbers of workers

---
 include/parlay/internal/collect_reduce.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/parlay/internal/collect_reduce.h b/include/parlay/internal/collect_reduce.h
index 960ce68..90201ee 100644
--- a/include/parlay/internal/collect_reduce.h
+++ b/include/parlay/internal/collect_reduce.h
@@ -51,13 +51,14 @@ auto collect_reduce_few(Seq const &A, Helper const &helper, size_t num_buckets)
   size_t n = A.size();
   if (n == 0) return seq_collect_reduce(A, helper, num_buckets);
 
-  size_t num_threads = num_workers();
-  size_t num_blocks_ = (std::min)(4 * num_threads, n / num_buckets / 64) + 1;
+  // the number of blocks must not depend on the number of workers, or
+  // the result would too if the operator is not exactly associative
+  size_t num_blocks_ = (std::min)(size_t{256}, n / num_buckets / 64) + 1;
   size_t block_size = ((n - 1) / num_blocks_) + 1;
   size_t num_blocks = (1 + ((n)-1) / (block_size));
 
   // if insufficient parallelism, do sequentially
-  if (n < CR_SEQ_THRESHOLD || num_blocks == 1 || num_threads == 1)
+  if (n < CR_SEQ_THRESHOLD || num_blocks == 1)
     return seq_collect_reduce(A, helper, num_buckets);
 
   // partial results for each block
-- 
2.43.0


From 68c0498709a6e2872884ccd78005e1a1d062c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:48 +0000
Subject: [PATCH 27/45] fix: parsing an empty text, a lone sign or spaces reads
 past the end of the text

---
 include/parlay/io.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/parlay/io.h b/include/parlay/io.h
index 82443d1..13f0a99 100644
--- a/include/parlay/io.h
+++ b/include/parlay/io.h
@@ -110,11 +110,11 @@ Integer_ chars_to_int_t(slice<It_, It_> str) {
         r = r * 10 - (str[i++] - '0');
       return r;
     };
-    if (str[i] == '-') {
+    if (i < str.size() && str[i] == '-') {
       i++;
       return read_digits();
     } else {
-      if (str[i] == '+') i++;
+      if (i < str.size() && str[i] == '+') i++;
       return -read_digits();
     }
   }
@@ -125,11 +125,11 @@ Integer_ chars_to_int_t(slice<It_, It_> str) {
         r = r * 10 + (str[i++] - '0');
       return r;
     };
-    if (str[i] == '-') {
+    if (i < str.size() && str[i] == '-') {
       i++;
       return -read_digits();
     } else {
-      if (str[i] == '+') i++;
+      if (i < str.size() && str[i] == '+') i++;
       return read_digits();
     }
   }
@@ -167,21 +167,21 @@ Float_ chars_to_float_t(const chars& s, FallbackF&& fallback) {
     int64_t exponent = 0;
     bool is_negative = false;
     
-    while (std::isspace(static_cast<unsigned char>(str[i]))) {
+    while (i < sz && std::isspace(static_cast<unsigned char>(str[i]))) {
       i++;
     }
     
     // Detect sign
-    if (str[i] == '-') {
+    if (i < sz && str[i] == '-') {
       is_negative = true;
       i++;
     }
-    else if (str[i] == '+') {
+    else if (i < sz && str[i] == '+') {
       i++;
     }
     
     // Catches inf and nan
-    if (str[i] == 'i' || str[i] == 'n') {
+    if (i < sz && (str[i] == 'i' || str[i] == 'n')) {
       return fallback(s);
     }
     
-- 
2.43.0


From 6ba506c128c71f192f6df612f7a928293fd360cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:48 +0000
Subject: [PATCH 28/45] fix: file_map of an empty file fails an assertion

---
 include/parlay/internal/posix/file_map_impl_posix.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/posix/file_map_impl_posix.h b/include/parlay/internal/posix/file_map_impl_posix.h
index a6c15e5..3c65721 100644
--- a/include/parlay/internal/posix/file_map_impl_posix.h
+++ b/include/parlay/internal/posix/file_map_impl_posix.h
@@ -47,8 +47,12 @@ class file_map {
       assert(fstat_res != -1);
       assert(S_ISREG(sb.st_mode));
     
-      char *p = static_cast<char*>(mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
-      assert(p != MAP_FAILED);
+      // an empty file can not be mapped
+      char *p = nullptr;
+      if (sb.st_size > 0) {
+        p = static_cast<char*>(mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
+        assert(p != MAP_FAILED);
+      }
       [[maybe_unused]] int close_p = ::close(fd);
       assert(close_p != -1);
       
-- 
2.43.0


From 266096cc2bc10ea8cdbcd10bd2f122b96d2b038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:48 +0000
Subject: [PATCH 29/45] fix: chars_from_file with an end before its start asks
 for a negative number of bytes

---
 include/parlay/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/io.h b/include/parlay/io.h
index 13f0a99..da2e28d 100644
--- a/include/parlay/io.h
+++ b/include/parlay/io.h
@@ -41,7 +41,7 @@ inline chars chars_from_file(const std::string& filename,
   start = (std::min)(start,length);
   if (end == 0) end = length;
   else end = (std::min)(end,length);
-  std::streamsize n = end - start;
+  std::streamsize n = (std::max<std::streamoff>)(0, end - start);
   file.seekg (start, std::ios::beg);
   auto chars = chars::uninitialized(static_cast<size_t>(n) + null_terminate);
   file.read (chars.data(), n);
-- 
2.43.0


From 073772cafbc867ee2249d0e3ac5c55a23a4837e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 30/45] fix: hazptr_stack reads the next pointer of a node
 while another thread retires it

---
 .../internal/concurrency/hazptr_stack.h       | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/parlay/internal/concurrency/hazptr_stack.h b/include/parlay/internal/concurrency/hazptr_stack.h
index 3799748..fcd4e02 100644
--- a/include/parlay/internal/concurrency/hazptr_stack.h
+++ b/include/parlay/internal/concurrency/hazptr_stack.h
@@ -25,17 +25,19 @@ class hazptr_stack {
 
   struct Node {
     T t;
-    Node* next;
+    // Atomic since the garbage collector reuses the next pointer of a retired
+    // node while other threads that have acquired the node may still read it
+    std::atomic<Node*> next;
     size_t length;
 
     // Allow the intrusive garbage collector to use the node's own next pointer
     // instead of having to allocate its own memory to store the retired nodes
     friend Node* intrusive_get_next(Node* node) {
-      return node->next;
+      return node->next.load(std::memory_order_relaxed);
     }
 
     friend void intrusive_set_next(Node* node, Node* next_) {
-      node->next = next_;
+      node->next.store(next_, std::memory_order_relaxed);
     }
 
     explicit Node(T t_) noexcept(std::is_nothrow_move_constructible_v<T>)
@@ -57,11 +59,12 @@ class hazptr_stack {
   // This operation is safe to perform concurrently with other operations
   void push(T t) {
     auto p = new Node(std::move(t));
+    Node* h;
     do {
-      auto h = hazptr_instance().acquire(head);
-      p->next = h;
+      h = hazptr_instance().acquire(head);
+      p->next.store(h, std::memory_order_relaxed);
       p->length = h ? h->length + 1 : 1;
-    } while (!head.compare_exchange_weak(p->next, p));
+    } while (!head.compare_exchange_weak(h, p));
     hazptr_instance().release();
   }
 
@@ -74,7 +77,7 @@ class hazptr_stack {
     do {
       p = hazptr_instance().acquire(head);
       if (p == nullptr) return {};
-    } while (!head.compare_exchange_weak(p, p->next));
+    } while (!head.compare_exchange_weak(p, p->next.load(std::memory_order_relaxed)));
     auto val = std::make_optional(std::move(p->t));
     hazptr_instance().retire(p);
     hazptr_instance().release();
@@ -102,7 +105,7 @@ class hazptr_stack {
     Node* prev = nullptr;
     while (p) {
       prev = p;
-      p = p->next;
+      p = p->next.load(std::memory_order_relaxed);
       delete prev;
     }
   }
-- 
2.43.0


From fbea03815ca72dbc0344df07258cc647a1602c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 31/45] fix: hashtable reads entries non-atomically while other
 threads update them

---
 include/parlay/hash_table.h | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/parlay/hash_table.h b/include/parlay/hash_table.h
index e0088da..e66dc06 100644
--- a/include/parlay/hash_table.h
+++ b/include/parlay/hash_table.h
@@ -6,6 +6,7 @@
 
 #include <atomic>
 #include <iostream>
+#include <type_traits>
 
 #include "delayed_sequence.h"
 #include "parallel.h"
@@ -59,6 +60,16 @@ class hashtable {
   }
   bool lessEqIndex(index a, index b) { return a == b || lessIndex(a, b); }
 
+  // Read an entry that other threads might be updating with cas at the same time
+  eType read_entry(index i) const {
+    if constexpr (std::is_trivially_copyable_v<eType>) {
+      if constexpr (std::atomic<eType>::is_always_lock_free) {
+        return reinterpret_cast<const std::atomic<eType>*>(&TA[i])->load(std::memory_order_acquire);
+      }
+    }
+    return TA[i];
+  }
+
  public:
   // Size is the maximum number of values the hash table will hold.
   // Overfilling the table could put it into an infinite loop.
@@ -78,7 +89,7 @@ class hashtable {
   bool insert(eType v) {
     index i = firstIndex(hashStruct.getKey(v));
     while (true) {
-      eType c = TA[i];
+      eType c = read_entry(i);
       if (c == empty) {
         if (hashStruct.cas(&TA[i], c, v)) return true;
       } else {
@@ -105,7 +116,7 @@ class hashtable {
   bool update(eType v) {
     index i = firstIndex(hashStruct.getKey(v));
     while (true) {
-      eType c = TA[i];
+      eType c = read_entry(i);
       if (c == empty) {
         if (hashStruct.cas(&TA[i], c, v)) return true;
       } else {
@@ -133,7 +144,7 @@ class hashtable {
 
     // find first element less than or equal to v in priority order
     index j = i;
-    eType c = TA[j];
+    eType c = read_entry(j);
 
     if (c == empty) return true;
 
@@ -141,7 +152,7 @@ class hashtable {
     while ((cmp = (c == empty) ? 1 : hashStruct.cmp(v, hashStruct.getKey(c))) <
            0) {
       j = incrementIndex(j);
-      c = TA[j];
+      c = read_entry(j);
     }
     while (true) {
       // Invariants:
@@ -157,7 +168,7 @@ class hashtable {
         // moving before h(v)
         if (j == i) return true;
         j = decrementIndex(j);
-        c = TA[j];
+        c = read_entry(j);
         cmp = (c == empty) ? 1 : hashStruct.cmp(v, hashStruct.getKey(c));
       } else {  // found v at location j (at least at some prior time)
 
@@ -168,14 +179,14 @@ class hashtable {
         // Makes use of the fact that values in a cell can only decrease
         // during a delete phase as elements are moved from the right to left.
         index jj = incrementIndex(j);
-        eType x = TA[jj];
+        eType x = read_entry(jj);
         while (x != empty && lessIndex(j, firstIndex(hashStruct.getKey(x)))) {
           jj = incrementIndex(jj);
-          x = TA[jj];
+          x = read_entry(jj);
         }
         index jjj = decrementIndex(jj);
         while (jjj != j) {
-          eType y = TA[jjj];
+          eType y = read_entry(jjj);
           if (y == empty || !lessIndex(j, firstIndex(hashStruct.getKey(y)))) {
             x = y;
             jj = jjj;
@@ -197,7 +208,7 @@ class hashtable {
           j = jj;
           i = firstIndex(v);
         }
-        c = TA[j];
+        c = read_entry(j);
         cmp = (c == empty) ? 1 : hashStruct.cmp(v, hashStruct.getKey(c));
       }
     }
-- 
2.43.0


From a47f0afeabbc88692648dbfdae4c8217d4e328bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 32/45] fix: blocked_for with a huge block size runs nothing

---
 include/parlay/parallel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parlay/parallel.h b/include/parlay/parallel.h
index 5f32807..dc01936 100644
--- a/include/parlay/parallel.h
+++ b/include/parlay/parallel.h
@@ -66,10 +66,10 @@ inline void blocked_for(size_t start, size_t end, size_t block_size, F&& f, bool
   static_assert(std::is_invocable_v<F&, size_t, size_t, size_t>);
   assert(block_size > 0);
   if (start < end) {
-    size_t n_blocks = (end - start + block_size - 1) / block_size;
+    size_t n_blocks = (end - start - 1) / block_size + 1;
     parallel_for(0, n_blocks, [&](size_t i) {
       size_t s = start + i * block_size;
-      size_t e = (std::min)(s + block_size, end);
+      size_t e = s + (std::min)(block_size, end - s);
       f(i, s, e);
     }, 0, conservative);
   }
-- 
2.43.0


From b2d8570b610caf02e130bd07df330f62cd706e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 33/45] fix: WorkerSpecific of an over-aligned type does not
 compile

---
 include/parlay/worker_specific.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/worker_specific.h b/include/parlay/worker_specific.h
index 56b7057..b87106a 100644
--- a/include/parlay/worker_specific.h
+++ b/include/parlay/worker_specific.h
@@ -30,7 +30,7 @@ namespace parlay {
 template<typename T>
 class WorkerSpecific {
 
-  struct alignas(64) data {
+  struct alignas(alignof(T) > 64 ? alignof(T) : 64) data {
     // We take the value wrapped in a function call so that we can instantiate
     // uncopyable types from prvalues using copy elision.  Otherwise, it would
     // not be possible to initialize uncopyable types (e.g., std::atomic)
-- 
2.43.0


From 1b8432f0075f6606fe80aaf7d3d307fc334baa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 34/45] fix: hashtable deletion misplaces entries in clusters
 longer than half the table

---
 include/parlay/hash_table.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/parlay/hash_table.h b/include/parlay/hash_table.h
index e66dc06..47c3e92 100644
--- a/include/parlay/hash_table.h
+++ b/include/parlay/hash_table.h
@@ -55,10 +55,12 @@ class hashtable {
   index firstIndex(kType v) { return hashToRange(hashStruct.hash(v)); }
   index incrementIndex(index h) { return (h + 1 == m) ? 0 : h + 1; }
   index decrementIndex(index h) { return (h == 0) ? m - 1 : h - 1; }
-  bool lessIndex(index a, index b) {
-    return (a < b) ? (2 * (b - a) < m) : (2 * (a - b) > m);
-  }
-  bool lessEqIndex(index a, index b) { return a == b || lessIndex(a, b); }
+  // The number of steps from index a up to index b, wrapping around at the end
+  index distance(index a, index b) const { return (a <= b) ? b - a : m - (a - b); }
+
+  // Given that an entry stored at index b has the first index h, it can not be
+  // moved down to index a if h comes after a on the way from a up to b
+  bool isBetween(index a, index h, index b) const { return distance(h, b) < distance(a, b); }
 
   // Read an entry that other threads might be updating with cas at the same time
   eType read_entry(index i) const {
@@ -180,14 +182,14 @@ class hashtable {
         // during a delete phase as elements are moved from the right to left.
         index jj = incrementIndex(j);
         eType x = read_entry(jj);
-        while (x != empty && lessIndex(j, firstIndex(hashStruct.getKey(x)))) {
+        while (x != empty && isBetween(j, firstIndex(hashStruct.getKey(x)), jj)) {
           jj = incrementIndex(jj);
           x = read_entry(jj);
         }
         index jjj = decrementIndex(jj);
         while (jjj != j) {
           eType y = read_entry(jjj);
-          if (y == empty || !lessIndex(j, firstIndex(hashStruct.getKey(y)))) {
+          if (y == empty || !isBetween(j, firstIndex(hashStruct.getKey(y)), jjj)) {
             x = y;
             jj = jjj;
           }
-- 
2.43.0


From 2e76f993b40799f783a22d43df391d51faaba20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 35/45] fix: parsing a floating point text that is subnormal or
 out of range throws

---
 include/parlay/io.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/parlay/io.h b/include/parlay/io.h
index da2e28d..a0e009d 100644
--- a/include/parlay/io.h
+++ b/include/parlay/io.h
@@ -6,6 +6,7 @@
 #include <cinttypes>
 #include <cstdint>
 #include <cstdio>
+#include <cstdlib>
 #include <cstring>
 
 #include <algorithm>
@@ -143,10 +144,10 @@ Integer_ chars_to_int_t(slice<It_, It_> str) {
 // no error checking, so the behaviour is unspecified
 // if the given sequence is not a valid double.
 //
-// Significantly faster than std::stod if the number
+// Significantly faster than std::strtod if the number
 // is not too big since we can just read the digits and
 // divide or multiple exactly.  Otherwise we fall back
-// to std::stod / std::stof / std::stold.
+// to std::strtod / std::strtof / std::strtold.
 template<typename Float_, size_t max_len, int64_t max_exp, int64_t max_man, typename FallbackF>
 Float_ chars_to_float_t(const chars& s, FallbackF&& fallback) {
 
@@ -237,7 +238,7 @@ Float_ chars_to_float_t(const chars& s, FallbackF&& fallback) {
     }
   }
   
-  // Slow path: Just fall back to std::stof/std::stod/std::stold
+  // Slow path: Just fall back to std::strtof/std::strtod/std::strtold
   return fallback(s);
 }
 
@@ -254,17 +255,17 @@ inline unsigned long long chars_to_ulong_long(const chars& s) { return internal:
 
 inline float chars_to_float(const chars& s) {
   return internal::chars_to_float_t<float, 10, 10, 24>(s, [](const auto& str) {
-    return std::stof(std::string(std::begin(str), std::end(str))); });
+    return std::strtof(std::string(std::begin(str), std::end(str)).c_str(), nullptr); });
 }
 
 inline double chars_to_double(const chars& s) {
   return internal::chars_to_float_t<double, 18, 22, 53>(s, [](const auto& str) {
-    return std::stod(std::string(std::begin(str), std::end(str))); });
+    return std::strtod(std::string(std::begin(str), std::end(str)).c_str(), nullptr); });
 }
 
 inline long double chars_to_long_double(const chars& s) {
   return internal::chars_to_float_t<long double, 18, 22, 53>(s, [](const auto& str) {
-    return std::stold(std::string(std::begin(str), std::end(str))); });
+    return std::strtold(std::string(std::begin(str), std::end(str)).c_str(), nullptr); });
 }
 
 
-- 
2.43.0


From f8074df4fbbc3c5996678e09bce332cba1c51d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 36/45] fix: pool_allocator miscounts large blocks that do not
 come from a pool

---
 include/parlay/internal/pool_allocator.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/parlay/internal/pool_allocator.h b/include/parlay/internal/pool_allocator.h
index 2b8c2ac..e987df7 100644
--- a/include/parlay/internal/pool_allocator.h
+++ b/include/parlay/internal/pool_allocator.h
@@ -58,11 +58,21 @@ struct pool_allocator {
   std::unique_ptr<internal::hazptr_stack<void*>[]> large_buckets;
   unique_array<block_allocator> small_allocators;
 
+  // The number of bytes that a large block of size n is accounted for. This is the
+  // size of its pool, or, for blocks that do not belong to a pool, the next power of
+  // two, since that is all that p_free knows about the size of the block it frees.
+  size_t large_block_size(size_t n) const {
+    if (n > max_size) return size_t{1} << log2_up(n);
+    size_t bucket = num_small;
+    while (n > sizes[bucket]) bucket++;
+    return sizes[bucket];
+  }
+
   void* allocate_large(size_t n) {
 
     size_t bucket = num_small;
     size_t alloc_size;
-    large_used += n;
+    large_used += large_block_size(n);
 
     if (n <= max_size) {
       while (n > sizes[bucket]) bucket++;
@@ -79,15 +89,15 @@ struct pool_allocator {
 
     void* a = ::operator new(alloc_size, std::align_val_t{max_alignment});
 
-    large_allocated += n;
+    large_allocated += large_block_size(n);
     return a;
   }
 
   void deallocate_large(void* ptr, size_t n) {
-    large_used -= n;
+    large_used -= large_block_size(n);
     if (n > max_size) {
       ::operator delete(ptr, std::align_val_t{max_alignment});
-      large_allocated -= n;
+      large_allocated -= large_block_size(n);
     } else {
       size_t bucket = num_small;
       while (n > sizes[bucket]) bucket++;
-- 
2.43.0


From 35ff83cb68bbf03b80b5a7f3d21d89d2c602cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 37/45] fix: block_allocator with one-block lists never returns
 blocks to the global stack

---
 include/parlay/internal/block_allocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parlay/internal/block_allocator.h b/include/parlay/internal/block_allocator.h
index eedbb57..c1b54e0 100644
--- a/include/parlay/internal/block_allocator.h
+++ b/include/parlay/internal/block_allocator.h
@@ -184,7 +184,9 @@ struct block_allocator {
 
     if (my_local_list->sz == list_length+1) {
       my_local_list->mid = my_local_list->head;
-    } else if (my_local_list->sz == 2*list_length) {
+    }
+    // Not an else: when list_length is one, both conditions hold at once
+    if (my_local_list->sz == 2*list_length) {
       global_stack.push(my_local_list->mid->next);
       my_local_list->mid->next = nullptr;
       my_local_list->sz = list_length;
-- 
2.43.0


From 5a5bde544c733fcf59df9fa754d9010d9c7bd2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 38/45] fix: ThreadIdPool reads the next pointer of a
 relinquished id without synchronizing

---
 include/parlay/internal/thread_id_pool.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/thread_id_pool.h b/include/parlay/internal/thread_id_pool.h
index 5d86196..5255222 100644
--- a/include/parlay/internal/thread_id_pool.h
+++ b/include/parlay/internal/thread_id_pool.h
@@ -106,9 +106,10 @@ class ThreadIdPool : public std::enable_shared_from_this<ThreadIdPool> {
       static std::mutex m_;
       std::lock_guard<std::mutex> g_{m_};
 
-      ThreadId* current = available_ids.load(std::memory_order_relaxed);
+      // The loads must be acquire loads since current->next is read before the CAS succeeds
+      ThreadId* current = available_ids.load(std::memory_order_acquire);
       while (current && !available_ids.compare_exchange_weak(current, current->next,
-               std::memory_order_acquire, std::memory_order_relaxed)) {}
+               std::memory_order_acquire, std::memory_order_acquire)) {}
       if (current) { return current; }
     }
     return new ThreadId(num_thread_ids.fetch_add(1));
-- 
2.43.0


From 627c8e5a3059e8aae2e6324c825dc5bc9a382d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 39/45] fix: begin and end of an empty unique_array dereference
 a null pointer

---
 include/parlay/utilities.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/parlay/utilities.h b/include/parlay/utilities.h
index e9eee16..be6cce1 100644
--- a/include/parlay/utilities.h
+++ b/include/parlay/utilities.h
@@ -446,22 +446,22 @@ std::size_t size(const unique_array<T>& arr) {
 
 template<typename T>
 T* begin(unique_array<T>& arr) {
-  return &arr[0];
+  return arr.get();
 }
 
 template<typename T>
 T* end(unique_array<T>& arr) {
-  return &arr[0] + size(arr);
+  return arr.get() + size(arr);
 }
 
 template<typename T>
 T const* begin(const unique_array<T>& arr) {
-  return &arr[0];
+  return arr.get();
 }
 
 template<typename T>
 T const* end(const unique_array<T>& arr) {
-  return &arr[0] + size(arr);
+  return arr.get() + size(arr);
 }
 
 // Creates a unique_ptr<T[], *custom_deleter*> consisting of n objects of
-- 
2.43.0


From 464c1acae4c42e895417d5a4eca70bf6ce2d7f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 40/45] fix: uninitialized_sequence cannot be moved (leak,
 missing return, freeing of null)

---
 .../parlay/internal/uninitialized_sequence.h  | 39 ++++++++++++-------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/parlay/internal/uninitialized_sequence.h b/include/parlay/internal/uninitialized_sequence.h
index 1d24560..380a1e2 100644
--- a/include/parlay/internal/uninitialized_sequence.h
+++ b/include/parlay/internal/uninitialized_sequence.h
@@ -4,6 +4,7 @@
 
 #include <iterator>
 #include <memory>
+#include <utility>
 
 #include "../alloc.h"
 #include "../portability.h"
@@ -64,7 +65,9 @@ class uninitialized_sequence {
                n(_n),
                data(std::allocator_traits<allocator_type>::allocate(*this, n)) { }
     ~uninitialized_sequence_impl() {
-      std::allocator_traits<allocator_type>::deallocate(*this, data, n);
+      if (data != nullptr) {
+        std::allocator_traits<allocator_type>::deallocate(*this, data, n);
+      }
     }
 
     // Delete copy for uninitialized sequences
@@ -73,27 +76,33 @@ class uninitialized_sequence {
 
     // Move constructing an uninitialized sequence
     // leaves the other sequence in an empty state
-    uninitialized_sequence_impl(uninitialized_sequence_impl&& other) noexcept : data(other.data), n(other.n) {
+    uninitialized_sequence_impl(uninitialized_sequence_impl&& other) noexcept
+             : allocator_type(std::move(static_cast<allocator_type&>(other))), n(other.n), data(other.data) {
       other.data = nullptr;
       other.n = 0;
     }
 
-    // Move assigning an uninitialized sequence clears the current sequence
-    // (without destruction) and swaps it with the given other sequence
+    // Move assigning an uninitialized sequence deallocates the current buffer (without
+    // destruction) and leaves the other sequence in an empty state
     uninitialized_sequence_impl& operator=(uninitialized_sequence_impl&& other) noexcept {
+      if (this != std::addressof(other)) {
 #ifdef PARLAY_DEBUG_UNINITIALIZED
-      // If uninitialized memory debugging is turned on, make sure that
-      // each object of type UninitializedTracker is destroyed or still
-      // uninitialized by the time this sequence is destroyed
-      auto buffer = impl.data;
-      parallel_for(0, impl.n, [&](size_t i) {
-        PARLAY_ASSERT_UNINITIALIZED(buffer[i]);
-      });
+        // If uninitialized memory debugging is turned on, make sure that
+        // each object of type UninitializedTracker is destroyed or still
+        // uninitialized by the time this sequence is destroyed
+        auto buffer = data;
+        parallel_for(0, n, [&](size_t i) {
+          PARLAY_ASSERT_UNINITIALIZED(buffer[i]);
+        });
 #endif
-      n = 0;
-      data = nullptr;
-      std::swap(n, other.n);
-      std::swap(data, other.data);
+        if (data != nullptr) {
+          std::allocator_traits<allocator_type>::deallocate(*this, data, n);
+        }
+        allocator_type::operator=(std::move(static_cast<allocator_type&>(other)));
+        n = std::exchange(other.n, 0);
+        data = std::exchange(other.data, nullptr);
+      }
+      return *this;
     }
 
   } impl;
-- 
2.43.0


From d9b27d1e902a53baed42ac1c06939c1ec1af010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 41/45] fix: moving the end iterator of a ThreadSpecific
 backwards dereferences a chunk that does not exist yet

end() may point into the middle of a chunk that no thread has accessed so far.
Moving forwards creates missing chunks at chunk boundaries, but moving back from
the end crosses no boundary.
---
 include/parlay/thread_specific.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/parlay/thread_specific.h b/include/parlay/thread_specific.h
index 0215b12..f8d5fc7 100644
--- a/include/parlay/thread_specific.h
+++ b/include/parlay/thread_specific.h
@@ -390,11 +390,13 @@ class ThreadSpecific {
 
   [[nodiscard]] iterator end() {
     internal::ThreadListChunkData data{num_thread_ids()};
+    ensure_last_chunk_exists(data);
     return iterator{data.chunk_id, data.chunk_position, this};
   }
 
   [[nodiscard]] const_iterator end() const {
     internal::ThreadListChunkData data{num_thread_ids()};
+    ensure_last_chunk_exists(data);
     return const_iterator{data.chunk_id, data.chunk_position, this};
   }
 
@@ -438,6 +440,13 @@ class ThreadSpecific {
     return *(chunks[chunk_id].load(std::memory_order_relaxed)[chunk_position]);
   }
 
+  // The end iterator can point into the middle of a chunk that no thread has
+  // accessed yet. It must exist before the iterator can be moved backwards.
+  void ensure_last_chunk_exists(const internal::ThreadListChunkData& end) const {
+    if (end.chunk_position > 0 && chunks[end.chunk_id].load(std::memory_order_acquire) == nullptr) PARLAY_UNLIKELY
+      ensure_chunk_exists(end.chunk_id);
+  }
+
   void ensure_chunk_exists(std::size_t chunk_id) const {
     std::lock_guard<std::mutex> lock(growing_mutex);
     if (chunks[chunk_id].load(std::memory_order_relaxed) == nullptr) {
-- 
2.43.0


From fbfaa505ac2ec91106d8ad005cf2a3f305c09033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 42/45] fix: honour the conservative flag with the TBB back end

---
 include/parlay/internal/scheduler_plugins/tbb.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/parlay/internal/scheduler_plugins/tbb.h b/include/parlay/internal/scheduler_plugins/tbb.h
index df1f59d..d868445 100644
--- a/include/parlay/internal/scheduler_plugins/tbb.h
+++ b/include/parlay/internal/scheduler_plugins/tbb.h
@@ -22,8 +22,13 @@ inline size_t worker_id() {
 }
 
 template <typename F>
-inline void parallel_for(size_t start, size_t end, F&& f, long granularity, bool) {
+inline void parallel_for(size_t start, size_t end, F&& f, long granularity, bool conservative) {
   static_assert(std::is_invocable_v<F&, size_t>);
+  // A thread that waits conservatively must not pick up unrelated tasks, e.g., while it holds a lock
+  if (conservative) {
+    tbb::this_task_arena::isolate([&]() { parallel_for(start, end, f, granularity, false); });
+    return;
+  }
   // Use TBB's automatic granularity partitioner (tbb::auto_partitioner)
   if (granularity == 0) {
     tbb::parallel_for(tbb::blocked_range<size_t>(start, end), [&](const tbb::blocked_range<size_t>& r) {
@@ -43,9 +48,13 @@ inline void parallel_for(size_t start, size_t end, F&& f, long granularity, bool
 }
 
 template <typename Lf, typename Rf>
-inline void par_do(Lf&& left, Rf&& right, bool) {
+inline void par_do(Lf&& left, Rf&& right, bool conservative) {
   static_assert(std::is_invocable_v<Lf&&>);
   static_assert(std::is_invocable_v<Rf&&>);
+  if (conservative) {
+    tbb::this_task_arena::isolate([&]() { par_do(std::forward<Lf>(left), std::forward<Rf>(right), false); });
+    return;
+  }
   tbb::parallel_invoke(std::forward<Lf>(left), std::forward<Rf>(right));
 }
 
-- 
2.43.0


From cee6f746a0877a5b492b1c6ba39ca605f0d0ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 43/45] fix: comparing sequences writes a shared flag without
 synchronization

---
 include/parlay/sequence.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 2741753..f0406b7 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -10,6 +10,7 @@
 #ifndef PARLAY_SEQUENCE_H_
 #define PARLAY_SEQUENCE_H_
 
+#include <atomic>
 #include <cassert>
 #include <cstddef>
 
@@ -689,17 +690,17 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     if (i == n) return true;
     size_t start = granularity;
     size_t block_size = 2 * granularity;
-    bool matches = true;
+    std::atomic<bool> matches(true);
     while (start < n) {
       size_t last = (std::min)(n, start + block_size);
       parallel_for(start, last, [&](size_t j) {
-        if (!(self[j] == other[j])) matches = false;
+        if (!(self[j] == other[j])) matches.store(false, std::memory_order_relaxed);
       }, granularity);
-      if (!matches) return false;
+      if (!matches.load(std::memory_order_relaxed)) return false;
       start += block_size;
       block_size *= 2;
     }
-    return matches;
+    return true;
   }
 };
 
-- 
2.43.0


From 9626f4b84774e7099b116f2c4e0887b2447b50ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 44/45] fix: kth_smallest indexes out of bounds when the order
 returns a true value other than 1

---
 include/parlay/internal/heap_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/heap_tree.h b/include/parlay/internal/heap_tree.h
index 2494ceb..3272f81 100644
--- a/include/parlay/internal/heap_tree.h
+++ b/include/parlay/internal/heap_tree.h
@@ -51,7 +51,7 @@ struct heap_tree {
     static_assert(std::is_invocable_r_v<bool, Less, T, T>);
     size_t j = 0;
     for (size_t k = 0; k < levels; k++) {
-      j = 1 + 2 * j + less(tree[j],key);
+      j = 1 + 2 * j + static_cast<bool>(less(tree[j],key));
     }
     j = 1 + 2 * j + !less(key,tree[j]);
     return j - size;
-- 
2.43.0


From ae3e32e4daed7bec3bde38128981fa084c48e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 45/45] fix: map_tokens_small compares the raw results of the
 predicate instead of their truth

---
 include/parlay/primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index cfccedc..521fca9 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -1051,7 +1051,7 @@ auto map_tokens_small(R&& r, UnaryOp&& f, UnaryPred&& is_space = is_whitespace)
                                internal::delayed::filter_op(
                                  parlay::iota<size_t>(n + 1),
                                  [&](size_t i) -> std::optional<size_t> {
-    if ((i == 0) ? !is_space(S[0]) : (i == n) ? !is_space(S[n - 1]) : is_space(S[i - 1]) != is_space(S[i]))
+    if ((i == 0) ? !is_space(S[0]) : (i == n) ? !is_space(S[n - 1]) : static_cast<bool>(is_space(S[i - 1])) != static_cast<bool>(is_space(S[i])))
       return std::make_optional(i);
     else
       return std::nullopt;
-- 
2.43.0

