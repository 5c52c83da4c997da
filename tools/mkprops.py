#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
I='include/parlay/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    a={'files':[I+f if not f.startswith('/') else f[1:] for f in files],
       'mechanism':[{'name':n,'where':(I+w)} for n,w in mech]}
    if observe: a['observe_at']=observe
    a['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('P01','Parallel loops run each index exactly once and join before returning',
 'parallel_for(s,e,f), for_each, blocked_for, par_do, par_do3, parallel_do and the nested combinations of them invoke the body exactly once for every index (block, branch) in the requested range and for nothing outside it, whatever the granularity, the conservative flag, the block size and the number of workers. When the call returns every invocation has finished and its writes are visible to the caller. Empty and reversed ranges invoke nothing.',
 ['inputs','schedules','programs'],'all index ranges (including ones that start near the top of size_t), granularities, block sizes, nesting shapes, conservative on/off and 1..many workers',
 'The tests run a few fixed loops with one worker count; exactly-once and join have to hold for every range/granularity/nesting combination under every steal pattern.',
 ['parallel.h','scheduler.h'],[('parfor_ recursive splitting and granularity estimate','scheduler.h'),('pardo fork/join','scheduler.h'),('blocked_for block arithmetic','parallel.h')])
p('P02','The scheduler never loses, repeats or deadlocks on a forked task',
 'Under every interleaving of workers, each forked task is executed exactly once, by its owner or by exactly one thief, every join eventually returns, and workers that are asleep are woken when a task is forked on an idle scheduler and when the scheduler shuts down. This includes store-buffering (TSO) reorderings of the queue operations between owner and thieves and queues holding many tasks (fewer than the fixed capacity of 1000, beyond which the queue aborts by design).',
 ['schedules'],'all interleavings (and x86-TSO store-buffer delays) of the synchronisation operations of owners, thieves, sleepers and the finishing thread, for generated fork-join trees',
 'A race in the work-stealing protocol needs a particular interleaving of two or three operations; the tests execute whatever the OS happens to schedule.',
 ['internal/work_stealing_deque.h','internal/work_stealing_job.h','scheduler.h','internal/atomic_wait.h'],
 [('Deque push_bottom/pop_top/pop_bottom with tagged age','internal/work_stealing_deque.h'),('wait_until / steal loop / elastic sleep','scheduler.h'),('job done flag','internal/work_stealing_job.h')])
p('P03','Worker ids and scheduler instances are consistent for their whole lifetime',
 'Inside parallel work worker_id() is always in [0,num_workers()) and no two tasks that run at the same time on one scheduler share an id; execute_with_scheduler(p,f) runs f on a scheduler with exactly p workers, restores the surrounding scheduler afterwards, nests, and may be used from several threads at once. Creating and destroying schedulers always terminates, joins every worker and leaves the library usable from any thread, and PARLAY_NUM_THREADS sets the default number of workers.',
 ['histories','schedules','configurations'],'all histories of scheduler creation, nesting, use from worker and foreign threads and destruction, for all worker counts',
 'The tests create a couple of schedulers; lifetimes are a property of whole histories and of the interleaving of shutdown with sleeping workers.',
 ['scheduler.h','parallel.h'],[('scheduler constructor/destructor, worker_info','scheduler.h'),('execute_with_scheduler, get_current_scheduler','parallel.h')])
p('P05','Results do not depend on the number of workers or on the schedule',
 'For a deterministic user function, every primitive, sort, grouping, shuffle, delayed pipeline and hash table of the library returns the same value (bit for bit, order included) in every run with the same arguments, regardless of the number of workers, which worker executed what, and in which order tasks were stolen. This covers reductions with operators that are not exactly associative, unstable sorts with equivalent keys, and the order in which grouping operations list their groups.',
 ['schedules','configurations','inputs'],'all inputs x all worker counts x all schedules (differentially: one call per worker count and timing perturbation, all results identical)',
 'Tests run once with a single worker count and compare against a relation that many different results satisfy.',
 ['primitives.h','random.h','hash_table.h','internal/sequence_ops.h','internal/sample_sort.h','internal/collect_reduce.h','internal/counting_sort.h'],
 [('block sizes that depend on n only','internal/sequence_ops.h'),('pivots and heavy keys sampled by hashing the index','internal/sample_sort.h'),('priority-ordered (history independent) table','hash_table.h')])
p('P06','Race-free programs stay race-free: the library adds no data race',
 'If the functions passed to the library do not race with each other, no two threads of the program ever access the same memory location concurrently with at least one plain write, and data written before a fork, a join, or a hand-over through the library\'s concurrent structures is visible after it. This holds for every primitive, the scheduler, the allocators, the concurrent stack, thread-specific storage and the concurrent phases of the hash table.',
 ['schedules','programs'],'all schedules of generated programs over the public API (happens-before checked, not only outcomes)',
 'Tests only see a race when it corrupts a value they compare; a missing release/acquire is invisible on x86 runs.',
 ['scheduler.h','internal/work_stealing_deque.h','internal/work_stealing_job.h','internal/concurrency/hazptr_stack.h','internal/concurrency/acquire_retire.h','thread_specific.h','hash_table.h','alloc.h'],
 [('memory orders of job completion and deque','internal/work_stealing_job.h'),('hazard pointers','internal/concurrency/acquire_retire.h'),('chunk publication','thread_specific.h')])
p('P07','Valid calls never touch memory they do not own and leak nothing',
 'For every valid call on every valid input, including empty ranges, one-element ranges, sizes around internal block boundaries, patterns longer than texts and large element types, the library reads and writes only live, initialised memory inside its inputs, outputs and own buffers, performs no undefined arithmetic, does not modify inputs it takes by const reference, and gives back all the memory it took once the results are destroyed.',
 ['inputs','programs'],'all inputs and programs over the public API (checked with address/undefined-behaviour/leak instrumentation over generated programs)',
 'The unit tests use a few sizes; an out-of-bounds access by one element at a block boundary does not change any compared result.',
 ['primitives.h','sequence.h','internal/sequence_ops.h','internal/merge.h','internal/transpose.h','internal/bucket_sort.h','relocation.h','io.h'],
 [('index arithmetic of blocked primitives','internal/sequence_ops.h'),('uninitialised buffers and relocation','relocation.h')])
p('P08','parlay::sequence behaves like std::vector under every history of operations',
 'For every history of constructions, copies, moves, swaps, assignments, element access, push/emplace/append/insert/erase/resize/reserve/shrink/clear/pop and comparisons, a parlay::sequence (and short_sequence, chars, with any allocator) holds exactly the elements a std::vector would hold, in the same order, with consistent size, emptiness, iterators and data. This includes single elements passed by reference that are the sequence\'s own, self-assignment and self-swap, sizes that cross the inline-storage limit in either direction, and ranges of every iterator category; moved-from sequences are empty and reusable.',
 ['histories','inputs'],'all finite histories over several sequences at once, element types with inline and heap representations, and source ranges',
 'The tests call each member once on one or two fixed sequences; interactions (grow after shrink, aliasing, inline/heap transitions) are histories.',
 ['sequence.h','internal/sequence_base.h'],[('inline/heap representation switch, capacity growth','internal/sequence_base.h'),('insert/erase/append/resize','sequence.h')])
p('P09','Every element is constructed once and destroyed once; buffers are balanced',
 'Across every history of sequence operations and every library algorithm, each element object is constructed exactly once before use, never used after destruction, never overwritten without being destroyed, and destroyed exactly once, so that numbers of live objects and of allocated bytes return to their starting value. Trivially relocatable types may be moved bytewise instead, but never both relocated and destroyed.',
 ['histories','inputs'],'all histories / inputs, with element types that record construction, assignment, move and destruction by address',
 'Double destruction or a skipped constructor is silent for most element types the tests use and depends on the size and code path.',
 ['internal/sequence_base.h','relocation.h','internal/uninitialized_sequence.h','internal/sample_sort.h','internal/bucket_sort.h','internal/counting_sort.h','internal/merge_sort.h'],
 [('uninitialized_relocate_n and assignment tags','relocation.h'),('uninitialized_sequence','internal/uninitialized_sequence.h')])
p('P10','Algorithms move elements where allowed: move-only types work, inputs survive',
 'Sorting, merging, packing, filtering, flattening and mapping applied to rvalues, to moved ranges or in place never copy a move-only element, lose it, or duplicate it; applied to lvalues or const ranges they leave the input unchanged. The multiset of element identities in the output is exactly what the operation promises.',
 ['inputs','programs'],'all inputs, over element types with identity (move-only, copy-counting, non-default-constructible)',
 'Tests use copyable values, for which losing one object and duplicating another equal one is invisible.',
 ['primitives.h','sequence.h','relocation.h','internal/sample_sort.h','internal/quicksort.h'],
 [('sort / stable_sort in place and copying variants','primitives.h'),('rvalue overloads (flatten, to_sequence, delayed)','primitives.h')])
p('P11','reduce and scan equal the left-to-right fold for any associative operator',
 'For every associative operator (commutative or not), identity and range of any length, reduce, scan, scan_inclusive, their in-place variants and map-reduce style forms return exactly the sequential left-to-right fold, respectively all its prefixes with the exact total, applied to each element exactly once. Empty ranges give the identity, and the minimum/maximum/sum style monoids use identities that are neutral for every finite value of every arithmetic type.',
 ['inputs'],'all ranges, lengths (around and across every block boundary), value types and associative monoids',
 'Tests use integer addition, where dropping the order of operands or combining a block in the wrong place changes nothing, and a handful of sizes.',
 ['primitives.h','internal/sequence_ops.h','monoid.h'],[('two-pass blocked scan and block reduce','internal/sequence_ops.h'),('monoids','monoid.h')])
p('P12','Elementwise builders produce exactly the specified element at every position',
 'tabulate, map, zip_with style forms, iota, to_sequence, copy, append, flatten, reverse, rotate, remove, all_of-free transformations and their in-place and indexed variants produce a sequence of exactly the specified length whose i-th element is the specified function of the input, calling the user function exactly once per element. This holds for any random-access range type, any length and any granularity.',
 ['inputs'],'all ranges (sequence, vector, slice, delayed, pointer ranges), lengths, rotation points, nested shapes including empty inner sequences',
 'Errors here sit at block boundaries, zero-length inner ranges or particular rotation amounts not sampled by fixed tests.',
 ['primitives.h','internal/sequence_ops.h','slice.h'],[('blocked tabulate/map','internal/sequence_ops.h'),('flatten offsets, rotate/reverse','primitives.h')])
p('P13','Selection keeps exactly the chosen elements in their original order',
 'pack, pack_index, pack_into, filter, filter_into, remove_if style operations, map_maybe, copy_if forms and split by flags return exactly the elements whose flag or predicate holds, in input order, with the exact count, and write nothing beyond it. The predicate is consulted on every element and only on elements of the range.',
 ['inputs'],'all ranges, flag patterns (all, none, runs, single hits at block boundaries) and lengths',
 'Tests sample a few periodic predicates; dropping or duplicating one element at a block boundary needs a particular length and pattern.',
 ['primitives.h','internal/sequence_ops.h'],[('count per block, scan, write per block','internal/sequence_ops.h')])
p('P14','Searches and comparisons agree with their sequential definitions',
 'all_of, any_of, none_of, count, find and its variants, find_end, search, adjacent_find, mismatch, equal, lexicographical comparison, is_sorted, is_sorted_until, is_partitioned, min/max/minmax element and position queries return exactly what the sequential standard algorithm defines: the first (or last) position when several qualify, end when none does. This holds for every length, including empty ranges and patterns longer than the text, and every position of the witness.',
 ['inputs'],'all ranges, patterns, predicates and witness positions, in particular relative to search block boundaries',
 'Which of several matches is returned depends on where they fall relative to growing search blocks and on which worker finishes first.',
 ['primitives.h','internal/sequence_ops.h'],[('find_if_index exponential blocks with write_min','primitives.h')])
p('P15','Comparison sorts return an ordered permutation for any strict weak order',
 'sort, stable_sort, sort_inplace, stable_sort_inplace and the internal sample, quick, merge and bucket sorts return the same multiset of elements ordered by the given comparison, for every strict weak order, including orders with many equivalent elements, all-equal, presorted and reversed inputs; the stable variants keep equivalent elements in input order. sort_by-key style forms and element types of any size, including move-only ones, behave alike.',
 ['inputs'],'all inputs, comparison functions, element types (small, large, pointers, move-only) and sizes across all algorithm thresholds',
 'Stability and conservation can fail only for special duplicate patterns or sizes that cross sample-sort bucket thresholds.',
 ['primitives.h','internal/sample_sort.h','internal/quicksort.h','internal/merge_sort.h','internal/bucket_sort.h','internal/merge.h','internal/transpose.h'],
 [('sample sort with equal-pivot buckets','internal/sample_sort.h'),('stable merge sort','internal/merge_sort.h'),('dual pivot split','internal/quicksort.h')])
p('P16','Integer sorts are stable and order by the full key for every key width',
 'integer_sort, stable_integer_sort, their in-place variants and the counting sort primitives return a stable permutation of the input ordered by the extracted unsigned key, for every unsigned key type, every key distribution (one key, tiny range, full 64-bit range including the maximum), every element type and size. Bucket offsets reported by counting sort delimit exactly the elements of each bucket.',
 ['inputs'],'all key types, bit counts, key distributions, element types and sizes across base-case and block thresholds',
 'Radix passes interact with the number of significant bits and the size; tests use two key functions and a few sizes.',
 ['primitives.h','internal/integer_sort.h','internal/counting_sort.h'],[('top-down radix recursion','internal/integer_sort.h'),('per-block counts and transpose','internal/counting_sort.h')])
p('P17','Merge, binary search, selection and ranking agree with their definitions',
 'merge of two sorted ranges is the sorted, stable (first range first) union; lower/upper-bound searches return the exact boundary; kth_smallest returns an element with exactly k elements ordered before it up to ties; rank assigns each element its stable position in sorted order; unique and remove_duplicates_ordered keep one element per run or class. They use only the given comparison and terminate within their stated work for inputs with any number of equivalent elements.',
 ['inputs'],'all sorted or unsorted ranges, comparisons (with ties), k, and relative lengths of the two inputs',
 'Ties and very unequal lengths exercise the split points; tests compare distinct integers.',
 ['primitives.h','internal/merge.h','internal/binary_search.h','internal/heap_tree.h'],[('merge_into divide and conquer','internal/merge.h'),('kth_smallest pivot counting','primitives.h')])
p('P18','Key-based grouping partitions the input exactly',
 'group_by_key, group_by_key_ordered, reduce_by_key, reduce_by_key variants with monoids, histogram_by_key, count_by_key and remove_duplicates list every distinct key exactly once, with exactly the values (or their monoid sum, or their number) that carry that key; ordered variants list the keys in increasing order and the values of each group in input order. This holds for any hash and equality, including colliding hashes, heavily skewed keys, a single key and all-distinct keys.',
 ['inputs'],'all key distributions (heavy hitters, collisions, distinct), hash/equality pairs, value types and monoids, sizes across thresholds',
 'Tests use uniform keys; heavy-hitter buckets and hash collisions take separate code paths chosen by sampling.',
 ['internal/group_by.h','internal/collect_reduce.h','primitives.h'],[('heavy key sampling and bucketed collect','internal/collect_reduce.h'),('group_by via semisort','internal/group_by.h')])
p('P19','Index-based grouping fills every bucket exactly, for any index type',
 'group_by_index, reduce_by_index, histogram_by_index, remove_duplicate_integers and variants return one entry per bucket 0..m-1 that contains exactly the values (in input order), the monoid sum or the count of that index, with empty buckets holding the empty group, identity or zero. This holds for every integer index type, every number of buckets relative to the input length, and empty inputs.',
 ['inputs'],'all index types, numbers of buckets (1, 2, few, more than n), key distributions and input lengths including 0',
 'Strategy is picked from n, the bucket count and skew; tests cover one or two ratios.',
 ['internal/group_by.h','internal/collect_reduce.h'],[('collect_reduce and few-bucket variant','internal/collect_reduce.h'),('group_by_index counting sort','internal/group_by.h')])
p('P20','tokens, split_at and map variants cut text exactly at the separators',
 'tokens(R,is_space) and map_tokens return, in order, exactly the maximal runs of non-separators; split_at and map_split return exactly the pieces between consecutive marked positions so that their concatenation is the whole input; results agree with the sequential definition for every placement of separators, including none, all, leading, trailing and adjacent ones. The mapped function sees every piece exactly once.',
 ['inputs'],'all texts, separator predicates and flag patterns, of any length and with pieces crossing block boundaries',
 'Tests tokenize short strings; the parallel path depends on where separators fall relative to blocks.',
 ['primitives.h'],[('block-wise start/end detection','primitives.h')])
p('P21','Delayed pipelines compute exactly what their eager counterparts compute',
 'Any composition of delayed tabulate, map, zip, zip_with, filter, map_maybe/filter_op, scan, scan_inclusive, flatten, enumerate, ending in to_sequence, reduce, for_each, apply or iteration, yields the same elements in the same order, the same totals and the same size as the eager definition applied step by step. User functions of for_each-like terminals run exactly once per element.',
 ['programs','inputs'],'all pipelines built from the delayed operators, over all input lengths (around block boundaries) and nested shapes including empty inner ranges',
 'The tests apply each delayed operator to one or two fixed inputs; block boundaries of composed views meet only in compositions.',
 ['delayed.h','delayed_sequence.h','internal/delayed/common.h','internal/delayed/filter.h','internal/delayed/flatten.h','internal/delayed/scan.h','internal/delayed/zip.h','internal/delayed/map.h','internal/delayed/terminal.h','internal/block_delayed.h'],
 [('block iterators at 2000-element boundaries','internal/delayed/common.h'),('flatten block starts','internal/delayed/flatten.h'),('scan block sums','internal/delayed/scan.h')])
p('P22','Delayed views own temporaries, reference lvalues, and survive copy and move',
 'A delayed view built from an rvalue keeps what it needs alive; one built from an lvalue refers to it. Copying, moving, assigning or returning any view gives an equal, independent view that remains valid after the original is destroyed, can be traversed repeatedly and concurrently with equal results, and its iterators obey random-access arithmetic where offered.',
 ['programs','histories'],'all view types and histories of copy, move, destruction and repeated traversal',
 'Dangling internal references are invisible unless the original is destroyed and its memory reused between copy and traversal.',
 ['internal/delayed/common.h','internal/delayed/flatten.h','internal/delayed/filter.h','internal/delayed/scan.h','internal/delayed/zip.h','internal/delayed/map.h','delayed_sequence.h'],
 [('view base holding wrapped range by value or reference','internal/delayed/common.h')])
p('P23','Random generation is reproducible, in range, and shuffles are permutations',
 'A random_generator or random value is a pure function of its seed and position: forks and streams are repeatable, distinct indices give distinct streams, and standard and library distributions stay inside their bounds. random_shuffle and random_permutation always return a permutation of their input, the same one for the same seed, for every length and element type, with no position or element favoured.',
 ['inputs'],'all seeds, indices, lengths (across the sequential and bucketed paths) and integer types; uniformity by statistical tests with negligible false-alarm probability',
 'Tests draw a few numbers; a biased or lossy shuffle at particular lengths is not visible.',
 ['random.h','utilities.h'],[('hash64 based generator','random.h'),('bucketed shuffle','random.h')])
p('P24','The hash table is a set under concurrent phases and history-independent',
 'After any phase of concurrent inserts, or of deletes, or of finds, hashtable contains exactly the keys a set would contain, with the entry chosen by the table\'s documented replacement rule for equal keys; find returns the entry for a present key and the empty value otherwise; entries() lists each present entry once and count() its number. Contents and listing depend only on the set of operations, never on their order or interleaving.',
 ['histories','schedules'],'all phase-wise histories of inserts/deletes/finds/updates, key distributions with long probe clusters and wrap-around, and interleavings inside a phase',
 'The test inserts distinct keys once; clusters with deletion and concurrent displacement are interleaving dependent.',
 ['hash_table.h'],[('priority linear probing with CAS','hash_table.h')])
p('P25','Parsing inverts formatting for every value and accepts every valid text',
 'to_chars of any integer, floating point, boolean, string, pair, array, slice or nested sequence yields the documented text, and chars_to_int/uint/long/ulong/float/double of any valid text (leading spaces, signs, exponents, long mantissas; leading spaces for floating point only) yields the value a correctly rounding reference parser yields for exactly representable or round-trippable text, out of range texts what strtod yields; integers round-trip exactly over their whole range. Parsing never reads outside the text, including empty and all-space texts.',
 ['inputs'],'all values of each type, all texts of the accepted grammar',
 'Tests check a few dozen literals; extremes, exponents and long digit strings are combinatorial.',
 ['io.h'],[('chars_to_int_t / chars_to_float_t digit loops','io.h'),('to_chars overloads','io.h')])
p('P26','File input and output preserve contents byte for byte',
 'chars_to_file followed by chars_from_file or file_map yields exactly the same bytes for every content and length, including empty files; chars_from_file with a start and end returns exactly that byte range clipped to the file; streams print the same text as to_chars. Mapped files can be moved, swapped and assigned (other than to themselves) without losing or unmapping the contents too early.',
 ['inputs','histories'],'all contents (embedded zero and newline bytes), lengths including 0, offsets, and histories of moves of mappings',
 'Tests write one or two short files.',
 ['io.h','internal/file_map.h','internal/posix/file_map_impl_posix.h'],[('fstream based io','io.h'),('mmap wrapper','internal/posix/file_map_impl_posix.h')])
p('P27','Allocators hand out disjoint, aligned memory and account for it exactly',
 'At every moment of every history of allocations and frees from any threads, the blocks handed out by allocator<T>, type_allocator<T>, p_malloc and the pool and block allocators are large enough, aligned as requested, pairwise disjoint, and not modified by the library while in use; freed blocks may be reused by any thread, including after the allocating thread exits. Statically allocated structures may be used until a thread ends, except by thread_local objects of the user that outlive the thread\'s id. The reported used and allocated amounts equal those of the live blocks whenever no operation is in progress.',
 ['histories','schedules'],'all multi-threaded histories of alloc/free over all sizes and alignments, including frees on other threads and thread exit',
 'Tests allocate a few sizes; overlap after cross-thread recycling needs particular histories and interleavings.',
 ['alloc.h','internal/block_allocator.h','internal/pool_allocator.h'],[('per-thread lists and global stack of lists','internal/block_allocator.h'),('size classes','internal/pool_allocator.h'),('p_malloc header','alloc.h')])
p('P28','The concurrent stack is linearizable and reclaims memory safely',
 'Every concurrent history of push, pop, size, empty and clear on the lock-free stack is explained by some sequential last-in-first-out order consistent with real time; no element is lost, duplicated or returned after being popped, no node is freed while another thread may still read it, and every removed node is eventually freed exactly once.',
 ['schedules','histories'],'all interleavings of the atomic steps of concurrent operations, for generated operation histories',
 'ABA and premature reclamation need one thread paused inside an operation while others pop and push; tests cannot place that pause.',
 ['internal/concurrency/hazptr_stack.h','internal/concurrency/acquire_retire.h'],[('compare-and-swap loop under a hazard pointer','internal/concurrency/hazptr_stack.h'),('announce, retire, scan, eject','internal/concurrency/acquire_retire.h')])
p('P29','Thread ids and thread-specific slots are exclusive to live threads',
 'Any two simultaneously live threads have different my_thread_id() values below num_thread_ids(), ids of dead threads are reused before new ones are made up beyond the peak, and a thread\'s id never changes. A ThreadSpecific<T> gives each live thread its own object at a stable address, initialised by the given constructor for that id, and iteration and for_each visit every slot of every id ever assigned exactly once, even when the number of threads grows between accesses.',
 ['histories','schedules'],'all histories of thread creation, first use, exit and iteration, with thread counts beyond several storage growth steps',
 'Tests start a few dozen threads; concurrent first use, growth, and id reuse are interleaving and history dependent.',
 ['thread_specific.h','internal/thread_id_pool.h'],[('free list of ids','internal/thread_id_pool.h'),('chunked growth under a lock','thread_specific.h')])
p('P30','Worker-specific storage has exactly one distinct object per worker',
 'WorkerSpecific<T> holds exactly num_workers() objects, each initialised once by its constructor with that worker\'s index; get() always returns the object of the executing worker, so unsynchronised updates through it are never lost; iteration and for_each visit each object exactly once and iterators obey random-access arithmetic.',
 ['inputs','schedules','configurations'],'all worker counts, value types, and parallel update patterns',
 'Tests use one worker count; lost updates need two tasks sharing a slot at the same time.',
 ['worker_specific.h'],[('array indexed by worker_id','worker_specific.h')])
p('P31','Relocation and uninitialized-memory helpers preserve values and lifetimes',
 'relocate_at, uninitialized_relocate, uninitialized_relocate_n, the assign_dispatch tags, unique_array, padded and copy/move helpers transfer exactly the values of n objects of any type and size (including larger than a page and over-aligned types) from source to destination, ending the source lifetimes exactly once and never touching other memory. unique_array creates and destroys exactly n elements in all cases including moves and n = 0.',
 ['inputs'],'all lengths, element sizes and alignments, iterator kinds and trivially/non-trivially relocatable types',
 'Tests relocate small arrays of two types.',
 ['relocation.h','utilities.h','internal/uninitialized_storage.h'],[('chunked memcpy vs per-element relocation','relocation.h'),('unique_array and padded','utilities.h')])
p('P32','Atomic update helpers never lose an update',
 'write_min, write_max, write_add, fetch-style and compare-and-swap helpers applied concurrently to one location leave exactly the minimum, maximum or sum of the initial value and all arguments under the given order, return true exactly for the updates that took effect where they report it, and are safe for floating point and for custom orders.',
 ['schedules','inputs'],'all interleavings of the atomic steps of concurrent updates, all values including equal and extreme ones',
 'A lost update needs two threads between load and compare-and-swap; results are usually right by luck.',
 ['utilities.h'],[('compare-exchange retry loops','utilities.h')])
p('P34','Every build configuration computes the same results as the default one',
 'Programs over the public API give identical results under every supported configuration: elastic parallelism on or off, sequential and OpenMP back ends, the standard or the parlay allocator, C++17 and C++20, GCC and Clang, optimised and debug builds, with assertions enabled never firing on valid input.',
 ['configurations','programs'],'all supported configuration macros x generated programs (outputs compared across builds)',
 'The test suite is built and run in a single configuration here.',
 ['parallel.h','internal/scheduler_plugins/omp.h','internal/scheduler_plugins/sequential.h','sequence.h','portability.h'],
 [('backend selection','parallel.h'),('plug-in par_do/parallel_for','internal/scheduler_plugins/omp.h')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
