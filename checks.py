import os
_FJ = '-I' + os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib', 'fj')
COMMON_FLAGS = ['-std=c++17', '-g1', '-pthread', '-Wno-deprecated-declarations', '-fno-omit-frame-pointer', '-w']
EL = '-DPARLAY_ELASTIC_PARALLELISM=true'
VARIANTS = {
    # assertions on
    'gcc':   {'cxx': 'g++', 'flags': ['-O1', EL]},
    'clang': {'cxx': 'clang++', 'flags': ['-O1', EL]},
    # as shipped
    'rel':   {'cxx': 'g++', 'flags': ['-O2', '-DNDEBUG', EL]},
    'relc':  {'cxx': 'clang++', 'flags': ['-O2', '-DNDEBUG', EL]},
    # small internal thresholds of the sorts
    'thr':   {'cxx': 'clang++', 'flags': ['-O1', '-DDEBUG', EL]},
    'asan':  {'cxx': 'clang++', 'flags': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=undefined', '-DPARLAY_USE_STD_ALLOC', EL]},
    'asanthr': {'cxx': 'clang++', 'flags': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=undefined', '-DPARLAY_USE_STD_ALLOC', '-DDEBUG', EL]},
    # other back ends and languages (P34)
    'omp':   {'cxx': 'g++', 'flags': ['-O0', '-DPARLAY_OPENMP', '-fopenmp'], 'extra': ['lib/workers.cpp']},
    'tbb':   {'cxx': 'g++', 'flags': ['-O0', '-std=c++20', '-DPARLAY_TBB'], 'link': ['-ltbb'], 'extra': ['lib/workers.cpp']},
    'seq':   {'cxx': 'clang++', 'flags': ['-O0', '-std=c++20', '-DPARLAY_SEQUENTIAL', '-DNDEBUG']},
    'rigid': {'cxx': 'g++', 'flags': ['-O1', '-std=c++20', '-DPARLAY_ELASTIC_PARALLELISM=false', '-DPARLAY_USE_STD_ALLOC']},
    'c20':   {'cxx': 'clang++', 'flags': ['-O2', '-std=c++20', '-DNDEBUG', EL]},
    # tasks as coroutines of one thread in any order (lib/fj.cpp), as the fibers of ThreadSanitizer in 'fjtsan'
    'fj':    {'cxx': 'clang++', 'flags': ['-O0', '-DPARLAY_TBB', _FJ], 'extra': ['lib/fj.cpp']},
    'fjtsan': {'cxx': 'clang++', 'flags': ['-O0', '-fsanitize=thread', '-DNDEBUG', '-DPARLAY_TBB', '-DPARLAY_USE_STD_ALLOC', _FJ], 'extra': ['lib/fj.cpp']},
    'tsan':  {'cxx': 'clang++', 'flags': ['-O1', '-DNDEBUG', '-fsanitize=thread', EL]},   # assertions load atomics with sequential consistency, which hides races
}
# build configurations that live side by side in one program (P34)
CONFIGS = {
    'base':  {'cxx': 'clang++', 'flags': ['-std=c++17', '-O0']},
    'omp':   {'cxx': 'g++', 'flags': ['-std=c++17', '-O0', '-DPARLAY_OPENMP', '-fopenmp']},
    'tbb':   {'cxx': 'g++', 'flags': ['-std=c++20', '-O0', '-DPARLAY_TBB']},
    'seq':   {'cxx': 'clang++', 'flags': ['-std=c++20', '-O0', '-DPARLAY_SEQUENTIAL']},
    'rigid': {'cxx': 'g++', 'flags': ['-std=c++17', '-O2', '-DNDEBUG', '-DPARLAY_ELASTIC_PARALLELISM=false', '-DPARLAY_USE_STD_ALLOC']},
    'c20':   {'cxx': 'clang++', 'flags': ['-std=c++20', '-O2', '-DPARLAY_USE_STD_ALLOC']},
    'g20':   {'cxx': 'g++', 'flags': ['-std=c++20', '-O1']},
}
CHECKS = {}
def check(id, runs, rule, assumptions=(), technique='', note=''):
    CHECKS[id] = {'runs': runs, 'rule': rule, 'assumptions': list(assumptions), 'technique': technique, 'note': note}
def run(name, srcs, variant, **kw):
    return dict(name=name, srcs=srcs, variant=variant, **kw)

check('P11', [run('clang', ['h/P11.cpp', 'h/P11b.cpp', 'h/P11c.cpp', 'h/P11d.cpp'], 'clang', scale=8), run('asan', ['h/P11.cpp'], 'asan', scale=3)],
      rule='random ranges (length biased to 0..5 and to the 1024/2048 block boundaries, 11 value shapes, 4 range kinds) x non-commutative and built-in monoids x 6 entry points, compared with the sequential fold; non-trivial: more than one element',
      technique='property-based testing against a sequential fold, with a non-commutative interval monoid that rejects non-adjacent combinations')
check('P12', [run('clang', ['h/P12.cpp'], 'clang', scale=8), run('asan', ['h/P12.cpp'], 'asan', scale=3)],
      rule='random lengths (biased to 0..5 and block boundaries), contents, granularities, range layouts and 25 entry points; result compared element by element and user calls counted per index; non-trivial: more than one element',
      technique='property-based testing against definitional models with per-index call counting')
check('P13', [run('clang', ['h/P13.cpp'], 'clang', scale=8), run('asan', ['h/P13.cpp'], 'asan', scale=3)],
      rule='random flag patterns (7 shapes incl. none, all, single, long runs, periodic) x 16 entry points x range layouts, compared with a sequential filter, bytes beyond the result checked; non-trivial: some but not all elements kept',
      technique='property-based testing against a sequential filter')
check('P14', [run('clang', ['h/P14.cpp'], 'clang', scale=8), run('asan', ['h/P14.cpp'], 'asan', scale=3)],
      rule='random ranges with the witness placed anywhere (absent, first, last, several, beyond 1000/3000/7000), patterns shorter, equal and longer than the text, asymmetric predicates, 25 entry points; compared with the standard algorithm; non-trivial: witness present and not everywhere / non-empty pattern',
      technique='property-based testing against the standard sequential algorithms')
_s = ['h/P15a.cpp', 'h/P15b.cpp', 'h/P15c.cpp', 'h/P15d.cpp', 'h/P15e.cpp']
check('P15', [run('clang', _s, 'clang', scale=6), run('asan', ['h/P15b.cpp', 'h/P15c.cpp'], 'asan', scale=2)],
      rule='random contents (11 shapes incl. sorted, reversed, few values, equal, runs), strict weak orders (total, reversed, key/d, key mod d, all equivalent), element types (8-byte, 64-byte, string, move-only, pointer), 7 entry points, lengths around 48/256/512/16384; output must be an ordered permutation by identity tag, stable where promised, input unchanged; non-trivial: n>1',
      technique='property-based testing: ordered-permutation and stability predicate over identity-tagged elements')
_s = ['h/P16a.cpp', 'h/P16b.cpp', 'h/P16c.cpp', 'h/P16d.cpp#1', 'h/P16d.cpp#2', 'h/P16d.cpp#3']
check('P16', [run('thr', _s, 'thr', scale=8), run('clang', _s, 'clang', scale=1, thorough_only=True), run('large', ['h/P16a.cpp'], 'clang', scale=4), run('asanthr', ['h/P16b.cpp'], 'asanthr', scale=1, thorough_only=True)],
      rule='random key widths 0..64 and distributions (uniform, one key, equal high bits, equal low bits, skewed, ascending; maximum key injected) x key types u8..u64 x element sizes 8/64/string/move-only x 14 entry points; compared position by position with std::stable_sort on identity tags, bucket offsets recomputed; non-trivial: n>1 and more than one possible key',
      technique='property-based testing against std::stable_sort with identity tags and recomputed bucket offsets')
check('P17', [run('clang', ['h/P17.cpp#1', 'h/P17.cpp#2', 'h/P17.cpp#3'], 'clang', scale=5), run('asan', ['h/P17.cpp#1', 'h/P17.cpp#2', 'h/P17.cpp#3'], 'asan', scale=0.5, thorough_only=True)],
      rule='random sorted pairs of ranges, queries, ranks and orders with many ties, equality finer than the order; compared with the standard algorithms (by tag for stability) or the k-ordered-before predicate; non-trivial: non-empty inputs (n>1)',
      technique='property-based testing against standard algorithms and validity predicates')
_s = ['h/P18.cpp#1', 'h/P18.cpp#2', 'h/P18.cpp#3', 'h/P18.cpp#4']
check('P18', [run('clang', _s, 'clang', scale=4), run('asan', ['h/P18.cpp#1', 'h/P18.cpp#4'], 'asan', scale=1, thorough_only=True)],
      rule='random key distributions (heavy hitters, few, distinct, single) x 7 hash/equality pairs (constant, colliding, identity, coarse) x key and value types (64-bit, 32-bit, lifetime-tracked, string) x 11 entry points, lvalue and rvalue inputs, lengths around 10000; compared with a sequential map from key class to positions; non-trivial: n>1',
      technique='property-based testing against a sequential map, with lifetime-tracked keys and values')
_s = ['h/P19.cpp#%d' % i for i in range(1, 9)]
check('P19', [run('clang', _s, 'clang', scale=5), run('asan', _s, 'asan', scale=0.5, thorough_only=True)],
      rule='random index types (u8, u16, int, size_t) x numbers of buckets (1, 2, few, around sqrt(n), 64, n, more than n) x key distributions (heavy hitters, stride 16, few, one, explicit) x 8 entry points, lengths 0..30000 around 8192; compared with a sequential bucket table; non-trivial: n>0 and more than one bucket',
      technique='property-based testing against a sequential bucket table, with lifetime-tracked values')
_s = ['h/P20.cpp#1', 'h/P20.cpp#2']
check('P20', [run('clang', _s, 'clang', scale=20), run('asan', _s, 'asan', scale=3)],
      rule='random texts (separator patterns: none, all, single, long runs, periodic; bytes incl. 0 and >127), custom separator predicates, flag ranges of bool, byte and int, range layouts, lengths around 2000; compared with a sequential splitter and the calls of the mapped function counted per piece; non-trivial: at least one token / one mark',
      technique='property-based testing against a sequential splitter with call counting')
_s = ['h/P21.cpp#%d' % i for i in range(8)]
check('P21', [run('clang', _s, 'clang', scale=5), run('asan', _s, 'asan', scale=1, thorough_only=True)],
      rule='40 pipelines of the delayed operators over random inputs (lengths around multiples of 2000, predicates keeping all/none/few/half, nested shapes with empty and huge inner ranges) x 7 terminals, plus totals and writes through references; compared with the eager definition computed step by step; non-trivial: non-empty result',
      technique='property-based testing: delayed pipelines against eager models')
_s = ['h/P22.cpp#%d' % i for i in range(9)]
check('P22', [run('asan', _s, 'asan', scale=1), run('clang', _s, 'clang', scale=2, thorough_only=True)],
      rule='40 pipelines x random histories of construct, copy, move, assign, self-assign, swap and destroy over three heap slots and two data sets, each live view traversed in 7 ways (iterators, const, twice, by block, concurrently, random access arithmetic, to_sequence), functors that own heap memory, under AddressSanitizer; compared with the eager model and the inputs checked unchanged; non-trivial: both data sets give a non-empty view',
      technique='stateful property-based testing of view histories against eager models under AddressSanitizer')
_s = ['h/P08.cpp#%d' % i for i in range(10)]
check('P08', [run('clang', _s, 'clang', scale=8), run('asan', _s, 'asan', scale=2, thorough_only=True)],
      rule='random histories of up to 30 operations out of 31 kinds (60 entry points) over three sequences, 10 element/allocator/inline-storage combinations, sizes up to 20000 with the inline limit and 1024 favoured, references to own elements, ranges of four iterator categories; every operation is compared with a std::vector of keys (contents, size, iterators returned, comparisons); non-trivial: some sequence reaches two elements',
      technique='stateful model-based testing against std::vector')
_s = ['h/P09.cpp#%d' % i for i in range(8)]; _a = ['h/P09.cpp#%d' % i for i in range(8, 14)] + ['lib/heap.cpp']
check('P09', [run('clang', [_s[0], _s[2], _s[4], _s[7]], 'clang', scale=10), run('more', [_s[1], _s[3], _s[5], _s[6]], 'clang', scale=10, thorough_only=True), run('stdalloc', _a, 'clang', scale=5, flags=['-O0', '-DPARLAY_USE_STD_ALLOC']), run('asan', _s, 'asan', scale=1, thorough_only=True)],
      rule='(a) random histories of sequence operations over elements that check their own identity and lifetime, under allocators that check every deallocation and count constructions; (b) 72 library calls on random inputs of such elements with every heap block counted; live elements, constructions, blocks and bytes must return to their starting values; non-trivial: some sequence (input) has two elements',
      technique='stateful property-based testing with lifetime-tracked elements and counting allocators')
_a = ['h/P05.cpp#%d' % i for i in range(6)]; _b = ['h/P05.cpp#%d' % i for i in range(6, 12)]
check('P05', [run('clang', _a + ['h/P05b.cpp'], 'clang', scale=3, flags=['-O0']), run('orders', ['h/P05f.cpp#%d' % i for i in range(6)], 'fj', scale=2), run('tracked', _b, 'clang', scale=1, thorough_only=True), run('thr', _a, 'thr', scale=1, thorough_only=True)],
      rule='(a) 90 library calls (sorts, groupings, reductions and scans with inexact and non-commutative operators, shuffles, delayed pipelines, hash table, text) on random inputs up to 30000, each run three times with different numbers of workers (1 to 16), different injected delays and optional competing work; the complete digests of results, doubles bit for bit, must be equal; (b) the same calls with every task of every loop and fork as a coroutine, run in seeded random orders and exchanged at forks, joins and user calls, against the plain order; non-trivial: at least two elements and different numbers of workers (a task spawned)',
      technique='metamorphic property-based testing: same call under different worker counts, perturbed schedules and seeded task orders')
_a = ['h/P10.cpp#%d' % i for i in range(10)]
check('P10', [run('clang', _a, 'clang', scale=1, flags=['-O0']), run('asan', _a, 'asan', scale=1, thorough_only=True)],
      rule='(a) 32 in-place or rvalue uses of the library on four kinds of move-only (or copy-counting) elements whose identity is followed: outputs hold exactly the promised identities, selected elements are moved out, others stay, none is lost, duplicated or copied; (b) the 72-call catalogue on lvalue inputs of strings, every input compared afterwards; non-trivial: two or more elements',
      technique='property-based testing with identity-tracked move-only elements')
_a = ['h/P07.cpp#%d' % i for i in range(6)] + ['h/P07.cpp#12', 'h/P07.cpp#13', 'h/P21.cpp#1', 'h/P21.cpp#3']
check('P07', [run('asan', _a, 'asan', scale=1, flags=['-O0']), run('more', ['h/P07.cpp#%d' % i for i in range(6, 12)], 'asan', thorough_only=True), run('pipes', ['h/P21.cpp#%d' % i for i in range(8)], 'asan', thorough_only=True), run('small', _a[:6], 'asanthr', thorough_only=True)],
      rule='the 90-call catalogue on random inputs (elements of 8, 32, 316 and 9016 bytes), sequence histories and delayed pipelines, all under AddressSanitizer and UndefinedBehaviorSanitizer with assertions on; inputs are compared afterwards and the heap in use must not grow from call to call; non-trivial: two or more elements',
      technique='property-based testing under AddressSanitizer/UBSan with heap accounting')
check('P06', [run('tsan', ['h/P06.cpp#%d' % i for i in range(6)], 'tsan', scale=0.8, flags=['-O0']), run('fibers', ['h/P06f.cpp#%d' % i for i in range(6)], 'fjtsan', scale=1), run('shared', ['h/P06b.cpp'], 'tsan', scale=1, flags=['-O0']), run('life', ['h/P03.cpp'], 'tsan', scale=0.02, flags=['-O0'])],
      rule='under ThreadSanitizer: (a) the 90-call catalogue with user functions that share nothing, alone or on two to four user threads at once; (b) plain data handed on through thread ids, ThreadSpecific, WorkerSpecific, allocators, the lock-free stack and the hash table; comparisons of long sequences; one object read by many tasks or threads; loops with sleeping workers between them; (c) schedulers created and destroyed. Non-trivial: two or more elements or operations',
      technique='property-based testing under ThreadSanitizer')
check('P01', [run('clang', ['h/P01.cpp'], 'clang', scale=10), run('tsan', ['h/P01.cpp'], 'tsan', scale=2)],
      rule='(a) loops over random ranges (0 to 50000 long, starts up to 2^64), granularities (0, 1, around n, huge, negative), block sizes (1 to 2^64-1), conservative or not, 6 loop forms, 1 to 16 workers, injected delays; per index a call count and a plain result word read by the caller after the join; (b) random programs nesting 8 constructs up to depth 4, whose value is compared with a sequential evaluation; (c) conservative loops inside user locks; non-trivial: more than one index (three tasks)',
      technique='property-based testing with per-index call counts, under perturbed schedules and ThreadSanitizer')
check('P03', [run('clang', ['h/P03.cpp'], 'clang', scale=0.7)],
      rule='random trees of nested schedulers of 1 to 20 workers, created in tasks or in sequence, from one to four user threads, explicit scheduler objects, and rows of schedulers created and destroyed at once with idle times around the sleep timeout; in every task the id range, the number of workers and the fixed one-to-one id/thread relation are checked, afterwards the surrounding scheduler and the number of operating system threads; non-trivial: more than one worker, scheduler or thread',
      technique='property-based testing of random scheduler trees with an id/thread bijection oracle')
check('P30', [run('clang', ['h/P30.cpp'], 'clang', scale=10), run('tsan', ['h/P30.cpp'], 'tsan', scale=2)],
      rule='6 kinds of constructors x 1 to 16 workers x loops of up to 4000 tasks with nested forks, granularities and delays; number, distinctness, initialisation and addresses of the objects, ownership in every task, the total of unsynchronised updates, iterator arithmetic against indices; non-trivial: more than one task',
      technique='property-based testing with an ownership and lost-update oracle')
_s = ['h/P24.cpp#0', 'h/P24.cpp#1', 'h/P24.cpp#2']
check('P24', [run('clang', _s, 'clang', scale=12), run('tsan', _s, 'tsan', scale=2)],
      rule='random histories of up to 7 phases (concurrent or sequential inserts, updates, deletes, finds of up to 4000 keys) on tables of random capacity and load up to almost full, 7 hash functions (mixing, constant, identity, clustered at the end of the table, ..), 4 entry types and replacement rules, injected delays in hash and compare-and-swap; after each phase contents, entries, count, find, findIndex and get_index are compared with a sequential map and the listing with that of a table built from the same set in another order; non-trivial: a concurrent phase of two or more operations',
      technique='stateful model-based testing of concurrent phases against a sequential map')
check('P23', [run('clang', ['h/P23.cpp#0', 'h/P23.cpp#1'], 'clang', scale=4), run('asan', ['h/P23.cpp#0'], 'asan', scale=0.5, thorough_only=True)],
      rule='shuffles and permutations over random lengths (0..40000 around 8192), seeds, element types, integer types up to their maximum, range layouts and worker counts: permutation by tag, same result for the same seed, input unchanged, and statistics of places, ascents, parity and (for 2..5 elements) all permutations with limits beyond 10 standard deviations; generators: streams, copies, indexed streams and forks repeatable and distinct, bits fair, standard distributions in range; non-trivial: n>1',
      technique='property-based testing with permutation and statistical oracles')
check('P25', [run('clang', ['h/P25.cpp#0', 'h/P25.cpp#1'], 'clang', scale=24), run('asan', ['h/P25.cpp#0', 'h/P25.cpp#1'], 'asan', scale=8)],
      rule='integers around the limits of 6 types with signs and leading zeros; floating point texts from a grammar (blanks, signs, 0..45 digits around the fast path limits, periods anywhere, exponents up to 399, inf/nan, printf output of random bit patterns) compared bit for bit with strtod/strtof/strtold; degenerate texts under AddressSanitizer; 24 value types formatted and compared with a reference formatter; lists formatted, tokenised and parsed again; non-trivial: more than one character',
      technique='property-based testing: differential against the C library and round trips')
check('P26', [run('clang', ['h/P26.cpp'], 'clang', scale=10), run('asan', ['h/P26.cpp'], 'asan', scale=3)],
      rule='random contents (binary, zero and newline bytes) of 0..200000 bytes written, overwritten, read whole, in parts (start and end inside, around and beyond the end) and mapped, compared byte by byte with what a separate reader sees; random histories of map, move, assign, swap, close and destroy over three mappings with the contents and the mappings of the process checked after each step; non-trivial: non-empty file',
      technique='property-based testing: round trips through scratch files and stateful testing of mappings')
check('P27', [run('clang', ['h/P27.cpp#0', 'h/P27.cpp#1'], 'clang', scale=5), run('tsan', ['h/P27.cpp#0', 'h/P27.cpp#1'], 'tsan', scale=0.15)],
      rule='random histories of allocations, frees and hand-overs by up to 5 threads (or tasks) in up to 4 phases with threads dying in between, over p_malloc and allocator<T> (sizes 0 to beyond the largest pool, alignments 1 to 8192), 7 type_allocators (1 to 300000 bytes), private pool allocators (odd size classes) and block allocators with lists of 1 to 50 blocks; every block is filled and checked for modification, alignment and overlap, and the reported amounts compared with the live blocks at every quiet point; non-trivial: more than five operations in some thread',
      technique='stateful property-based testing of multi-threaded allocation histories against an interval model')
_s = ['h/P31.cpp#%d' % i for i in range(4)]
check('P31', [run('clang', _s, 'clang', scale=12), run('asan', _s, 'asan', scale=2)],
      rule='random lengths (0 to several memcpy chunks) x 28 element types (1 byte to 20 KB, alignment up to 4096, strings, smart pointers, containers, pairs, tuples, optionals, variants, std::function, self-referential and lifetime-tracked types) x 10 iterator combinations, converting relocations, 9 assign/relocate helpers, histories of unique_array operations, uninitialized storage and sequences, padded values; values, guard bytes and lifetimes checked; non-trivial: more than one element',
      technique='property-based testing with guard bytes, lifetime-tracked elements and AddressSanitizer')
check('P02', [run('futex', ['h/P02.cpp'], 'clang', scale=8), run('wait', ['h/P02.cpp'], 'clang', flags=['-DCTL_STD_WAIT'], scale=4), run('spin', ['h/P02.cpp'], 'clang', flags=['-DPARLAY_ELASTIC_PARALLELISM=false'], scale=4), run('real', ['h/P02r.cpp'], 'gcc', scale=5, share=0.4)],
      rule='the library\'s scheduler code runs on threads that hand over a baton at every atomic operation, lock, yield, futex call, sleep and thread start, so each case fixes one interleaving (random switches, or up to 5 preemptions at chosen steps) and, in half of the cases, when each store weaker than seq_cst leaves its x86-TSO store buffer; programs: sequences of fork-join trees, loops, idle times and handshakes on 1-4 workers, and queue histories of one owner and 1-3 thieves; futex, C++20 wait and spinning builds; deadlock and lack of progress are detected. Real threads: idle times around the sleep timeout, storms of tiny tasks, conservative joins inside locks. Non-trivial: something is forked and there is more than one worker',
      technique='property-based testing with generated interleavings and store-buffer delays (controlled concurrency), exactly-once oracle and deadlock detection')
check('P28', [run('plain', ['h/P28.cpp'], 'clang', scale=8), run('asan', ['h/P28.cpp'], 'asan', scale=3), run('real', ['h/P28r.cpp'], 'gcc', scale=3), run('realasan', ['h/P28r.cpp'], 'asan', scale=0.5)],
      rule='generated programs of push/pop/size/empty/clear for 1-4 threads on a stack with 0-4 initial values and per-thread lists of retired nodes up to the scan threshold, each run under one generated interleaving of the atomic steps (random switches or up to 5 preemptions, optionally x86-TSO store buffers); the recorded history is checked for linearizability by searching all orders; values know whether they live; memory is reused at once (plain) or poisoned (ASan). reclaim: objects held by acquire/release against replacements and retirements, a deleter that checks for holders, and exactly-once deletion at the end. real: up to 8 free-running threads that come and go. Non-trivial: several threads and operations',
      technique='property-based testing with generated interleavings and exhaustive linearizability checking of each history; AddressSanitizer for reclamation')
check('P29', [run('ctl', ['h/P29.cpp'], 'clang', scale=9), run('ctlasan', ['h/P29.cpp'], 'asan'), run('real', ['h/P29r.cpp'], 'gcc', scale=5), run('realasan', ['h/P29r.cpp'], 'asan')],
      rule='histories of 2-14 threads (start, join order, first use, exit) and 1-2 ThreadSpecific stores with three kinds of constructor; operations: get, const get, for_each, iterating forwards, backwards and by jumps; one generated interleaving of the atomic steps and locks per case, chunks of 4 so that stores grow up to three times, every case in a fresh process from first id to static destruction; oracle: map of live ids, peak number of live threads, address, constructor argument, and update count of each slot. real: rounds of up to 150 free-running threads. Non-trivial: more than one thread',
      technique='stateful property-based testing with generated interleavings (controlled concurrency) and a live-id model')
check('P32', [run('ctl', ['h/P32.cpp'], 'clang', scale=3), run('real', ['h/P32r.cpp'], 'gcc', scale=4)],
      rule='2-4 threads with 1-3 operations each (write_add with arguments of other types, write_min and write_max under total, reversed, key-only and absolute-value orders, load, store, exchange) on one location of 10 types, one generated interleaving of the atomic steps with spurious failures of weak compare-and-swap; every order of the operations consistent with real time is tried until one explains results and final value. real: loops and threads with up to 20000 updates against the sequential sum, minimum, maximum and reported updates. Non-trivial: all ctl cases; real cases with more than one update',
      technique='property-based testing with generated interleavings and exhaustive linearizability checking of each history')
_q = ['h/P34.cpp'] + ['h/P34c.cpp#%d@base' % i for i in range(6)]
_t = ['%d@%s' % (i, c) for c in ('omp', 'tbb', 'seq', 'rigid', 'c20', 'g20') for i in range(6)]
_p = ['h/P01.cpp#0', 'h/P01.cpp#1', 'h/P11.cpp']
_m = _p + ['h/P12.cpp', 'h/P13.cpp', 'h/P14.cpp', 'h/P15a.cpp', 'h/P15d.cpp', 'h/P16a.cpp', 'h/P17.cpp#1', 'h/P18.cpp#1', 'h/P18.cpp#4', 'h/P19.cpp#1', 'h/P20.cpp#1', 'h/P21.cpp#0', 'h/P21.cpp#4', 'h/P22.cpp', 'h/P24.cpp', 'h/P25.cpp', 'h/P26.cpp', 'h/P10.cpp', 'h/P08.cpp']
_l = dict(flags=['-O0', '-fopenmp'], link=['-fopenmp', '-ltbb'])
check('P34', [run('configs', _q + ['h/P34c.cpp#' + x for x in ('0@omp', '3@tbb', '5@seq', '2@rigid', '4@c20', '1@g20')], 'gcc', scale=1, **_l),
              run('omp', _p[:2], 'omp', scale=0.1), run('tbb', _p[:2], 'tbb', scale=0.1), run('seq', _p[1:], 'seq', scale=0.3),
              run('all', _q + ['h/P34c.cpp#' + x for x in _t], 'gcc', thorough_only=True, **_l),
              run('omp-more', _m, 'omp', thorough_only=True, scale=0.5), run('tbb-more', _m, 'tbb', thorough_only=True, scale=0.5), run('seq-more', _m + ['h/P30.cpp'], 'seq', thorough_only=True, scale=0.5),
              run('rigid-more', _m + ['h/P30.cpp', 'h/P02r.cpp'], 'rigid', thorough_only=True, scale=0.5), run('c20-more', _m + ['h/P30.cpp'], 'c20', thorough_only=True, scale=0.5)],
      rule='(a) one program holds the library in up to seven build configurations (default; OpenMP; TBB; sequential; spinning workers with malloc and NDEBUG; C++20 with clang and with gcc, -O0 to -O2): the 90-call catalogue on random inputs, in the default and in one other configuration, each with its own number of workers; the complete digests, doubles bit for bit, must be equal; (b) the harnesses of other properties (quick: loops, nested constructs, reductions; thorough: 20 harnesses) built and run in each configuration against their own models; non-trivial: two or more elements',
      technique='differential property-based testing between build configurations')
NOT_APPLICABLE = {}
GEN_NOTE = 'Explores generated cases only; no proof. Trusts the harness oracle, the host compiler and the schedules the machine happened to produce.'
for c in CHECKS.values(): c['note'] = c['note'] or GEN_NOTE
check('P35', [run('clang', ['h/P35.cpp#%d' % i for i in range(6)], 'clang', flags=['-O0'])],
      rule='36 calls that take predicates, orders, equalities or flags (pack, filter, finds, counts, sorts, merges, groups, tokens, splits, delayed filters); each runs on the same random input twice: with callables and flags of type bool, and of int, 64-bit, byte, double, class-with-operator-bool or pointer type whose true values are random non-zero values (2, -1, 256, 1<<32, 1e-300 ...); the complete digests must be equal; non-trivial: two or more elements',
      technique='differential (metamorphic) property-based testing')
