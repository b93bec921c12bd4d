# The properties, where they are anchored, which monitors decide them and how many cases each tier runs.
# Bounds are case counts, never seconds. gen.py derives properties.jsonl and MANIFEST.json from this file.
PROPS = {}
LIBC = ["bss_util_c.c", "ConvertUTF.c"]
LIB = ["bss_util.cpp"] + LIBC


def P(id, title, statement, over, qtext, why, files, mech, jobs, rule, technique, note, **kw):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                     jobs=jobs, rule=rule, technique=technique, note=note, **kw)


INC = "include/bss-util/"
SEQNOTE = ("Exploration: random operation histories run against the real headers under ASan+UBSan, every observable result compared with a reference model "
           "after every operation; holds on all explored histories, no claim beyond them. Trusts the sanitizers and the reference model.")

P("P01", "Dynamic arrays behave as sequences and manage their elements' lifetimes",
  "For every sequence of additions, insertions, removals, resizes, copies, moves, assignments (including to itself) and concatenations on the fixed and growable array types, length, indexing, iteration and front/back report exactly the elements a plain sequence would hold, copies are independent and moved-from arrays are empty. "
  "Every element is constructed and destroyed exactly once whatever element handling mode the array was declared with, no memory outside the array's storage is touched, and nothing is leaked.",
  ["histories", "configurations"], "all operation histories, element kinds (plain, non-relocatable, relocatable, move-only), size types and element handling modes",
  "The tests run one short fixed script per array type; growth, self-assignment, insert-at-capacity and lifetime errors need particular lengths, capacities and element types.",
  [INC + "DynArray.h", INC + "Array.h"], [("growth and element relocation", INC + "DynArray.h"), ("construction, copy and removal helpers", INC + "Array.h")],
  [{"src": "p01_arrays.cpp", "variant": "asan", "cases": 180000, "thorough": 3000000},
   {"src": "p01_arrays.cpp", "variant": "asan_rel", "cases": 60000, "thorough": 1000000}],
  "one evaluation = one random operation history on one array type with the sequence model compared after every operation; non-trivial = distinct history (hash of all operations and arguments)",
  "model-based runtime monitor + lifetime tracking + ASan/UBSan", SEQNOTE)

P("P02", "Bit-packed storage returns every bit as it was written",
  "An array of booleans behaves exactly like an ordinary sequence of booleans under every history of element and range operations (add, insert, remove, resize, set, count, flip, copy, move), touching no other bit and no memory outside its storage; bit-field words do the same for every bit and mask. "
  "A bit stream yields the same values, at the same bit widths and in the same order, as were written to it, across every mix of widths and bytes.",
  ["histories", "inputs"], "all operation histories, lengths and bit offsets; all sequences of (width, value) written to a bit stream",
  "The tests touch a handful of offsets; byte-boundary carries and partial final bytes only show at particular lengths and offsets.",
  [INC + "DynArray.h", INC + "BitField.h", INC + "BitStream.h"], [("bit-packed array specialisation", INC + "DynArray.h"), ("bit range operations", INC + "bss_util.h"), ("bit stream", INC + "BitStream.h")],
  [{"src": "p02_bits.cpp", "variant": "asan", "flags": ["-fno-sanitize=shift"], "cases": 400000, "thorough": 2000000, "lib": LIBC}],
  "one evaluation = one random history on one bit container (or one write/read-back of a random bit stream); non-trivial = distinct history",
  "model-based runtime monitor + ASan/UBSan", SEQNOTE)

P("P03", "Circular buffers, queues and stacks keep order and lose nothing",
  "For every history of pushes, pops, peeks, capacity changes, copies and moves, the queue and the stack return elements in first-in-first-out and last-in-first-out order respectively and report the exact length; the circular buffer reports the retained elements in push order at both ends and, when full, replaces only the oldest. "
  "Elements are constructed and destroyed exactly once and no storage outside the buffer is touched.",
  ["histories", "configurations"], "all operation histories, capacities, wrap positions and element kinds",
  "Wrap-around combined with a capacity change at each possible head position is a large space; tests use one script.",
  [INC + "ArrayCircular.h", INC + "Queue.h", INC + "Stack.h"], [("circular indexing", INC + "ArrayCircular.h"), ("growth on push", INC + "Queue.h")],
  [{"src": "p03_queues.cpp", "variant": "asan", "cases": 200000, "thorough": 2000000}],
  "one evaluation = one random history on one container against a deque model; non-trivial = distinct history",
  "model-based runtime monitor + lifetime tracking + ASan/UBSan", SEQNOTE)

P("P04", "Sorted arrays, sorted maps and binary searches stay ordered and exact",
  "For every history of insertions, removals, replacements, copies and moves, the sorted array and the sorted map contain exactly what was inserted and not removed, in comparator order, and lookups (exact, nearest-before, nearest-after, by key or index) return what a scan of that order would. "
  "Binary searches over any sorted input, including empty, duplicated and extreme values and narrow index types, return the position a linear scan would. The library's comparators order numbers, texts (with and without regard to ASCII case), pairs and tuples as they say.",
  ["histories", "inputs"], "all histories over keys with duplicates, comparators and index types; all sorted inputs and probes",
  "Tests probe a few keys; off-by-one errors need boundary positions (first, last, duplicates, absent extremes).",
  [INC + "ArraySort.h", INC + "Map.h", INC + "algo.h"], [("sorted insert and nearest search", INC + "ArraySort.h"), ("keyed map over the sorted array", INC + "Map.h"), ("binary search family", INC + "algo.h")],
  [{"src": "p04_sorted.cpp", "variant": "asan", "cases": 240000, "thorough": 2000000}],
  "one evaluation = one random history against a multiset/map model or one batch of searches against a linear scan; non-trivial = distinct history",
  "model-based runtime monitor + lifetime tracking + ASan/UBSan", SEQNOTE)

P("P05", "Heaps and priority queues always yield the extreme element",
  "For every history of insertions, pops, removals, value changes, copies and moves, the heap, the priority queue and the keyed priority heap hold exactly the elements inserted and not removed, their top is an extreme element under the comparator, and popping them empties them in comparator order. "
  "In the keyed heap a key keeps naming the same element until it is removed; heap sort sorts any input; elements are constructed and destroyed exactly once.",
  ["histories", "configurations"], "all histories of operations, comparators and element kinds, with duplicates",
  "Removing or changing an interior element breaks heap order only for particular value arrangements.",
  [INC + "BinaryHeap.h", INC + "PriorityQueue.h"], [("sift up and sift down", INC + "BinaryHeap.h"), ("keyed heap", INC + "PriorityQueue.h")],
  [{"src": "p05_heaps.cpp", "variant": "asan", "cases": 180000, "thorough": 1500000}],
  "one evaluation = one random history against a multiset / key->value model; non-trivial = distinct history",
  "model-based runtime monitor + lifetime tracking + ASan/UBSan", SEQNOTE)

P("P06", "Hash tables map each key to its last value, whatever the collisions",
  "For every history of insertions, overwrites, removals, clears, capacity changes, copies and moves, a hash map or set contains exactly the keys inserted and not removed, each with the last value stored, as seen by lookup, length and forward and backward iteration, and reports missing keys as missing; this holds for every key kind, including text compared without regard to ASCII case, and for any hash function however badly it collides. "
  "Keys and values are constructed and destroyed exactly once and nothing is leaked.",
  ["histories", "configurations", "inputs"], "all histories, key kinds, value kinds, table sizes and hash functions",
  "Tombstones, rehash displacement and probe wrap-around depend on long histories and collision patterns the tests never produce.",
  [INC + "Hash.h"], [("open addressing with tombstones", INC + "Hash.h"), ("rehash in place", INC + "Hash.h")],
  [{"src": "p06_hash.cpp", "variant": "asan", "cases": 30000, "thorough": 1500000, "lib": LIBC}],
  "one evaluation = one random history over one key/value kind and hash function against a map model; non-trivial = distinct history",
  "model-based runtime monitor + lifetime tracking + ASan/UBSan", SEQNOTE)

P("P07", "Balanced trees stay ordered, exact and balanced",
  "For every history of insertions, removals (by key or by node), key replacements, clears and moves, each balanced search tree (AVL, AA, threaded red-black) contains exactly the keys inserted and not removed, in key order both when traversed and when looked up, with the data stored for each key and the documented nearest-neighbour answers, duplicates included where the tree allows them. "
  "The depth of each tree stays logarithmic in the number of keys, nodes keep their identity until removed, and every node is constructed, destroyed and returned to the tree's own allocator exactly once.",
  ["histories", "configurations"], "all operation histories, key arrangements (random, ascending, duplicates), element kinds and allocators",
  "Rotation and successor-removal cases depend on the exact shape of the tree; the tests insert and delete one shuffled list.",
  [INC + "AVLTree.h", INC + "AATree.h", INC + "TRBtree.h", INC + "LLBase.h"], [("AVL rotations", INC + "AVLTree.h"), ("skew and split", INC + "AATree.h"), ("red-black fixups and threading", INC + "TRBtree.h")],
  [{"src": "p07_trees.cpp", "variant": "asan", "cases": 60000, "thorough": 1000000}],
  "one evaluation = one random history on one tree kind against a map/multimap model, with traversal, lookups, neighbour queries and depth checked after every operation; non-trivial = distinct history",
  "model-based runtime monitor + lifetime tracking + ASan/UBSan", SEQNOTE)

P("P08", "Linked containers and the small-buffer array behave as sequences",
  "For every history of insertions at either end or beside an element, removals, writes, capacity changes, clears, concatenations, copies and moves, the linked list, the array-backed linked list and the small-buffer array hold exactly the expected elements in the expected order, forwards and backwards, with the right length, ends and search results. "
  "A handle or node keeps naming its element until that element is removed, no live handle is ever handed out twice, elements are constructed and destroyed exactly once, and no memory outside the container is touched, on both sides of the small-buffer limit.",
  ["histories", "configurations"], "all operation histories, list configurations (tail pointer, length counter, allocator), index types, buffer sizes and element kinds",
  "Unlinking at the ends, free-list reuse and the inline-to-heap transition depend on the order of operations; tests run a single script each.",
  [INC + "LinkedList.h", INC + "LinkedArray.h", INC + "CompactArray.h", INC + "LLBase.h"], [("link and unlink", INC + "LLBase.h"), ("index free list", INC + "LinkedArray.h"), ("inline/heap flag", INC + "CompactArray.h")],
  [{"src": "p08_linked.cpp", "variant": "asan", "cases": 200000, "thorough": 2000000}],
  "one evaluation = one random history on one container configuration against a sequence model keyed by handle; non-trivial = distinct history",
  "model-based runtime monitor + lifetime tracking + ASan/UBSan", SEQNOTE)

P("P09", "The static trie resolves exactly its own words",
  "A trie built from any set of distinct words (up to the number of nodes its index type can count) returns, for every query string, the index the word was given when the trie was built if the string is one of the words, and the not-found value otherwise, for zero-terminated and explicit-length queries alike and, in the case-insensitive variant, regardless of ASCII case. "
  "Prefixes, extensions, empty strings and arbitrary bytes are handled, copies and moved tries answer identically, and no memory outside the query or the trie is read.",
  ["inputs", "configurations"], "all word sets, query strings, index types and case modes",
  "Each word set builds a different node layout; the tests use one fixed list.",
  [INC + "Trie.h", INC + "algo.h"], [("recursive node layout", INC + "Trie.h"), ("binary search among siblings", INC + "algo.h")],
  [{"src": "p09_trie.cpp", "variant": "asan", "cases": 120000, "thorough": 2000000}],
  "one evaluation = one random word set with every word, prefixes, extensions, mutations and random strings looked up against a map; non-trivial = distinct word set",
  "model-based runtime monitor + ASan/UBSan", SEQNOTE)

MTNOTE = ("Exploration: real threads run the real headers while per-thread timers force preemptions at arbitrary instructions; every result is judged online or from the recorded history. "
          "Holds on the schedules visited (counted in the evidence), no claim beyond them; x86-64 only.")
MT = dict(exclusive=True, shards=4, stall=60)

P("P10", "Allocators never hand out memory that is in use, and keep it intact",
  "For every history of allocations, resizes, frees, clears and moves, the block, greedy, greedy-block, ring, cache and standard allocators return blocks that overlap no live block, have the requested size and the configured alignment and stay untouched until they are freed; resizing keeps the common prefix. "
  "Freed blocks of the block and cache allocators are reused before new memory is taken, clearing makes all of the memory available again, moving an allocator moves its blocks, and destroying it releases everything.",
  ["histories", "configurations"], "all histories of sizes, orders of free, initial capacities and alignments",
  "Overlaps need particular sequences of sizes, chunk growth and frees; the tests only compare a few blocks of fixed size.",
  [INC + "Alloc.h", INC + "BlockAlloc.h", INC + "BlockAllocMT.h", INC + "GreedyAlloc.h", INC + "GreedyBlockAlloc.h", INC + "RingAlloc.h", INC + "CacheAlloc.h"],
  [("freelist of blocks in chunks", INC + "BlockAlloc.h"), ("bump allocation with consolidation", INC + "GreedyAlloc.h"), ("buckets recycled when empty", INC + "RingAlloc.h"), ("freelist per size", INC + "CacheAlloc.h")],
  [{"src": "p10_alloc.cpp", "variant": "asan", "cases": 56000, "thorough": 500000},
   {"src": "p10_alloc.cpp", "variant": "asan_rel", "cases": 32000, "thorough": 300000}],
  "one evaluation = one random allocation history with a shadow map of every live block (disjointness, alignment, contents, reuse, heap balance); non-trivial = distinct history",
  "shadow-memory runtime monitor + ASan/UBSan", SEQNOTE)

P("P11", "Thread-safe allocators keep blocks disjoint and conserved under every schedule",
  "While any number of threads allocate and free at the same time, including freeing blocks that another thread allocated, the lock-free block allocator, the greedy allocator, the cache allocator and the ring allocator never give two threads overlapping memory and never touch a block that is still live. "
  "Once all threads are done and every block is freed, the block and cache allocators can hand out each of those blocks again exactly once without taking new memory.",
  ["schedules", "histories"], "all interleavings of concurrent allocations and frees",
  "Double hand-outs (ABA, lost reservations) need a preemption between two particular instructions.",
  [INC + "BlockAllocMT.h", INC + "GreedyAlloc.h", INC + "RingAlloc.h", INC + "CacheAlloc.h"],
  [("tagged-pointer freelist", INC + "BlockAllocMT.h"), ("reservation by fetch_add under a read lock", INC + "GreedyAlloc.h"), ("bucket recycling protocol", INC + "RingAlloc.h"), ("size table guarded by a read-write lock", INC + "CacheAlloc.h")],
  [dict(MT, src="p11_mtalloc.cpp", variant="opt", cases=2400, thorough=80000),
   dict(MT, src="p11_mtalloc.cpp", variant="rel", cases=2400, thorough=80000),
   dict(MT, src="p11_mtalloc.cpp", variant="asan", cases=1600, thorough=50000)],
  "one evaluation = one multi-threaded run (2-6 threads, hundreds to thousands of allocations each) with every block patterned by its owner and checked at free and at barriers, and block conservation at the end; non-trivial = distinct run (history and preemption count)",
  "concurrent ownership monitor with forced preemption + ASan", MTNOTE, min_events={"forced_preemptions": 10000, "concurrent_allocs": 1000000, "blocks_conserved": 1000})

P("P12", "Concurrent queues deliver every element exactly once, in order",
  "Whatever the interleaving of producers and consumers, every element pushed into the single-producer or the multi-producer queue is popped exactly once or still in the queue at the end, with its contents intact, and an element whose push finished before another's began is never popped after it. "
  "With a single consumer a pop only reports an empty queue if every push that had finished was already popped; length and emptiness are exact when the queue is at rest; the single-producer queue has no data races; elements are destroyed exactly once.",
  ["schedules", "histories"], "all interleavings of producers and consumers",
  "Loss, duplication and reordering depend on the schedule; the tests cannot observe ordering across threads.",
  [INC + "LocklessQueue.h", INC + "BlockAllocMT.h"], [("published tail pointer", INC + "LocklessQueue.h"), ("two micro locks", INC + "LocklessQueue.h")],
  [dict(MT, src="p12_lfqueue.cpp", variant="opt", cases=3000, thorough=80000),
   dict(MT, src="p12_lfqueue.cpp", variant="asan", cases=2000, thorough=50000),
   dict(MT, src="p12_lfqueue.cpp", variant="rel", cases=2000, thorough=50000),
   dict(MT, src="p12_lfqueue.cpp", variant="tsan", cases=600, thorough=20000, defs=["-DONLY_SPSC"])],
  "one evaluation = one multi-threaded run whose recorded push/pop intervals are checked for loss, duplication and real-time order; non-trivial = distinct run",
  "history recording + offline FIFO/exactly-once checker with forced preemption + ThreadSanitizer + ASan", MTNOTE, min_events={"forced_preemptions": 10000, "history_events_judged": 1000000})

P("P13", "The readers-writer lock excludes, shares and upgrades as documented",
  "For every schedule, a thread that acquired the write lock by any of the acquiring calls (plain, attempted, strict, upgraded) is alone: no other writer and no reader holds the lock, so plain data it protects is never seen half written and no update is lost; readers share the lock with each other. "
  "Attempted calls fail only when documented, a failed upgrade keeps the read lock, an attempted upgrade lets no other writer in between, a downgrade keeps the read lock without a gap, no mix of these calls deadlocks, and the lock is free once everyone released it.",
  ["schedules", "histories"], "all interleavings of lock, attempt, upgrade, downgrade and release calls by any number of threads",
  "Lock errors need two threads inside windows of a few instructions.",
  [INC + "RWLock.h", INC + "lockless.h"], [("writer bit plus reader count in one word", INC + "RWLock.h"), ("atomic bit test and set", INC + "lockless.h")],
  [dict(MT, src="p13_rwlock.cpp", variant="opt", cases=3500, thorough=200000),
   dict(MT, src="p13_rwlock.cpp", variant="rel", cases=3500, thorough=200000),
   dict(MT, src="p13_rwlock.cpp", variant="asan", cases=1200, thorough=50000)],
  "one evaluation = one multi-threaded run with exclusion counters, torn-read and lost-update detection on plain data, or one single-threaded state-machine history; non-trivial = distinct run",
  "online mutual-exclusion monitor with forced preemption", MTNOTE, min_events={"forced_preemptions": 10000, "Upgrade": 1000, "AttemptUpgrade": 1000, "AttemptUpgrade_refused": 100})

P("P14", "The thread pool runs every task exactly once and waiting really waits",
  "Every task given to a thread pool, from any thread including the pool's own, runs exactly once per requested instance with the arguments it was given; when waiting returns, or the pool is destroyed, every task added before (and every task those added) has finished and its effects are visible. "
  "A semaphore lets through exactly as many waits as it was notified; a timed join gives up no earlier than its timeout while the thread runs, reports the end of the thread otherwise, and leaves the thread joinable exactly when it has not ended.",
  ["schedules", "histories"], "all schedules of producers, workers and waiters, task trees and pool sizes",
  "Lost wake-ups, early returns and double executions depend on the schedule.",
  [INC + "ThreadPool.h", INC + "Thread.h", INC + "Delegate.h", INC + "RingAlloc.h", INC + "LocklessQueue.h"], [("task counter and semaphore", INC + "ThreadPool.h"), ("stored calls", INC + "Delegate.h"), ("timed join", INC + "Thread.h")],
  [dict(MT, src="p14_pool.cpp", variant="opt", cases=800, thorough=30000),
   dict(MT, src="p14_pool.cpp", variant="rel", cases=800, thorough=30000),
   dict(MT, src="p14_pool.cpp", variant="asan", cases=800, thorough=20000)],
  "one evaluation = one pool with several rounds of task trees, or one semaphore and timed-join run; every task slot is checked for exactly one execution after each wait; non-trivial = distinct run",
  "exactly-once runtime monitor with forced preemption + ASan", MTNOTE, min_events={"tasks_judged": 100000, "timed_joins": 20})

P("P15", "Atomic primitives are atomic, exact and touch only their operand",
  "For every width they accept and every value, the atomic add, exchange, compare-and-swap (with and without result) and bit test-and-set/reset return and store exactly what the corresponding plain operation would, change no neighbouring byte, and lose no update when many threads apply them to the same word at once.",
  ["inputs", "schedules"], "all operand values, widths, bit positions and interleavings",
  "A wrong operand width or a lost lock prefix only shows with particular neighbours or contention.",
  [INC + "lockless.h"], [("inline assembly and compiler intrinsics per width", INC + "lockless.h")],
  [{"src": "p15_atomics.cpp", "variant": "asan", "cases": 8000, "thorough": 200000},
   dict(MT, src="p15_atomics.cpp", variant="opt", cases=3000, thorough=60000),
   dict(MT, src="p15_atomics.cpp", variant="rel", cases=3000, thorough=60000)],
  "one evaluation = one history of operations on guarded cells against plain arithmetic, or one contended multi-threaded run with conservation checks; non-trivial = distinct history",
  "differential runtime monitor + contention stress with conservation checks + ASan/UBSan", MTNOTE)

P("P16", "Text survives encoding conversion and strings do exactly what they promise",
  "For every Unicode text, converting between UTF-8, UTF-16, UTF-32 and wide strings in any direction, whole or by counted length, gives the same code points, reports the length needed, writes no more than the given room and reads no more than the given source; malformed input never reads or writes outside the buffers. "
  "String objects build, copy, move, append, format, compare, trim, replace and split text exactly as the equivalent plain operations on the same characters would, and leave text outside ASCII alone.",
  ["inputs", "histories"], "all texts over all planes, all malformed byte sequences, all lengths and buffer sizes; all operation histories on strings",
  "The tests convert a few fixed strings that fit their buffers; truncated buffers, counted lengths, surrogates and malformed sequences are not sampled.",
  [INC + "Str.h", INC + "utf_conv.h", "bss-util/ConvertUTF.c", "bss-util/bss_util_c.c"], [("conversion routines", "bss-util/ConvertUTF.c"), ("string class and conversions between string types", INC + "Str.h")],
  [{"src": "p16_text.cpp", "variant": "asan", "cases": 400000, "thorough": 2000000, "lib": LIBC}],
  "one evaluation = one random text converted through every pair of encodings with exact-size guarded buffers, or one history of string operations against a reference string; non-trivial = distinct text or history",
  "differential runtime monitor + ASan/UBSan", SEQNOTE)

P("P17", "Arithmetic helpers return the exact result for every value",
  "For every operand the number helpers return the mathematically right result without undefined behaviour: bit counts, logarithms and highest/lowest bits, bit limits and masks, powers of two, sign and absolute value, float comparison and its exact limits, fast integer square roots, rounding, modulo and distance, angle and interval helpers, checked shifts and rotations, wide multiplication, running averages and variance, binary search bounds, breadth-first tree visits, permutation and uniqueness helpers.",
  ["inputs"], "all operand values and widths, including the extreme ones",
  "Tests sample a few ordinary operands; errors sit at the extremes of each width.",
  [INC + "bss_util.h", INC + "algo.h", INC + "defines.h"], [("bit and integer helpers", INC + "bss_util.h"), ("search and sort helpers", INC + "algo.h")],
  [{"src": "p17_math.cpp", "variant": "asan", "cases": 2000000, "thorough": 10000000},
   {"src": "p17_math.cpp", "variant": "opt", "cases": 2000000, "thorough": 10000000}],
  "one evaluation = one batch of calls with random and extreme operands, each compared with an independent wide-integer or long-double computation; non-trivial = distinct batch",
  "differential runtime monitor + UBSan/ASan", SEQNOTE)

P("P18", "Byte and text helpers are exact and stay inside their buffers",
  "For every input, base64 encoding and decoding are inverse and match the standard encoding, integer-to-text conversion is exact for every base and buffer size, code points are written as the right UTF-8, the FNV hashes match their definition, trimming, counting, replacing and byte searching give what the plain definition gives, byte order flips are exact, a command line splits into the arguments it contains and reaches the callbacks grouped as documented, safe formatting substitutes each argument once, a loaded file has exactly the bytes of the file, the size of a file is the one it has (and none for what is not a file), and the path of a font is the complete path of the one the system chooses for that family, weight and slant; "
  "malformed or truncated input never makes them read or write outside their buffers.",
  ["inputs"], "all byte strings, lengths, bases, buffer sizes and argument vectors",
  "Tests sample short well-formed inputs in large buffers.",
  [INC + "bss_util.h", INC + "bss_util_c.h", "bss-util/bss_util_c.c", "bss-util/bss_util.cpp", INC + "os.h", INC + "Str.h"], [("file sizes and font paths", "bss-util/bss_util.cpp"), ("base64, itoa, command line", "bss-util/bss_util_c.c"), ("text helpers", INC + "bss_util.h")],
  [{"src": "p18_bytes.cpp", "variant": "asan", "cases": 100000, "thorough": 600000, "lib": LIBC},
   {"src": "p18_system.cpp", "variant": "asan", "cases": 3000, "thorough": 60000, "lib": LIB}],
  "one evaluation = one random input given to one family of helpers in exact-size guarded buffers, compared with an independent implementation; non-trivial = distinct input",
  "differential runtime monitor + ASan/UBSan", SEQNOTE)

P("P19", "JSON is read and written as the format says, without loss",
  "Every JSON text, however it is spaced and escaped, is read as the value it denotes: strings with all escapes and surrogate pairs, integers, numbers with fractions and exponents, true, false, null, nested arrays and objects with their members in order. Every value, with or without a declared structure, is written as standard JSON denoting that value and reads back identical, to the last bit for numbers. "
  "When reading into a structure, members may come in any order, unknown members and surplus or mistyped elements are skipped without disturbing the others; no text whatsoever makes the reader crash, hang or leave its buffers.",
  ["inputs"], "all JSON texts and values, all structures built from the supported types, all malformed texts",
  "Tests read one fixed document and its truncations.",
  [INC + "JSON.h", INC + "Serializer.h", INC + "Variant.h", INC + "Trie.h"], [("reader and writer", INC + "JSON.h"), ("type dispatch", INC + "Serializer.h")],
  [{"src": "p19_json.cpp", "variant": "asan", "cases": 180000, "thorough": 900000, "lib": LIB},
   {"src": "p19_json.cpp", "variant": "rel", "cases": 180000, "thorough": 900000, "lib": LIB}],
  "one evaluation = one random value or record emitted by an independent generator, read by the library, written by the library, judged by an independent strict parser and read back; or one mutated text; non-trivial = distinct text",
  "differential runtime monitor (independent JSON generator and strict parser) + ASan/UBSan", SEQNOTE)

P("P20", "Variants, owning pointers, references and delegates own exactly what they say",
  "Over every history of construction, copying, moving, assignment and self-assignment, a variant holds exactly the alternative and value last put into it, properly aligned, and constructs and destroys each value exactly once; an owning pointer deletes what it owns exactly once and never what it only refers to, and ownership follows moves; "
  "a reference-counted object lives exactly as long as something refers to it, also when letting go of one reference ends others; a delegate calls what it was made from exactly once per call with the arguments given, and deferred calls run once, at the end of their scope, in reverse order; a singleton's instance follows the object it was moved to.",
  ["histories"], "all histories of operations over several objects of each kind, all alternative types",
  "Tests exercise one history per class; double deletions and leaks need particular orders.",
  [INC + "Variant.h", INC + "SmartPtr.h", INC + "RefCounter.h", INC + "Delegate.h", INC + "Singleton.h"], [("tagged storage", INC + "Variant.h"), ("owner flag", INC + "SmartPtr.h"), ("reference count", INC + "RefCounter.h"), ("call stubs", INC + "Delegate.h")],
  [{"src": "p20_owner.cpp", "variant": "asan", "cases": 480000, "thorough": 2400000},
   {"src": "p20_owner.cpp", "variant": "rel", "cases": 480000, "thorough": 2400000}],
  "one evaluation = one random history over several objects compared after every step with a reference model of ownership and values, with lifetime-tracked payloads; non-trivial = distinct history",
  "reference-model runtime monitor with lifetime-tracked objects + ASan/UBSan", SEQNOTE)

P("P21", "XML documents are read, edited and written without loss",
  "Every XML document made of elements, double-quoted attributes, text, entities, character references and comments is read as the tree it denotes, with each value's number (decimal, hexadecimal, binary, true) as its text says. Every history of adding, replacing and removing nodes and attributes, of copying and moving documents, leaves the nodes and attributes in order, findable by index and by name (the latest of a name first, and from there the earlier ones), independent of the documents they were copied from. "
  "Every tree is written as well-formed XML denoting it, special characters included, and reads back identical, numbers to the last bit; so does every structure serialised to XML. No malformed text makes the reader crash, hang or leave its buffers.",
  ["inputs", "histories"], "all document trees, spellings and edit histories, all malformed texts",
  "Tests read one fixed document and never edit, copy or round-trip arbitrary content.",
  [INC + "XML.h", "bss-util/XML.cpp", INC + "Serializer.h"], [("reader, writer, edits", "bss-util/XML.cpp"), ("structures", INC + "XML.h")],
  [{"src": "p21_xml.cpp", "variant": "asan", "cases": 60000, "thorough": 300000, "lib": ["XML.cpp"] + LIB},
   {"src": "p21_xml.cpp", "variant": "rel", "cases": 120000, "thorough": 1500000, "lib": ["XML.cpp"] + LIB}],
  "one evaluation = one random edit history judged against a reference tree after every step, or one generated document read, or one structure or tree written, judged by an independent strict reader and read back, or one mutated text; non-trivial = distinct history or text",
  "differential runtime monitor (reference tree, independent generator and strict reader) + ASan/UBSan", SEQNOTE)

P("P22", "INI files are read, edited and saved in step with memory",
  "Every INI file is read as the sections and entries it contains (names case-insensitive, repeated names kept in order as numbered instances, values with the numbers their text denotes, comments and other lines ignored, non-ASCII text intact). Over every history of adding, removing, editing, copying, moving, saving, discarding and reloading, each section and entry is found by name and instance, by iteration and by index alike, "
  "and the saved file holds exactly the same sections and entries in order, with the comments of lines that were not removed; an operation on something that is not there fails and changes nothing; nothing leaks, and no file makes the reader crash or leave its buffers.",
  ["inputs", "histories"], "all INI files with lines under the documented length, all edit histories over several storages",
  "Tests follow one edit script with one-letter names on one file.",
  [INC + "INIstorage.h", INC + "INIsection.h", INC + "INIentry.h", INC + "INIparse.h", "bss-util/INIstorage.cpp", "bss-util/INIsection.cpp", "bss-util/INIentry.cpp", "bss-util/INIParser.c"], [("file text and its index", "bss-util/INIstorage.cpp"), ("entries", "bss-util/INIsection.cpp"), ("line parser", "bss-util/INIParser.c")],
  [{"src": "p22_ini.cpp", "variant": "asan", "cases": 27000, "thorough": 300000, "lib": ["INIParser.c", "INIentry.cpp", "INIsection.cpp", "INIstorage.cpp"] + LIB},
   {"src": "p22_ini.cpp", "variant": "rel", "cases": 48000, "thorough": 600000, "lib": ["INIParser.c", "INIentry.cpp", "INIsection.cpp", "INIstorage.cpp"] + LIB}],
  "one evaluation = one random edit history over two storages, judged after every step against a model of the entries and, at each save and reload, against a line model of the file read by an independent parser; or one mutated file; non-trivial = distinct history",
  "reference-model runtime monitor (independent file parser, allocation balance) + ASan/UBSan", SEQNOTE)

P("P23", "UBJSON values and structures are read and written exactly",
  "Every value (null, booleans, integers of every width, floats, characters, strings with any bytes, big numbers, arrays and objects, nested) is read from each of its UBJSON encodings (plain, counted or typed containers, any length type, no-ops between values) as exactly that value, consuming exactly its bytes, survives copying and moving, and is written in valid UBJSON denoting it. "
  "Every structure built from numbers, booleans, strings, enums, arrays, vectors, tuples, variants and other structures reads back identical from what was written and from any re-encoding with members reordered, unknown members present and surplus elements in fixed-size arrays. No malformed input makes the reader crash, leak or leave its buffers.",
  ["inputs"], "all values, structures and encodings, and all malformed inputs with lengths below 64 KB",
  "Tests read one document of one structure.",
  [INC + "UBJSON.h", "bss-util/UBJSON.cpp", INC + "Serializer.h"], [("value reader", INC + "UBJSON.h"), ("value writer", "bss-util/UBJSON.cpp"), ("type dispatch", INC + "Serializer.h")],
  [{"src": "p23_ubjson.cpp", "variant": "asan", "cases": 200000, "thorough": 1000000, "lib": ["UBJSON.cpp"] + LIB},
   {"src": "p23_ubjson.cpp", "variant": "rel", "cases": 300000, "thorough": 1500000, "lib": ["UBJSON.cpp"] + LIB}],
  "one evaluation = one random value in a random encoding read, copied and written, judged by an independent decoder; or one random structure written, decoded independently, re-encoded and read back; or one mutated input; non-trivial = distinct input",
  "differential runtime monitor (independent UBJSON encoder and decoder, allocation balance) + ASan/UBSan", SEQNOTE)

P("P24", "Graphs, network flows and disjoint sets are exact",
  "For every history of adding, removing and moving nodes and edges, a graph holds exactly the nodes and edges added and not removed (self-loops and parallel edges included), from both ends of each edge, with their data, and converts to and from a matrix without loss. Breadth-first search visits every node reachable from its root once, in order of distance, and stops when told to. "
  "The flow solver terminates and assigns a valid flow of maximum value on every network; circulation problems with demands and lower bounds reduce to it without changing their solutions. "
  "A disjoint-set collection keeps every element in the set that its unions, additions, copies and moves put it in, and builds the spanning forest a greedy scan of the sorted edges would.",
  ["histories", "inputs"], "all edit histories over graphs with narrow and wide ids; all networks, capacities, demands and lower bounds whose totals fit; all union histories and edge lists",
  "Tests solve one network per algorithm with one expected answer; removed nodes, dead ends, parallel edges and cycles never occur in them.",
  [INC + "Graph.h", INC + "DisjointSet.h", INC + "LinkedArray.h", INC + "LLBase.h"], [("adjacency lists", INC + "Graph.h"), ("push-relabel flow", INC + "Graph.h"), ("breadth-first search", INC + "Graph.h"), ("union-find with path compression", INC + "DisjointSet.h")],
  [{"src": "p24_graph.cpp", "variant": "asan", "cases": 120000, "thorough": 1200000},
   {"src": "p24_graph.cpp", "variant": "rel", "cases": 200000, "thorough": 2000000}],
  "one evaluation = one random edit history against a model of nodes and edges, or one network solved and compared with an independent augmenting-path solver, or one search compared with distances, or one union history against naive labels; non-trivial = distinct history or network",
  "reference-model runtime monitor (independent flow solver, distance oracle, naive set labels) + ASan/UBSan", SEQNOTE)

P("P25", "KD-tree queries return exactly the overlapping items",
  "For every history of inserting, bulk loading, removing, rebalancing, clearing and moving, at any rebalancing threshold, a rectangle query on the KD-tree reports every item in the tree whose rectangle overlaps or touches the query exactly once, and no other; a full traversal reaches every item once; items that were removed are never touched again. "
  "Coincident and degenerate rectangles are treated like any other, and the tree never recurses without end.",
  ["histories", "inputs"], "all histories, item rectangles with finite coordinates (points, coincident items, shared edges), queries and thresholds",
  "Tests query one small tree that is never removed from after rebalancing.",
  [INC + "KDTree.h"], [("insertion and removal with rebalancing", INC + "KDTree.h"), ("bulk loading", INC + "KDTree.h"), ("rectangle traversal", INC + "KDTree.h")],
  [{"src": "p25_kdtree.cpp", "variant": "asan", "cases": 120000, "thorough": 600000},
   {"src": "p25_kdtree.cpp", "variant": "rel", "cases": 240000, "thorough": 1200000}],
  "one evaluation = one random history with several queries after every operation compared with a scan of the live items; non-trivial = distinct history",
  "reference-model runtime monitor (linear scan oracle) + ASan/UBSan", SEQNOTE)

P("P26", "Streams, string tables and logs deliver exactly the bytes written",
  "For every interleaving of reads, writes, put-backs and seeks, a stream over an array or growable array shows exactly the array's bytes (bytes above 127 included), a write extends the array by exactly what was written and loses nothing when the array grows, and a seek outside the array fails and changes nothing; a filtering stream buffer passes every byte through its filter once, whatever the buffer size. "
  "A splitter delivers to each target exactly the bytes written while it was registered, wide strings as UTF-8. A string table returns every string it was given by index after any appending, joining, copying, moving, dumping and reading back, even from a stream that ends early. "
  "A log writes each entry below its maximum level once to every target with the configured format, level names, trimmed file name and the local date and time, and gives assimilated streams their own buffer back when it is assigned to or destroyed.",
  ["histories", "inputs"], "all interleavings of stream operations, buffer sizes, element types, string contents, log configurations and moves",
  "The tests run one fixed script over each class with small ASCII data.",
  [INC + "stream.h", INC + "StringTable.h", INC + "Logger.h", "bss-util/Logger.cpp"],
  [("array, filtering and splitting stream buffers", INC + "stream.h"), ("string tables", INC + "StringTable.h"), ("log header, levels, targets and moves", "bss-util/Logger.cpp")],
  [{"src": "p26_stream.cpp", "variant": "asan", "cases": 240000, "thorough": 1200000, "lib": ["Logger.cpp"] + LIB},
   {"src": "p26_stream.cpp", "variant": "rel", "cases": 480000, "thorough": 2400000, "lib": ["Logger.cpp"] + LIB}],
  "one evaluation = one random history on one kind of stream, table or log, every delivered byte compared with a byte-vector model after each operation; non-trivial = distinct history of a writing stream, splitter, table or log",
  "reference-model runtime monitor (byte-exact delivery) + ASan/UBSan", SEQNOTE)

P("P27", "Timers, scheduled events and random selection behave as specified",
  "For every history of clock readings (also ones that step back), a timer's delta and total agree with the elapsed, warped or overridden time and never run backwards. A scheduler calls each event exactly once per due time, never early, earliest first, in the first update at or after its time; it calls it again only if it asked for a positive interval, and events may schedule others. "
  "An alias table draws every entry with the probability it was given, after any copying and moving. A random queue hands out every pushed item exactly once, each with equal chance, and destroys what it drops. Shuffling permutes uniformly, ranged random numbers stay in their half-open range, Poisson sampling keeps its points in the rectangle and at least the minimum distance apart, random subdivision tiles the rectangle, normal samples are normal, and the generators reproduce the published sequences for any seed, zero included.",
  ["histories", "inputs"], "all clock histories, event sets and return values, probability lists, queue histories, rectangles, distances and seeds",
  "Tests run one seed, one table and three events, and measure only coarse frequencies.",
  [INC + "HighPrecisionTimer.h", "bss-util/HighPrecisionTimer.cpp", INC + "Scheduler.h", INC + "AliasTable.h", INC + "RandomQueue.h", INC + "XorshiftEngine.h", INC + "algo.h"],
  [("timer update, warp and override", "bss-util/HighPrecisionTimer.cpp"), ("event dispatch and rescheduling", INC + "Scheduler.h"), ("alias method table", INC + "AliasTable.h"), ("random queue and Poisson sampling", INC + "RandomQueue.h"), ("generators", INC + "XorshiftEngine.h")],
  [{"src": "p27_random.cpp", "variant": "asan", "cases": 60000, "thorough": 2000000, "lib": ["HighPrecisionTimer.cpp"] + LIB},
   {"src": "p27_random.cpp", "variant": "rel", "cases": 120000, "thorough": 4000000, "lib": ["HighPrecisionTimer.cpp"] + LIB}],
  "one evaluation = one random history (clock readings, scheduled events, queue operations) or one table, sample set or distribution judged by its oracle; statistical oracles use bounds far beyond chance (below 1e-8 per case); non-trivial = distinct history",
  "reference-model and statistical runtime monitors under a controlled clock + ASan/UBSan", SEQNOTE)

P("P28", "Fractions, fixed point and dual numbers compute what they stand for",
  "For all operands whose results fit the underlying type, fractions are always in lowest terms with a positive denominator and every operation and comparison (with fractions and integers, on either side) is exact; fixed point sums, differences, remainders, comparisons and conversions are exact, and products, quotients, reciprocals, conversions to fewer bits and operations mixing formats or floating point are within a unit in the last place (64 bit quotients within what a 62 bit reciprocal allows). "
  "A dual number of any order carries exactly the derivatives of the expression it went through: sums, products, quotients, powers, exponentials, logarithms, sines, cosines, absolute values and operations with plain numbers.",
  ["inputs", "histories"], "all operands and operation sequences whose exact results fit, formats and storage types, expressions up to derivatives of order four",
  "Tests evaluate a handful of constants and one expression.",
  [INC + "Rational.h", INC + "FixedPt.h", INC + "Dual.h"], [("fraction arithmetic", INC + "Rational.h"), ("fixed point arithmetic and conversions", INC + "FixedPt.h"), ("derivative propagation", INC + "Dual.h")],
  [{"src": "p28_numbers.cpp", "variant": "asan", "flags": ["-fno-sanitize=shift"], "cases": 360000, "thorough": 3000000, "lib": LIBC},
   {"src": "p28_numbers.cpp", "variant": "rel", "cases": 960000, "thorough": 8000000, "lib": LIBC}],
  "one evaluation = one random sequence of fraction operations (against 128 bit fractions), twenty operand triples of a fixed point format pair (against exact values in extended precision) or one random expression differentiated (against truncated power series); non-trivial = distinct operands",
  "reference-model runtime monitor (exact arithmetic, power series) + ASan/UBSan", SEQNOTE)

P("P29", "Vectors, matrices and SIMD wrappers compute what component arithmetic says",
  "For every vector, matrix and scalar operand, the vector and matrix types yield exactly what computing component by component would: arithmetic, comparison, dot, cross and outer products, swizzles, matrix and matrix-vector products (also in place and with an operand used twice), transposes, determinants, identity and diagonal matrices, in every size and element type, whether or not a SIMD path serves it. "
  "Lengths, distances, normalised vectors, inverses, rotations, affine transforms, quaternion matrices and matrix splines are right to within rounding, inverting and multiplying in place included; each lane of a SIMD vector behaves as the scalar operation does.",
  ["inputs", "configurations"], "all component values (finite, without overflow), element types, dimensions and aliasing of operands and results",
  "Each operation has separate generic and SIMD code per size and type; tests try a few values of a few of them, and a wrong lane or sign shows only for particular components.",
  [INC + "vector.h", INC + "sseVec.h"], [("vector and matrix types and their operators", INC + "vector.h"), ("SSE lane operations", INC + "sseVec.h"), ("4x4 SSE inverse and determinant", INC + "vector.h")],
  [{"src": "p29_vector.cpp", "variant": v, "flags": ["-DPART=%d" % k], "cases": 400000, "thorough": 2000000} for v in ("asan", "rel") for k in range(3)],
  "one evaluation = random operands of one type and size put through every operation of that type and compared with scalar arithmetic; non-trivial = distinct operands",
  "differential runtime monitor (scalar reference arithmetic) + ASan/UBSan", SEQNOTE)

P("P30", "Shapes answer containment, collision and intersection queries correctly",
  "For all positions and sizes of circles, spheres of any dimension, lines, rays, segments, rectangles, triangles, ellipses, ring sectors and simple polygons, a containment or collision query is true exactly when the shapes as defined do contain or meet each other (rectangles half open for points and closed for rectangles, circles and segments, spheres open, lines against the outline of a circle, polygons against a sector by their outline), except within rounding of the boundary. "
  "Intersection points lie on both shapes and none is missing, nearest points and distances are the nearest ones (an ellipse's to within one percent of its size), areas, centroids, convexity and bounding boxes are those of the shape, rectangle arithmetic, union and intersection are exact, and copies and conversions between element types keep the shape.",
  ["inputs"], "all positions, sizes and orientations (parallel, axis aligned, touching, concentric, nested and disjoint ones included) in float, double and, for rectangles, int",
  "The repository's tests for these two headers are empty; each query has cases (horizontal line, angle that wraps, inner circle, reversed winding) that only particular positions reach.",
  [INC + "Geometry.h", INC + "Collision.h"], [("shape types and sector collisions", INC + "Geometry.h"), ("collision, intersection and nearest point functions", INC + "Collision.h")],
  [{"src": "p30_geometry.cpp", "variant": "asan", "cases": 120000, "thorough": 1500000},
   {"src": "p30_geometry.cpp", "variant": "rel", "cases": 480000, "thorough": 6000000}],
  "one evaluation = four random configurations of shapes put through every query of their kind, each answer compared with one worked out in extended precision from the definition of the shapes; answers within rounding of a boundary are counted apart and not judged; non-trivial = distinct configurations",
  "geometric-oracle runtime monitor (extended precision) + ASan/UBSan", SEQNOTE)
P("P31", "Animations make exactly the calls their keyframes and clock require",
  "For every set of keyframes, length and loop point and every sequence of time steps, time jumps, resets and destruction of any number of states, each discrete keyframe is delivered once, in order, when the clock reaches it and again only after a rewind or loop; each interval is added when the clock reaches it and removed exactly once, when it ends or when its state is rewound, looped or destroyed, those that end first being removed first; each smooth track sets the value its interpolation function gives for the keyframes around the clock. "
  "Stepping reports whether the animation is still playing and wraps into the loop. Tracks stay sorted by time, their ends and the length of the animation follow every addition, removal, replacement, copy and move.",
  ["inputs", "histories"], "all keyframe tracks, edits, easing curves, lengths, loop points and step sequences (with rewinds, jumps and overshoots of several loops)",
  "The test plays three fixed tracks at a few fixed times; overlapping intervals, equal times, loops from the middle, easing curves and edited tracks need many combinations.",
  [INC + "Animation.h"], [("tracks, animation length, states and easing", INC + "Animation.h")],
  [{"src": "p31_animation.cpp", "variant": "asan", "cases": 80000, "thorough": 600000},
   {"src": "p31_animation.cpp", "variant": "rel", "cases": 400000, "thorough": 4000000}],
  "one evaluation = a random animation of five tracks, edited and played in several rounds by up to three states; every call the animated objects receive is recorded and compared, in order, with the calls a model of the keyframes and the clock requires; non-trivial = distinct histories with more than four discrete or interval keyframes",
  "trace-specification runtime monitor (recorded call log against a playback model) + ASan/UBSan", SEQNOTE)
P("P32", "The library's own types come back from JSON and UBJSON as they were written",
  "For every content of the library's containers (plain, dynamic, sorted, circular and compact arrays, queues, stacks, random queues, heaps, priority queues, maps, hashes and sets, nested ones included), vectors, matrices, shapes, variants, animation tracks and animations, writing the object to JSON (compact or pretty) or UBJSON and reading the document into a fresh object gives an object that shows its user the same content in the same order, and takes up exactly its own part of the document.",
  ["inputs"], "all contents of all serializable types, as members of a larger structure, in both engines",
  "The tests serialize one structure made mostly of plain arrays; the serialization code of most containers is instantiated by no test.",
  [INC + "Serializer.h", INC + "JSON.h", INC + "UBJSON.h", INC + "ArrayCircular.h", INC + "ArraySort.h", INC + "Hash.h", INC + "Geometry.h"], [("type dispatch", INC + "Serializer.h"), ("engines", INC + "JSON.h"), ("engines", INC + "UBJSON.h"), ("per type serialization", INC + "DynArray.h")],
  [{"src": "p32_serialize.cpp", "variant": "asan", "flags": ["-fno-sanitize=null"], "cases": 120000, "thorough": 600000, "lib": ["UBJSON.cpp"] + LIB},
   {"src": "p32_serialize.cpp", "variant": "rel", "cases": 360000, "thorough": 2000000, "lib": ["UBJSON.cpp"] + LIB}],
  "one evaluation = a random content of one of about fifty types, written and read back through both engines between two other members; the contents before and after are rendered as their user sees them and compared; non-trivial = distinct contents",
  "round-trip runtime monitor + ASan/UBSan", SEQNOTE)

P("P33", "TOML documents are read as they are spelled, and structures come back unchanged",
  "For every structure of numbers, booleans, strings, dates (to the second), arrays (nested ones included), tuples, tables, maps and arrays of tables, writing it to TOML and reading the document into another object gives the same values to the last digit; every well-formed document that spells those values (tables and arrays of tables in any order, inline tables, quoted and bare keys, basic, literal and multi-line strings, dates with and without time, fraction or offset, comments and line breaks inside of arrays) is read into them, whatever keys and tables nobody asked for stand between them, and the generic TOML value holds the same tree; with assertions off, a truncated or damaged document is read without touching memory outside of the object.",
  ["inputs"], "all structures and all spellings of them in TOML 0.4 without underscores in numbers",
  "The tests read one document and write it back with its own short numbers.",
  [INC + "TOML.h", INC + "Serializer.h"], [("reading", INC + "TOML.h"), ("writing", INC + "TOML.h")],
  [{"src": "p33_toml.cpp", "variant": "asan", "flags": ["-fno-sanitize=null"], "cases": 20000, "thorough": 300000},
   {"src": "p33_toml.cpp", "variant": "asan", "flags": ["-fno-sanitize=null", "-DNDEBUG"], "cases": 20000, "thorough": 300000},
   {"src": "p33_toml.cpp", "variant": "rel", "cases": 120000, "thorough": 1500000}],
  "one evaluation = a random tree of values, either written and read back by the library, or spelled by an independent writer with random formatting and read into a structure and into a generic value; all are rendered and compared; non-trivial = distinct trees",
  "round-trip and differential runtime monitor + ASan/UBSan", SEQNOTE)

P("P34", "The profiler gives every zone its own calls, nesting and time",
  "However zones are entered, left and nested (recursively, through blocks, functions or begin/end pairs, however many zones there are), the tree report lists every distinct nesting of zones exactly once, indented by its depth, with the average time of the calls made in that nesting; the heat map lists the same, longest first, with the time that each zone spent outside of the zones inside it; the flat report gives every zone once, longest first, with its average over all nestings. "
  "Durations are those of the clock, in the right unit, and no zone's time or name is ever given to another.",
  ["histories", "inputs"], "all sequences of entering and leaving zones, numbers of zones, durations, and moments at which a report is asked for",
  "The test runs four zones and never reads the report that it writes.",
  [INC + "Profiler.h", "bss-util/profiler.cpp", INC + "HighPrecisionTimer.h"], [("recording", INC + "Profiler.h"), ("reports", "bss-util/profiler.cpp")],
  [{"src": "p34_profiler.cpp", "variant": "asan", "cases": 1500, "thorough": 60000, "lib": ["profiler.cpp", "HighPrecisionTimer.cpp"] + LIBC},
   {"src": "p34_profiler.cpp", "variant": "rel", "cases": 6000, "thorough": 300000, "lib": ["profiler.cpp", "HighPrecisionTimer.cpp"] + LIBC}],
  "one evaluation = one process that enters and leaves random zones under a clock the harness controls and compares every line of every report with the calls and durations it made; non-trivial = distinct histories with more than one nesting",
  "trace-based runtime monitor under a controlled clock + ASan/UBSan", SEQNOTE)
