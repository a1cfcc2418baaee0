#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: python3 tools/props.py rewrites it."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)
H = ["inputs", "histories"]

prop("C01", "devector behaves as a double-ended vector for every operation history",
 "After any history of operations a devector holds exactly the element sequence a reference vector holds after the same history, and size, emptiness, front/back, indexing, iteration in both directions, comparison and every returned iterator agree with it. This holds for relocatable and non-relocatable element types, for arguments that alias an element of the container itself, and for copy, move, swap, assign, resize and shrink operations at either end. Out of range positions passed to at() throw std::out_of_range and leave the container unchanged.",
 H + ["configurations"], "every finite sequence of public operations, every element type and allocator",
 "test_devector compares a handful of fixed sequences with std::deque; growth direction, slack left on each side and relocation path depend on the whole history",
 ["seq/devector.hpp", "seq/utils.hpp"], [("slack on both sides of one buffer, grow_front/grow_back, front or back biased growth", "devector.hpp"), ("relocation versus move/destroy", "devector.hpp move_destroy_input, relocate helpers")],
 ["public API return values", "full content after each step"])

prop("C02", "tiered_vector behaves as a random access sequence for every history",
 "After any history of operations a tiered_vector holds exactly the element sequence a reference deque holds after the same history, and size, indexing, front/back, iteration and every returned iterator agree with it. Its iterators obey the random access laws: begin()+i, end()-j, differences and ordering are consistent with positions, in both const and non-const and reverse form. The result never depends on bucket size limits, on find-insertion features, or on whether elements are relocatable.",
 H + ["configurations"], "every finite operation sequence, container sizes from 0 to many times the bucket size, every minimum/maximum bucket size, element type and allocator",
 "test_tiered_vector runs a few fixed sizes; bucket splits, merges, circular wrap-around and bucket size changes are reached only by particular sizes and positions",
 ["seq/tiered_vector.hpp"], [("array of circular buffers, all full but first and last", "tiered_vector.hpp CircularBuffer/BucketManager"), ("bucket size adaptation", "tiered_vector.hpp check_bucket_size / set_bucket_size")],
 ["public API return values", "full content after each step"])

prop("C03", "sequence behaves as an ordered stable list for every operation history",
 "After any history of push, emplace at either end, unordered insert, erase, resize, assign, copy, move, swap and sort operations, a sequence iterates exactly the elements a reference list holds after the same history, in the same order forwards and backwards; unordered insertion adds exactly one element somewhere. Iterator comparison and differences agree with iteration order, and size, front/back and returned iterators agree with the reference. shrink_to_fit and reserve never change the visible content.",
 H + ["configurations"], "every operation history, element type, layout manager and allocator",
 "test_sequence exercises one scripted scenario; chunk creation, free slot reuse and chunk recycling depend on the history of erases",
 ["seq/sequence.hpp"], [("chunks of 64 slots with a used-slot bitmask and a free list of chunks", "sequence.hpp Data/list_chunk"), ("sort by moving out to a compact order", "sequence.hpp sort/stable_sort")],
 ["public API return values", "full content after each step"])

prop("C04", "References and iterators documented as stable survive unrelated operations",
 "In sequence, ordered_set/ordered_map, every reference, pointer and iterator to an element keeps designating that same element, with the same value, until that element is erased or the container destroyed, whatever is inserted or erased around it, including rehash, reserve and container move or swap. In tiered_vector with equal minimum and maximum bucket sizes and in deque-like use of devector, push/pop operations keep those guarantees only where they are documented. Iterators of elements that were not erased still step to the correct neighbours.",
 ["histories"], "every history that keeps at least one element alive across insertions, erasures and rehashes",
 "tests check a few references across one insertion burst; stability can break only for particular chunk occupancies, growth points or hash layouts",
 ["seq/sequence.hpp", "seq/ordered_map.hpp"], [("node based chunks never move live elements", "sequence.hpp"), ("hash table stores iterators into the sequence", "ordered_map.hpp")],
 ["addresses of live elements", "iterators kept across operations"])

prop("C05", "flat sets and maps behave as sorted associative containers",
 "After any history, flat_set, flat_map, flat_multiset and flat_multimap contain what std::set, map, multiset and multimap contain after the same history, strictly ordered by the comparator, with equal keys kept in insertion order where the standard requires it. Every lookup (find, count, contains, lower_bound, upper_bound, equal_range, positional variants and heterogeneous keys), every returned iterator and insertion flag, range insertion, merge-like operations, extraction, erase_if, comparison and positional access (at_pos, rank based) agree with the reference. Inserting an already present key one by one never alters the stored element (range insertion into a non stable container may keep any of the equivalent elements).",
 H + ["configurations"], "every operation history, key type, comparator (including stateful and transparent ones) and range size relative to the existing content",
 "test_flat_map uses shuffled integer sets of one size; range insertion chooses between algorithms depending on sizes and on the sortedness of the input",
 ["seq/flat_map.hpp", "seq/internal/binary_search.hpp", "seq/tiered_vector.hpp", "seq/algorithm.hpp"], [("binary search over a tiered vector", "flat_map.hpp flat_tree, binary_search.hpp"), ("range insertion by sort and merge", "flat_map.hpp insert(first,last)")],
 ["public API return values", "full content after each step"])

prop("C06", "ordered_set/map is a correct hash container that preserves insertion order",
 "After any history, ordered_set and ordered_map contain exactly the distinct keys a std::unordered_set/map contains after the same history, with the same mapped values, for any hash function however bad and for transparent lookups. Iteration visits elements in insertion order, as modified by push_front/emplace_front, positional emplace hints, erase and sort. Handing out the underlying sequence, editing or sorting it and rehashing restores a fully consistent table (or rejects duplicates as documented).",
 H + ["configurations"], "every operation history, hash function quality (perfect, clustered, constant), load factor setting and key type",
 "test_ordered_map samples uniform and one weak hash; robin hood displacement, distance overflow and backward shift depend on exact collisions",
 ["seq/ordered_map.hpp", "seq/sequence.hpp", "seq/internal/hash_utils.hpp"], [("robin hood table of sequence iterators with 8 bit distance", "ordered_map.hpp SparseFlatNodeHashTable / node hash"), ("dirty flag and rehash on sequence() access", "ordered_map.hpp")],
 ["public API return values", "iteration order"])

prop("C07", "Container memory stays bounded by contents, whatever the hash or the history",
 "Memory held by a container is bounded by a modest constant factor of its largest recent content: steady-state insert/erase churn at constant size never grows it without bound, freed slots are reused, and clear, shrink_to_fit and destruction give memory back. A very bad hash function or adversarial keys make hash containers slower but never make their tables explode in memory. Incrementally growing tables (radix hash) and ordered tables never need a peak allocation larger than a small multiple of the table.",
 ["histories", "inputs", "configurations"], "every churn history, every hash function and key distribution",
 "tests never measure allocation; unbounded growth appears only after long churn or with pathological hashes",
 ["seq/sequence.hpp", "seq/ordered_map.hpp", "seq/internal/radix_tree.hpp", "seq/internal/concurrent_hash_table.hpp", "seq/tiered_vector.hpp", "seq/devector.hpp"], [("free slot lists and growth policies", "sequence.hpp, ordered_map.hpp, radix_tree.hpp"), ("bad-hash fallback instead of rehash", "ordered_map.hpp, radix_tree.hpp vector nodes")],
 ["bytes live and peak in a monitoring allocator"])

prop("C08", "radix_set/radix_map behave as sorted associative containers",
 "After any history, radix_set and radix_map contain exactly the keys and values std::set and std::map contain after the same history, iterate them in the same sorted order in both directions, and answer find, count, contains, lower_bound, upper_bound, equal_range and prefix queries identically. This holds for integers of every width and sign, floating point values, fixed and variable length strings (including empty strings, embedded zeros, bytes above 127 and long shared prefixes), wide strings, and tuples/pairs of these. Hinted insertion, erase by iterator and range, try_emplace, insert_or_assign, merge, copy and swap agree with the reference too.",
 H + ["configurations"], "every operation history and every key type and distribution supported",
 "test_radix_tree uses dense integers and random ascii strings; path compression, vector leaves and node splits depend on bit patterns shared between keys",
 ["seq/radix_map.hpp", "seq/internal/radix_tree.hpp"], [("variable arity radix tree with leaf nodes, directories and vector nodes", "radix_tree.hpp RadixTree"), ("order preserving key to bit-string mapping", "radix_tree.hpp radix keys / SortedHasher")],
 ["public API return values", "full iteration"])

prop("C09", "radix_hash_set/map behave as unordered associative containers",
 "After any history, radix_hash_set and radix_hash_map contain exactly the keys and values std::unordered_set and unordered_map contain after the same history, for any hash function including constant ones, and every lookup, insertion flag, returned iterator, erase and whole-container operation agrees. Iteration visits every element exactly once in both directions and erase(iterator) returns the next element of that traversal.",
 H + ["configurations"], "every operation history, hash function and key type",
 "test_radix_hash_map samples uniform hashes and a few weak ones at fixed sizes; leaf overflow, incremental rehash and directory merging depend on hash bits",
 ["seq/radix_hash_map.hpp", "seq/internal/radix_tree.hpp"], [("radix tree keyed on hash bits with incremental leaf rehash", "radix_tree.hpp")],
 ["public API return values", "full iteration"])

prop("C10", "concurrent_map operations are linearizable per key under any interleaving",
 "Under any number of threads, every history of insert, emplace, try_emplace, insert_or_assign, visit, cvisit, erase, erase_if, insert_or_visit, count, contains and find-like calls on a concurrent_map or set with a thread-safe concurrency level is, key by key, linearizable with respect to a sequential map. This remains true while the table is being rehashed, reserved, cleared in parts or grown by other threads, for good and bad hash functions and for every concurrency level. No acknowledged insertion is lost, no key appears twice and no visitor sees a partially built or destroyed element.",
 ["schedules", "histories", "configurations"], "all thread interleavings of all operation mixes, all concurrency levels including shared read locks",
 "test_concurrent_map runs random parallel inserts and counts the result at the end; it cannot see lost updates or stale reads in the middle and samples few interleavings",
 ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp", "seq/lock.hpp"], [("one spinlock per bucket, rehash holds all bucket locks until the new table is published", "concurrent_hash_table.hpp"), ("retry when the bucket array changed", "concurrent_hash_table.hpp")],
 ["call/return events at the client boundary"])

prop("C11", "concurrent_map and lock primitives are free of data races and deadlocks",
 "Concurrent use of any thread-safe operation of concurrent_map/set, including rehash, reserve, visit_all, size, clear, swap, merge and parallel traversal, has no data race and always makes progress: every operation returns once competing ones have finished. User callbacks given exclusive access to an element never run concurrently with another callback on that element, and callbacks given shared access never run concurrently with an exclusive one.",
 ["schedules", "configurations"], "all interleavings of all thread-safe operations at every thread-safe concurrency level",
 "races are invisible to functional tests on x86; the suite is not run under a race detector",
 ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp", "seq/lock.hpp"], [("bucket locks, lock array growth, atomic table pointers", "concurrent_hash_table.hpp"), ("spinlock/shared_spinner", "lock.hpp")],
 ["ThreadSanitizer reports", "per element occupancy counters inside callbacks"])

prop("C12", "concurrent_map conserves elements under concurrency",
 "After any concurrent history has quiesced, size() equals the number of elements visit_all reaches, which equals successful insertions minus successful removals; each element is visited exactly once by a quiescent traversal, and every key inserted and not removed is found by lookup. Each stored element is constructed once and destroyed once, and all memory is returned when the container dies. A traversal running concurrently never visits an element twice that was not removed and re-inserted, and always visits elements that stay present throughout.",
 ["schedules", "histories"], "all interleavings of insert/erase/visit/rehash/clear/merge/swap mixes followed by quiescence",
 "tests compare only the final size after insert-only or erase-only phases",
 ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp"], [("per shard size counters", "concurrent_hash_table.hpp"), ("chained nodes relocation at rehash", "concurrent_hash_table.hpp")],
 ["operation counters", "live element registry", "visit_all counts at quiescence"])

prop("C13", "concurrent_map follows the documented single-thread visit semantics",
 "Used from one thread (any concurrency level, including no_concurrency), every member of concurrent_map and concurrent_set behaves as the corresponding operation of an unordered map: visit/cvisit invoke the functor exactly on the matching element and return the number of visits, insert_or_visit and emplace_or_visit invoke it exactly when the key was present, erase_if removes exactly the elements selected, visit_all stops and returns false when its functor returns false. Construction, assignment, swap, merge, comparison, reserve, rehash, clear and heterogeneous lookups agree with the reference too. An exception thrown by a user functor, hash or constructor propagates, releases every lock and leaves the container consistent.",
 H + ["configurations", "fault_sequences"], "every single-threaded operation history, concurrency level, hash quality and throw point",
 "the member tests cover one scripted scenario per level and never throw from a functor",
 ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp"], [("visitor API over bucket nodes", "concurrent_map.hpp"), ("scoped bucket locks", "concurrent_hash_table.hpp")],
 ["public API return values", "functor invocations"])

prop("C14", "Containers construct and destroy every element exactly once and never leak",
 "For every container and history, each element constructed inside it is destroyed exactly once, no operation reads an element that is destroyed, moved-from or bitwise-duplicated, elements that are not declared relocatable are never moved by byte copy, and no operation accesses memory outside live allocations. All memory obtained from an allocator is returned to an equal allocator with the same size, and allocator propagation on copy, move and swap follows the allocator's declared traits. When the last container is destroyed nothing remains allocated.",
 H + ["configurations"], "every operation history on every container, every element category (trivial, relocatable, non-relocatable, move-only) and allocator category (propagating or not, equal or not)",
 "the destroy tests count live objects in a few histories; wrong-allocator frees, leaks and stale reads are silent without instrumentation",
 ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/radix_map.hpp", "seq/radix_hash_map.hpp", "seq/internal/radix_tree.hpp", "seq/internal/concurrent_hash_table.hpp", "seq/utils.hpp"], [("is_relocatable fast paths", "type_traits.hpp and containers"), ("allocator propagation helpers", "utils.hpp")],
 ["instrumented element registry", "instrumented allocator ledger", "AddressSanitizer"])

prop("C15", "Containers survive exceptions with the documented guarantee",
 "When an element constructor, copy, move, assignment, comparator, hash function or the allocator throws at any point during any container operation, the exception propagates, nothing leaks, no element is destroyed twice and the container stays valid: its invariants hold, it can be read, modified and destroyed. Operations documented with the strong guarantee (devector with nothrow-movable elements, sequence and ordered_set/map members, unless documented otherwise) additionally leave the content unchanged.",
 ["fault_sequences", "histories"], "every throw point of every operation in every reachable container state",
 "the existing tests never throw from an element or an allocator",
 ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/internal/radix_tree.hpp", "seq/internal/concurrent_hash_table.hpp"], [("try/catch clean-up and commit-last ordering", "all containers")],
 ["instrumented element registry", "allocator ledger", "content before and after the throw"])

prop("C16", "Containers of strings and other real types stay consistent",
 "Any container of the library holding the library's own strings, standard strings, smart pointers, type-erased values or nested containers gives the same results as the standard containers, including when elements own heap memory, are relocated by byte copy, or live in nested containers of the same kind. Keys looked up through views or literals find exactly the equal string key. No operation corrupts, duplicates or loses an element's owned memory.",
 H, "every operation history over containers of tstring, std::string, unique_ptr, hold_any and nested containers, with string lengths around and beyond the small buffer limits",
 "tests use mostly integers plus one string scenario; relocation of owning types is only exercised by chance",
 ["seq/tiny_string.hpp", "seq/any.hpp", "seq/devector.hpp", "seq/tiered_vector.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/internal/radix_tree.hpp"], [("is_relocatable specialisations", "type_traits.hpp, tiny_string.hpp, any.hpp")],
 ["public API return values", "AddressSanitizer", "heap balance"])

prop("C17", "Operations respect their documented complexity in counted steps",
 "The number of element moves, comparisons and hash evaluations performed by an operation stays within the complexity its documentation promises: tiered_vector middle insertion and erasure move O(sqrt(N)) elements, end operations on devector, tiered_vector and sequence are amortised constant, sorted lookups take O(log N) comparisons, hash lookups on good hashes take O(1) comparisons, and sorting takes O(N log N) comparisons, fewer on already sorted or reversed input. Bulk sorted insertion into flat containers takes near linear work.",
 ["inputs", "histories"], "every size and position within each operation's documented domain, counted by instrumented elements",
 "the tests only check results, and a silently quadratic path still yields right results",
 ["seq/tiered_vector.hpp", "seq/devector.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/internal/radix_tree.hpp", "seq/algorithm.hpp"], [("bucket size adaptation near sqrt(N)", "tiered_vector.hpp"), ("ping-pong natural merge sort", "algorithm.hpp net_sort")],
 ["counts of moves, comparisons and hashes"])

prop("C18", "tiny_string behaves as std::basic_string for every operation history",
 "For every character type and small-string capacity, a tiny_string subjected to any history of constructions, assignments, append, insert, erase, replace, resize, push/pop, substr, copy, swap, shrink and reserve operations, with any positions, counts and iterator ranges including aliasing its own content, holds the same characters as std::basic_string after the same history, is null terminated, and throws out_of_range or length_error in the same cases. All find, rfind and compare families and occurrence counts return the same results as the standard string or string_view for every needle and position. Character access, iterators, stream input/output and conversion to views agree too.",
 H + ["configurations"], "every operation history, string length around SSO boundaries and growth steps, embedded null characters, every char type and small buffer size",
 "test_tiny_string runs fixed literals and one random loop; SSO/heap transitions, aliasing and boundary positions are sampled thinly",
 ["seq/tiny_string.hpp"], [("small buffer or heap representation with tag bits", "tiny_string.hpp string_internal"), ("SIMD/word find kernels", "tiny_string.hpp")],
 ["content and return values after each operation"])

prop("C19", "String comparison and hashing is coherent across string types",
 "For any two strings, comparing tiny_string with tiny_string of another capacity, tstring_view, std::string, std::string_view or a C string gives the same total order as the comparison of std::basic_string with the same character traits, for all six operators and compare overloads. Equal strings of any of those types have equal hashes, so heterogeneous lookup through seq::hasher and transparent comparators finds them in every hash or sorted container. Comparison never reads beyond either string.",
 ["inputs", "configurations"], "every pair of strings, lengths, capacities and string types",
 "tests compare few literals; word-at-a-time comparisons can fail only at particular lengths or differing bytes",
 ["seq/tiny_string.hpp", "seq/hash.hpp", "seq/internal/hash_impl.hpp"], [("word based compare of small strings", "tiny_string.hpp"), ("string hash over (pointer,size)", "hash.hpp")],
 ["results of all operator combinations", "AddressSanitizer"])

prop("C20", "Integer text conversion round-trips and parses exactly in every base",
 "For every integer type, value and base from 2 to 36, to_chars writes exactly the digits std::to_chars writes and from_chars reads them back to the same value. On arbitrary text from_chars consumes exactly optional leading spaces, an optional sign ('-' for signed types only), an optional 0x in base 16 and then the longest run of digits of the base; too large values wrap modulo 2^n as documented (never undefined behaviour). Text without any digit is reported as invalid, with the input pointer unchanged and a null value. Minimum width, prefix and letter case options are honoured for every character type.",
 ["inputs"], "all integer values, bases and arbitrary input byte strings",
 "test_charconv samples random values in base 10; limits, other bases and malformed text are barely touched",
 ["seq/charconv.hpp"], [("digit-pair tables and unrolled parsing", "charconv.hpp")],
 ["value, pointer and error code versus std::"])

prop("C21", "Floating point parsing is accurate and consumes exactly the right text",
 "For every text, from_chars for float, double and long double consumes exactly optional leading spaces, a sign, digits with an optional dot (at least one digit overall) and, unless the format is fixed, a complete exponent (mandatory in scientific format), or nan or inf; a dangling exponent is not consumed. The value is within a few units in the last place (documented as inexact) of the correctly rounded one, including signed zero, subnormals, arbitrarily long digit strings and exponents; too large values give infinity and too small ones zero, without error. Malformed text is rejected with the input position unchanged.",
 ["inputs"], "every byte string and every finite double or float",
 "test_charconv samples random doubles of common magnitude",
 ["seq/charconv.hpp"], [("mantissa accumulation with power-of-ten tables", "charconv.hpp from_chars")],
 ["value, pointer and error code versus std::"])

prop("C22", "Floating point formatting agrees with printf in every mode and precision",
 "For every finite value, format (fixed, scientific, general), precision, decimal separator and exponent character, to_chars produces the printf text without trailing zeros: same layout (in particular the same choice between fixed and scientific in general format, also when rounding reaches a power of ten), one to the requested number of digits, and a decimal value within half a unit of the last requested digit, plus the documented floating point inexactitude beyond 12 digits. Output with enough digits parses back to the same value within that accuracy. Infinities, NaN, zeros and negative zero are written as documented.",
 ["inputs"], "every finite value, format and precision in the documented domain",
 "test_charconv samples random values at a few precisions",
 ["seq/charconv.hpp"], [("Grisu-like / table based digit generation with rounding", "charconv.hpp")],
 ["text versus printf, parsed back value"])

prop("C23", "Bounded-buffer writes never overrun and report truncation",
 "Writing any number with any format into a caller-supplied buffer of any size never writes outside [first,last); when the text does not fit the call reports value_too_large (or the documented required size) and when it fits the text and end pointer equal those obtained with an ample buffer. The same holds for formatting any format object, list of values or nested formatter into a fixed buffer.",
 ["inputs"], "every value, format, precision, width and every buffer length from zero to ample",
 "tests always pass ample buffers",
 ["seq/charconv.hpp", "seq/format.hpp"], [("range checks per written piece", "charconv.hpp"), ("fixed buffer output of formatters", "format.hpp to_chars")],
 ["canary bytes and AddressSanitizer around exact-size buffers"])

prop("C24", "Text stream readers extract the same tokens as the C++ streams",
 "Reading numbers, words, lines and characters through the library's buffer, file and std::istream adapters yields the same sequence of values and the same end/error state as std::istream extraction over the same bytes, wherever chunk boundaries fall. Seeking, peeking and backing up keep position and content consistent, and reads never touch bytes outside the supplied buffer. Failed reads leave the documented state.",
 ["inputs", "histories"], "every byte stream, token mix, chunk size and seek/back sequence",
 "test_charconv reads one well formed stream",
 ["seq/charconv.hpp"], [("stream buffer adapters with refill", "charconv.hpp istream readers")],
 ["values and states versus std::istream"])

prop("C25", "Formatted output equals the specified rendering for every format object",
 "For every value and combination of base, sign, hexadecimal prefix, case, floating point format, precision, decimal separator, width, fill character and alignment, the text of a format object equals an independently computed rendering: the digits printf would give (within the precision documented for to_chars), padded to the exact width with the fill character; numbers are never truncated while strings, nested and composed formats wider than their width are cut on the side opposite to their alignment. Composed formats (several values, joined values or ranges, nested formats, streamable custom types and types with their own ostream_format) equal the concatenation of their parts. The same text comes out of str(), conversions, append, streams, bounded or exact buffers and output iterators, for narrow and wide strings. split() yields exactly the pieces between separators that its skip behaviour keeps, and replace() substitutes every occurrence and nothing else.",
 ["inputs", "configurations"], "every value, option combination and nesting of formatters",
 "test_format prints a set of fixed examples",
 ["seq/format.hpp", "seq/charconv.hpp"], [("ostream_format with per type formatter", "format.hpp"), ("alignment after formatting", "format.hpp width_fmt")],
 ["text versus an independent renderer"])

prop("C26", "Format functors are reusable, positional and safe across threads",
 "A format functor can be called any number of times with all its slots, its positional arguments, chosen positions, null placeholders, values, or other format objects, and each text shows exactly the current slot values and options: those last given, unless replaced. Copies capture the current values and later changes of one copy never show up in the other. Dynamically typed slots render each value as its own type would. Using the format module from within the stream operator or formatter of a formatted type gives the same text as in isolation. Threads that use their own copies, or that write the same unchanging format object, get the text a single thread would get, without data race.",
 ["histories", "schedules"], "every call history, slot subset, nesting depth and thread interleaving",
 "tests call each functor once or twice in a single thread",
 ["seq/format.hpp"], [("slots, references and thread local buffers", "format.hpp")],
 ["text of each call", "ThreadSanitizer"])

prop("C27", "hold_any has value semantics for every held type and history",
 "A hold_any (any, r_any, nh_any and small-buffer variants) holding any supported object yields, after any history of construct, assign, copy, move, swap, emplace and reset, exactly the value last stored with its exact type; copies are independent, moved-from objects are valid, self assignment is harmless, and each held object is destroyed exactly once. This holds for objects inside and beyond the small buffer, relocatable or not, throwing or not, move-only, over-aligned, pointers, non assignable or not default constructible, and objects containing other hold_any. An exception thrown by the held type leaves every hold_any valid. The held object is aligned as its type requires and never byte-moved unless its type is relocatable. Casting to the held type succeeds, and to a wrong unconvertible type throws std::bad_cast.",
 H + ["configurations"], "every history and held type, buffer size and alignment",
 "test_any uses a few types in straight-line code",
 ["seq/any.hpp"], [("small buffer with type pointer and tag bits", "any.hpp hold_any"), ("type_info based virtual table", "any.hpp any_type_info")],
 ["held value and type after each operation", "object registry"])

prop("C28", "hold_any comparison, hashing, casting and streaming are coherent",
 "Equality of two hold_any is symmetric, agrees with equality of the held values when the types are the same or comparable as documented, ordering is a strict weak ordering consistent with equality over values whose types are mutually comparable, and equal objects have equal hashes, also against bare values, so that sorted and hash containers of hold_any, including heterogeneous lookup, behave correctly (two character pointers of the same type compare as pointers, as documented). Registered comparisons and conversions apply in the direction they were registered for. Conversions between arithmetic and string types give the converted value or throw std::bad_cast. Operations not supported by the held type throw std::bad_function_call, and streaming or formatting writes and reads the held value.",
 ["inputs", "configurations"], "every pair of held values and types, registered comparisons and conversions",
 "test_any checks a few pairs",
 ["seq/any.hpp", "seq/hash.hpp"], [("registered comparison/conversion tables", "any.hpp"), ("hash of the held value", "any.hpp")],
 ["results over all pairs of a value pool"])

prop("C29", "Hash functions are deterministic, equality-compatible and read in bounds",
 "seq::hasher gives the same value for the same value every time, in every thread and whatever the alignment or surrounding bytes, gives equal hashes to values that compare equal across all supported types (string flavours, pairs, tuples, smart pointers, containers, enums, floats including signed zero where they compare equal), and reads only the bytes of its argument. Every byte, the length, and the order of the members of a pair or tuple count. Consecutive or power-of-two spaced integers, floating point values, aligned pointers, numbered or nearly equal strings, and grids of pairs and tuples get distinct hashes spread without gross clustering over the buckets taken from either the high or low bits, as the hash tables do.",
 ["inputs", "configurations"], "every value of every supported type, every length and alignment",
 "no existing test checks hashing directly",
 ["seq/hash.hpp", "seq/internal/hash_impl.hpp"], [("komihash-like string hash and integer mixers", "hash_impl.hpp"), ("tuple and container hash combination", "hash.hpp")],
 ["hash values", "AddressSanitizer on exact-size buffers"])

prop("C30", "Bit-level helpers equal their naive definitions on every input",
 "Every bit utility (popcount, scans, nth bit set, leading/trailing zeros, bit and byte reversal, digit counts, runs of set bits, unaligned reads and writes of any width and byte order, 128-bit multiplication, tagged pointers, aligned allocation, static size and power of two helpers) equals its naive loop definition for every input on which it is defined, whatever instruction set the code was compiled for, and reads or writes exactly the bytes it names.",
 ["inputs", "configurations"], "all inputs, with and without the CPU-specific instruction paths",
 "no existing test covers bits.hpp directly",
 ["seq/bits.hpp", "seq/internal/simd.hpp", "seq/tagged_pointer.hpp"], [("intrinsics with portable fallback", "bits.hpp"), ("tagged pointers in alignment bits", "tagged_pointer.hpp")],
 ["results versus naive definitions"])

prop("C31", "net_sort is a correct stable sort on every input and iterator kind",
 "For every input range, comparator and element type, net_sort, net_sort_size and their buffered variants leave the range equal to the result of std::stable_sort with the same comparator: sorted, a permutation of the input and stable, for random access and bidirectional iterators (also reversed), with any buffer, including user supplied ones and null_buffer, with which nothing is allocated. If the comparator or a move throws midway, the exception propagates, nothing leaks and every element of the range remains a valid object. The sort performs no access outside the range.",
 ["inputs", "configurations", "fault_sequences"], "every input permutation with duplicates, length, iterator category, buffer size and throw point",
 "test_algorithm sorts a few random and patterned arrays",
 ["seq/algorithm.hpp"], [("natural run detection with buffered merges", "algorithm.hpp net_sort")],
 ["result versus std::stable_sort"])

prop("C32", "merge, inplace_merge, unique and reverse algorithms meet their contracts",
 "For every pair of sorted ranges, buffer size and comparator, seq::merge and seq::inplace_merge produce the stable merge that std::merge produces, reading and writing only the given ranges and buffer. seq::unique keeps exactly the first element of every class of equal elements over the whole (possibly unsorted) range in original order, with or without a supplied hash and equality, and reverse_descending reverses a range sorted in descending order while keeping equal elements in their original order. merge accepts any input ranges and output iterators. Returned iterators designate the documented end position.",
 ["inputs", "configurations"], "every pair of sorted ranges, every multiset of values, iterator category and buffer size",
 "test_algorithm covers few shapes",
 ["seq/algorithm.hpp"], [("run based merges and buffers", "algorithm.hpp merge/inplace_merge"), ("hash based unique", "algorithm.hpp unique")],
 ["result versus std:: algorithms"])

prop("C33", "Spinlocks give mutual exclusion, shared access and correct try semantics",
 "At any time at most one thread holds a spinlock or a shared lock exclusively, and never together with a shared holder; any number of shared holders may coexist. try_lock and try_lock_shared never block, succeed on a free lock, fail when the lock is held incompatibly, and a failed try leaves no trace; an unlocked lock can always be acquired again. Everything written before unlock is visible after the next lock, for every lock type and word size (shared locks over small words exclude further readers rather than overflow their counter). Timed tries give up only after their delay.",
 ["schedules", "configurations"], "all interleavings of lock, try_lock, unlock and their shared forms over any number of threads",
 "locks are only used indirectly through concurrent_map tests",
 ["seq/lock.hpp"], [("atomic state with reader count", "lock.hpp shared_spinner"), ("test-and-test-and-set", "lock.hpp spinlock")],
 ["occupancy counters inside critical sections", "ThreadSanitizer"])

prop("C34", "Const operations on every container are safe from several threads",
 "Any number of threads may call const members (lookups, iteration, size, comparison, copy construction, hashing, const formatting) of the same container, string, type-erased value or formatter concurrently without a data race and with the results each would get alone. Distinct objects may be used, created, modified and destroyed by distinct threads freely, including ones that share internal static tables or thread-local buffers.",
 ["schedules"], "all interleavings of const calls on one object and of arbitrary calls on distinct objects",
 "every container test is single-threaded",
 ["seq/tiered_vector.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/internal/radix_tree.hpp", "seq/any.hpp", "seq/format.hpp", "seq/tiny_string.hpp", "seq/hash.hpp", "seq/charconv.hpp"], [("no mutable state in const members; static tables and thread_local buffers", "all headers")],
 ["ThreadSanitizer", "results versus single-thread results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
