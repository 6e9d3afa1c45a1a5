#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source for the property texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

H = "histories"; I = "inputs"; C = "configurations"; F = "fault_sequences"; S = "schedules"
why_h = "The unit tests replay a few fixed operation histories (mostly bulk fills of one shape, compared with std); the guarantee is over every operation, position, size and value combination. "

p("C01", "devector behaves like a deque for every operation history",
  "For every history of public operations (push, pop, emplace, insert or erase at any position or range, resize, reserve, shrink, assign, copy, move, swap) a devector holds exactly the sequence of values the same history leaves in a reference deque. The size, emptiness, every indexed element, data() contiguity and the returned iterators agree after every step, and no operation touches memory outside its buffer.",
  [H, I, C], "every history of operations, position, count and element value, for trivially relocatable and non-trivial element types and each growth strategy",
  why_h + "Free space at front and back, growth direction and shift direction depend on the whole history.",
  ["seq/devector.hpp"], [("front/back slack management and growth", "seq/devector.hpp"), ("insert/erase shifting the shorter side", "seq/devector.hpp")],
  [("start/end of the element range", "used part of the buffer", "seq/devector.hpp")], ["size()", "operator[]", "data()", "begin()/end()", "returned iterators"])
p("C02", "tiered_vector behaves like a deque for every operation history",
  "For every history of public operations (push and pop at both ends, insert and erase of one element or a range at any position, resize, assign, copy, move, swap) a tiered_vector holds exactly the sequence of values the same history leaves in a reference deque. Indexed access, iterator traversal in both directions, iterator arithmetic and returned iterators agree after every step, for every bucket size the container selects.",
  [H, I, C], "every history of operations, position, count and value; every bucket-size configuration",
  why_h + "The circular buffers wrap at positions that depend on history and the bucket size changes with the size.",
  ["seq/tiered_vector.hpp"], [("circular buckets with push/pop cascades", "seq/tiered_vector.hpp"), ("bucket size adaptation", "seq/tiered_vector.hpp")],
  [("bucket begin/size", "position and fill of each circular bucket", "seq/tiered_vector.hpp")], ["size()", "operator[]", "iterators"])
p("C03", "sequence keeps order and never moves its elements",
  "For every history of push, pop, emplace, insert, erase, resize, sort, splice-like, copy, move, swap and shrink operations a sequence iterates over exactly the values a reference list holds, forwards and backwards. Iterators and references to elements that were not erased keep designating the same element whatever is inserted or erased around them, and erased slots may be reused without disturbing the order.",
  [H, I, C], "every history of operations and positions, both layout-management policies",
  why_h + "Slot reuse depends on the pattern of erased positions inside 64-slot chunks.",
  ["seq/sequence.hpp"], [("chunks of 64 slots with an occupancy mask and linked order", "seq/sequence.hpp"), ("layout manager choosing chunks with free slots", "seq/sequence.hpp")],
  [("used mask", "which slots of a chunk hold live objects", "seq/sequence.hpp")], ["iteration order", "element addresses", "size()"])
p("C04", "flat_set and flat_map stay sorted and unique like std::set/std::map",
  "For every history of insertions (single, hinted, range), erasures (key, position, range, predicate), merges, copies and moves, a flat_set or flat_map contains exactly the keys (and mapped values) a std::set or std::map would, in the comparator's order and without duplicates. Lookups (find, count, contains, lower_bound, upper_bound, equal_range, at, operator[], positional access) and the success flags and iterators returned by modifiers agree with the reference for every probe key.",
  [H, I], "every history, every key value and probe, every valid strict weak order used",
  why_h + "Hint validity, range-insert merge paths and key relations (equal, adjacent, extreme) are the interesting cases.",
  ["seq/flat_map.hpp", "seq/internal/binary_search.hpp"], [("sorted tiered_vector plus binary search", "seq/flat_map.hpp"), ("range insertion: sort tail, merge, unique", "seq/flat_map.hpp")], (), ["lookups", "iteration", "returned pairs"])
p("C05", "flat_multiset and flat_multimap keep every duplicate in stable order",
  "For every history of insertions, hinted insertions, range insertions and erasures a flat_multiset or flat_multimap holds exactly the multiset of entries of the reference std container, sorted by key. Equal keys keep their insertion order, and count, equal_range, lower_bound, upper_bound and erase-by-key cover exactly the entries with an equivalent key.",
  [H, I], "every history, key value, duplicate pattern and probe",
  why_h + "Tests use few duplicates and one probe pattern.",
  ["seq/flat_map.hpp", "seq/internal/binary_search.hpp", "seq/algorithm.hpp"], [("sorted tiered_vector with upper-bound insertion", "seq/flat_map.hpp")], (), ["equal_range", "count", "iteration"])
p("C06", "radix_set/radix_map agree with std::set/map on arithmetic keys",
  "For every history of insertions, erasures and lookups with integral (signed or unsigned, any width) or floating-point keys a radix_set or radix_map contains exactly the keys and values of a std::set or std::map and iterates over them in increasing order. find, count, contains, lower_bound, upper_bound, equal_range and erase by key, iterator or range agree with the reference for every probe key.",
  [H, I], "every history and key bit pattern (signs, shared prefixes, extremes), every probe",
  why_h + "Which tree nodes and leaves form depends on shared key prefixes, which random keys rarely have.",
  ["seq/radix_map.hpp", "seq/internal/radix_tree.hpp"], [("variable-arity radix tree with vector leaves", "seq/internal/radix_tree.hpp"), ("order-preserving key transform", "seq/internal/radix_tree.hpp")],
  [("directory hash length and first valid index", "arity and leftmost child of a node", "seq/internal/radix_tree.hpp")], ["iteration order", "lookups"])
p("C07", "radix_set/radix_map agree with std::set/map on string and composite keys",
  "For every history of insertions, erasures and lookups with variable-length string keys (including empty strings, embedded zero bytes, prefixes of one another and long common prefixes) or tuple keys, a radix_set or radix_map contains exactly the keys of the ordered std container and iterates over them in lexicographic order. find, lower_bound, upper_bound, prefix search and erase agree with the reference for every probe.",
  [H, I], "every history, key content and length, every probe",
  why_h + "Key length, zero bytes and common prefixes decide which internal path is taken.",
  ["seq/radix_map.hpp", "seq/internal/radix_tree.hpp"], [("common-prefix directories", "seq/internal/radix_tree.hpp"), ("bit extraction past the end of a string key", "seq/internal/radix_tree.hpp")], (), ["iteration order", "lookups", "prefix ranges"])
p("C08", "ordered_set/ordered_map behave as insertion-ordered hash maps for any hash",
  "For every history and every hash function, however badly distributed, an ordered_set or ordered_map contains exactly the keys and values of the reference unordered container. Without erasures it iterates over them in insertion order; an erasure keeps the order of the survivors, and a later plain insertion may reuse the freed position while explicit front and back insertions keep theirs. Insertion success flags, lookups, erasures, explicit front/back/positional insertion, sort and rehash agree with the reference, and iterators and references to surviving elements stay valid.",
  [H, I], "every history, key, probe and hash function value (collisions of any kind)",
  why_h + "Collision chains, tombstones and rehash timing depend on the hash values, which tests take from one good hash.",
  ["seq/ordered_map.hpp", "seq/sequence.hpp"], [("Robin Hood table of tagged iterators into a sequence", "seq/ordered_map.hpp")], [("probe distance", "distance of an entry from its home bucket", "seq/ordered_map.hpp")], ["find", "iteration order", "insert results"])
p("C09", "radix_hash_set/radix_hash_map contain exactly what was inserted for any hash",
  "For every history of insertions, updates, erasures, copies, moves, swaps, clears and rehashes, and every hash function however badly distributed, a radix_hash_set or radix_hash_map contains exactly the keys and mapped values of the reference unordered container. Every lookup, insertion flag, size and full traversal agrees with the reference.",
  [H, I], "every history, key, probe and hash function value",
  why_h + "Leaf splits and bucket growth are driven by hash bits; tests use one good hash.",
  ["seq/radix_hash_map.hpp", "seq/internal/radix_tree.hpp"], [("radix tree over hash values with vector leaves", "seq/internal/radix_tree.hpp")], (), ["find", "size", "traversal"])
p("C10", "concurrent_map/concurrent_set contain exactly what was inserted for any hash",
  "Used by one thread, for every history of insert, emplace, try_emplace, insert_or_assign, update-style functors, visit, erase, conditional erase, clear, rehash, copy, move, swap and merge, and for every hash function, a concurrent_set or concurrent_map contains exactly the keys and values of the reference unordered container. Visitors are called exactly when the key is present, with its current value, and the returned counts and flags agree with the reference.",
  [H, I, C], "every history, key, probe, hash value and concurrency-level configuration",
  why_h + "Overflow into the dense value area of a node depends on hash-byte collisions.",
  ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp"], [("chained nodes of 15 tagged slots plus overflow area", "seq/internal/concurrent_hash_table.hpp")], (), ["visit", "return values", "size", "traversal"])
p("C11", "concurrent_map operations are linearizable under every interleaving",
  "When several threads call insert, emplace, visit, update, erase and traversal operations on the same concurrent_set or concurrent_map at once, including while the table is being rehashed, every call behaves as if it took effect atomically at one point between its invocation and its return. No update is lost or applied twice, a visitor sees and holds its element exclusively, no data race occurs and every call returns.",
  [S, H, I], "every interleaving of the threads' synchronisation steps (within a context-switch bound), every small per-thread program, key relation and hash value",
  "Tests run real threads on real timing and check only totals; a rare interleaving (for instance around rehash) is not reachable on demand.",
  ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp", "seq/lock.hpp"], [("node locks, bucket chain lock and rehash lock", "seq/internal/concurrent_hash_table.hpp")], (), ["call results", "final contents"])
p("C12", "Locks exclude: one writer or any number of readers, and always make progress",
  "For every interleaving of lock, unlock, try_lock, shared lock, shared unlock and shared try-lock calls that callers issue in a legal order, at most one thread holds a spinlock or shared_spinlock (shared_spinner over any counter type) exclusively, and never together with a shared holder. A successful try_lock is a real acquisition, a failed one leaves the lock state unchanged, and once every holder has released, the lock is free again.",
  [S], "every interleaving of small thread programs over the lock types",
  "A timing-dependent test on x86 cannot enumerate interleavings.",
  ["seq/lock.hpp"], [("atomic state words with writer bits and reader counts", "seq/lock.hpp")], (), ["mutual exclusion", "lock state after release"])
p("C13", "tiny_string modifiers and accessors behave like std::string",
  "For every content, including embedded zero bytes, and every history of assign, append, insert, erase, replace, resize, reserve, shrink, push, pop, copy, move, swap and substring operations, a tiny_string holds exactly the characters a std::string would and stays zero terminated. This holds across the switch between inline and heap storage for every inline capacity, for arguments that alias the string itself where std::string allows it, and no operation reads or writes outside the string's storage.",
  [H, I, C], "every history, content, position, length; every inline capacity",
  why_h + "The inline/heap boundary combined with positions and aliasing is sampled at a handful of lengths.",
  ["seq/tiny_string.hpp"], [("small-string storage with size encoded in the last byte", "seq/tiny_string.hpp")], (), ["size", "data", "c_str terminator"])
p("C14", "tiny_string comparison, search and hashing agree with std::string",
  "For every pair of contents and every start position, comparisons (==, !=, <, <=, >, >=, compare) between tiny_strings, tiny string views, std::strings and C strings, and the searches find, rfind, find_first_of, find_last_of, find_first_not_of and find_last_not_of, return what std::string returns. Equal contents have equal hashes whatever string type or inline capacity holds them.",
  [I, C], "every content (all 256 byte values), length, needle and position within the stated bounds",
  "Tests use a few ASCII literals; bytes over 0x7f, zero bytes, equal prefixes and word-sized comparison tails are not covered.",
  ["seq/tiny_string.hpp", "seq/hash.hpp", "seq/internal/hash_utils.hpp"], [("word-at-a-time comparison and search", "seq/tiny_string.hpp")], (), ["return values"])
p("C15", "net_sort sorts stably for every input and buffer policy",
  "For every input range, element type, iterator category and valid comparator, net_sort and its variants leave a permutation of the input sorted by the comparator in which equivalent elements keep their original relative order. This holds for every available buffer size including none, and nothing outside the range is modified.",
  [I, C], "every sequence of keys (all comparison outcomes) within the stated lengths, every buffer configuration",
  "Tests compare with std::stable_sort on random data of chosen shapes; the run detection and merge branches depend on order patterns and ties.",
  ["seq/algorithm.hpp"], [("small-block network/insertion sort, run detection and buffered merges", "seq/algorithm.hpp")], (), ["sorted order", "stability"])
p("C16", "merge, in-place merge, reversal and binary search helpers meet their contracts",
  "For every sorted input pair, merge and inplace_merge (with any buffer size) produce the stable merge, reverse_descending turns a non-increasing range into a non-decreasing one keeping the order of equal elements, and unique keeps, in order, the first element of every value occurring in the range, whatever the quality of the hash function. The library's lower_bound helper returns the position std's would on every sorted range.",
  [I, C], "every input content within the stated lengths, every buffer size",
  "Contracts are over all inputs; tests exercise them indirectly through net_sort and containers.",
  ["seq/algorithm.hpp", "seq/internal/binary_search.hpp"], [("galloping/buffered/rotating merges", "seq/algorithm.hpp"), ("branchless binary search", "seq/internal/binary_search.hpp")], (), ["resulting ranges", "returned positions"])
p("C17", "Bit manipulation primitives equal their mathematical definition",
  "For every 8, 16, 32 and 64-bit argument in its documented domain, population count, bit scans, nth-bit-set, bit rotation, byte swap, endian reads and writes, 64-bit multiplication with 128-bit result, digit counting, bit reversal, runs of bits, static bit size and the aligned allocation helpers return exactly the mathematically defined result. The portable and the compiler-intrinsic paths agree.",
  [I], "every argument value (full width)",
  "2^64 arguments; tests try a few dozen.",
  ["seq/bits.hpp"], [("intrinsic or table/multiply based implementations", "seq/bits.hpp")], (), ["return values"])
p("C18", "Integer to_chars/from_chars round-trip and obey the std contract",
  "For every value of every integer type, every base from 2 to 36 and every buffer length, to_chars writes exactly the digits std::to_chars writes (plus the sign, zero padding, '0x' prefix and case its format argument asks for), never writes outside the buffer and reports value_too_large exactly when they do not fit. For every input character range and character type from_chars consumes what std::from_chars consumes, extended as documented by leading spaces, a leading '+' and, in base 16, a '0x' before a digit; it yields the same value and reports the same error (invalid_argument with nothing consumed, result_out_of_range with all digits consumed, the value untouched in both cases), never reads outside the range, and inverts to_chars.",
  [I], "every value, base, buffer length and input text within the stated lengths",
  "Random round trips do not hit overflow boundaries, invalid characters and exact-fit buffers in every base.",
  ["seq/charconv.hpp"], [("digit-pair tables, size computation and overflow checks", "seq/charconv.hpp")], (), ["ptr", "ec", "written bytes", "value"])
p("C19", "Float from_chars parses exactly the documented grammar",
  "For every input character range, format flag and target float type, from_chars consumes the longest prefix that matches the documented float grammar and reports invalid_argument, leaving the value untouched, exactly when there is none. It never reads outside the range, always terminates, and the sign, zero, infinity, nan and small exactly representable decimal values it returns are exact.",
  [I], "every input text within the stated lengths over the full byte alphabet, each format flag",
  "Tests parse printed random floats; malformed, truncated and boundary texts are not covered.",
  ["seq/charconv.hpp"], [("hand written float grammar scanner and decimal scaling", "seq/charconv.hpp")], (), ["ptr", "ec", "value"])
p("C20", "Float to_chars stays in its buffer and prints a faithful decimal",
  "For every float value, format, precision and buffer length, to_chars never writes outside the buffer, and reports value_too_large exactly when the text it would produce with an ample buffer does not fit. The produced text is well formed for the requested format, carries the right sign, prints zero, infinity and nan as documented, and equals the printf rendering wherever the value and precision are exactly representable.",
  [I], "every value in the stated classes, every precision and buffer length within the bounds",
  "Tests print random values in large buffers with default precision.",
  ["seq/charconv.hpp"], [("digit generation with rounding carry, exponent and padding logic", "seq/charconv.hpp")], (), ["ptr", "ec", "bytes"])
p("C21", "Formatted output fits width, alignment and fill exactly",
  "For every value, base, width, alignment, fill character and nesting of formats, the formatted text is the value's plain text padded to exactly the requested width on the requested side, and is never truncated when longer. Formatting into a string, appending to a string, writing to a bounded buffer and composing several formats produce the same characters, and bounded output never exceeds the bound.",
  [I, C], "every integer value, width, alignment and fill within the bounds",
  "Tests check a few literal outputs.",
  ["seq/format.hpp", "seq/charconv.hpp"], [("width-aware formatting and padding", "seq/format.hpp")], (), ["produced text"])
p("C22", "any holds, copies, moves and destroys exactly one value of the right type",
  "For every history of construction, assignment, emplacement, copy, move, swap, reset and cast over values of inline-stored, heap-stored, trivial and non-trivial types, a seq any reports the type and value last stored, and a failed cast throws without changing it. Copies are independent, a moved-from any is valid, and every stored object is destroyed exactly once.",
  [H, I, C], "every history over the value kinds and every static storage size configuration",
  why_h + "Transitions between storage kinds form a matrix tests sample.",
  ["seq/any.hpp", "seq/tagged_pointer.hpp"], [("small-buffer storage with tagged type-info pointer", "seq/any.hpp")], (), ["type", "cast", "live object count"])
p("C23", "any comparison is a consistent order and agrees with hashing",
  "For every pair of values of comparable kinds held in any objects, equality and ordering agree with comparing the held values; the order is irreflexive, antisymmetric and transitive, including across arithmetic types, string kinds and unrelated types. Two equal any objects always have equal hashes, and comparing an any with a plain value agrees with comparing two any objects.",
  [I], "every value of every pair (triple) of kinds, full width",
  "Cross-type comparison is a type matrix times a value space; tests check a few pairs.",
  ["seq/any.hpp", "seq/hash.hpp"], [("type-indexed comparison with arithmetic and string fall-backs", "seq/any.hpp")], (), ["==", "<", "hash"])
p("C24", "tagged_pointer keeps pointer and tag independent",
  "For every aligned pointer and every tag representable in the free low bits, setting either part leaves the other unchanged and both read back exactly. Comparison and full-value conversion round-trip for every pointer and tag, for every pointee alignment.",
  [I, C], "every pointer value and tag, each alignment",
  "2^64 pointers times tags; tests use two or three.",
  ["seq/tagged_pointer.hpp"], [("masking of low bits", "seq/tagged_pointer.hpp")], (), ["ptr()", "tag()"])
p("C25", "Hash functions depend only on content and never read outside it",
  "For every byte content and length, the byte hash returns the same value whatever the address, alignment or surrounding memory of the content, and reads no byte outside it. Equal keys of the library's hashable types (strings of every kind, pairs, tuples, pointers, numbers, with +0 and -0 where they compare equal) have equal hashes.",
  [I], "every content within the stated lengths, every alignment offset",
  "Over-reads inside mapped memory are invisible to tests and content dependence is over all byte strings.",
  ["seq/hash.hpp", "seq/internal/hash_impl.hpp", "seq/internal/hash_utils.hpp"], [("block-wise hashing with tail handling", "seq/internal/hash_impl.hpp")], (), ["returned hash"])
p("C26", "Containers survive a throwing element or allocator",
  "Whichever single allocation, element construction, copy, move, comparison or hash call throws during a container operation, the container stays valid and usable, no element is leaked, destroyed twice or left half constructed, and the exception reaches the caller. Where the documentation promises the strong guarantee, the contents are exactly those before the call.",
  [F, H], "every single fault point of every operation of the stated histories",
  "Tests inject no fault; each operation has many fault points.",
  ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/radix_hash_map.hpp", "seq/radix_map.hpp", "seq/concurrent_map.hpp", "seq/tiny_string.hpp"], [("try/catch roll-back blocks and guard objects", "seq/*.hpp")], (), ["contents after the exception", "live object and block counts"])
p("C27", "Containers construct and destroy every element once and free all memory",
  "For every history of operations on any container of the library, each element object is constructed once before use and destroyed once, every block is returned to the allocator it came from with the size it was requested with, and nothing is left after the container is destroyed. Copies share nothing with the original; moved-from and swapped containers stay valid; stateful allocators are propagated as their traits require.",
  [H, C], "every history of the stated length over every container, stateful allocators included",
  "Tests check totals after a few fixed histories.",
  ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/radix_hash_map.hpp", "seq/radix_map.hpp", "seq/concurrent_map.hpp", "seq/tiny_string.hpp"], [("allocator-aware construction and destruction", "seq/*.hpp")], (), ["allocator ledger", "live object count"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
