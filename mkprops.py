"""Regenerates properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
T = "Tests sample fixed call sequences with small contents; the statement quantifies over every %s."
def p(id, title, statement, over, text, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=m.strip(), where=files[0]) for m in mech.split(';')]))
ROWS = [
p('C01', 'Teds\\Vector behaves exactly like a list under every history of operations',
  "After any sequence of operations a Teds\\Vector holds exactly the list of values those operations describe: push/pushFront/unshift/insert add the given values at the right place in the right order, pop/popFront/shift/offsetUnset remove exactly one, set/offsetSet replace one, setSize truncates or pads, and get/first/last/indexOf/contains/containsKey/map/filter/toArray answer from that list using === identity. Every operation on a position outside the list fails with an exception and leaves the list unchanged, and growing, shrinking, reserving or trimming capacity never loses, duplicates or alters a value.",
  ['inputs', 'histories'], 'all values, positions, argument counts and sizes (bounded only by the engine\'s memory limit), all histories of operations', T % 'size, capacity phase, argument count and value type, and resize bugs show only at particular size/capacity combinations', ['teds_vector.c', 'teds_vector.h', 'teds_util.c', 'teds_util.h'],
  'size/capacity/entries representation; raise/shrink capacity; memmove based insert and remove'),
p('C02', 'Teds\\Deque behaves exactly like a double-ended list under every history',
  "After any interleaving of push, pushFront/unshift, pop, popFront/shift, insert, set, offsetUnset and clear, a Teds\\Deque holds exactly the list those operations describe, in order, wherever its contents lie in internal storage. Reads by position, search, iteration, conversion to array, clone and serialization all answer from that list, and an operation on an empty deque or a position outside the list throws and changes nothing.",
  ['inputs', 'histories'], 'all values, positions and argument counts; all histories, including those in which the contents wrap around the end of the circular storage', T % 'relative position of head, tail and capacity in the ring buffer', ['teds_deque.c', 'teds_deque.h'],
  'power-of-two circular buffer with mask; resizing unrolls the wrapped part'),
p('C03', 'Teds\\IntVector stores every integer exactly, whatever mixture of magnitudes',
  "A Teds\\IntVector returns every 64-bit integer exactly as it was stored, in list order, after any sequence of operations, including those that mix values of very different magnitude. A value that is not an integer is rejected with TypeError and never stored, and positions outside the list throw without changing it.",
  ['inputs', 'histories'], 'all 64-bit integers, positions and argument counts; all histories', T % 'combination of widths, including the exact boundary values of each width', ['teds_intvector.c', 'teds_intvector.h'],
  'entries stored as int8/16/32/64 with a type tag; promotion rewrites all entries to the wider type'),
p('C04', 'Teds\\LowMemoryVector is indistinguishable from Teds\\Vector in its contents',
  "A Teds\\LowMemoryVector returns every value exactly as stored, with the same type and bits (null, false, true, each integer, each float including -0.0 and NAN, strings, arrays, objects), in list order, after any sequence of operations and any mixture of types. indexOf and contains use === identity whatever the values stored so far, and positions outside the list throw without changing it.",
  ['inputs', 'histories'], 'all PHP values, positions and argument counts; all histories including every order in which types are mixed', T % 'pair of current representation and newly added type', ['teds_lowmemoryvector.c', 'teds_lowmemoryvector.h'],
  'type tag selects bool/null, int8..int64, double or zval storage; promotion converts all entries'),
p('C05', 'Teds\\BitVector holds exactly the bits written, through bit and word access alike',
  "After any sequence of operations a Teds\\BitVector holds exactly the list of booleans those operations describe; setBit/set/setInt8/16/32/64 change exactly the addressed bits, and getInt/getUInt return the stored bytes in little-endian order with the right sign. toBinaryString/serialize and their inverses preserve the bits and the exact length, and any access (partly) outside the vector throws without changing it.",
  ['inputs', 'histories'], 'all lengths (including those not a multiple of 8 or 64), positions and word values; all histories', T % 'length modulo 8/64 and every offset', ['teds_bitvector.c', 'teds_bitvector.h', 'teds_bswap.h'],
  'bits packed into bytes; capacity in bits, multiples of 64; shifting on insert and remove'),
p('C06', 'Teds\\ImmutableSequence never changes and answers like the list it was built from',
  "A Teds\\ImmutableSequence holds, from construction on, exactly the values of the iterable it was built from, in order, and no call, array-access write, unset, clone, failed constructor or unserialize call changes it. Every mutating method throws UnsupportedOperationException; map and filter return new sequences with exactly the mapped or selected values even if the callback throws midway.",
  ['inputs', 'histories'], 'all source iterables, callbacks and call sequences', T % 'source iterable and callback outcome (including exceptions at any point)', ['teds_immutablesequence.c', 'teds_vector.c'],
  'fixed array of entries built once in the constructor'),
p('C07', 'The iterable collections keep every key/value pair exactly and in order',
  "Teds\\ImmutableIterable, Teds\\CachedIterable and Teds\\MutableIterable hold exactly the key/value pairs of their source in the order produced, including repeated and non-scalar keys, and answer keyAt/valueAt/keys/values/toPairs/indexOf/contains from that list of pairs. MutableIterable\'s push/pop/setKeyAt/setValueAt/setSize change exactly the addressed pairs; CachedIterable consumes each source element at most once and only as far as needed, and an exception thrown by the source surfaces without corrupting pairs already fetched.",
  ['inputs', 'histories', 'fault_sequences'], 'all sources (arrays, iterators, generators, throwing ones), all keys and values, all interleavings of several iterators and accessors', T % 'interleaving of accessors over a lazily consumed source and every point at which it throws', ['teds_immutableiterable.c', 'teds_mutableiterable.c', 'teds_cachediterable.c', 'teds_zval_pair.h'],
  'array of zval pairs; lazy fetch loop in CachedIterable'),
p('C08', 'Strict hash collections keep unique keys by strict identity, in insertion order',
  "Teds\\StrictHashSet and Teds\\StrictHashMap contain exactly the values or keys added and not since removed, at most one per class of strictly equal values (NAN equal to NAN, 0.0 and -0.0 equal; values of different type never equal), listed in the order first added, and a map returns for each key the value last set. Lookup, addition, overwriting and removal give these answers after every history, including hash collisions, rehashes and reuse after removals.",
  ['inputs', 'histories'], 'all values as elements/keys and all histories of add/remove/lookup/clear', T % 'history, in particular those that reach a rehash or compaction with deleted slots or colliding hashes', ['teds_stricthashset.c', 'teds_stricthashmap.c', 'teds_stricthashset.h', 'teds_stricthashmap.h', 'teds_util.c'],
  'hash chains over an insertion-ordered array with tombstones; rehash/compaction'),
p('C09', 'Strict tree collections stay sorted, unique, balanced and complete',
  "Teds\\StrictTreeSet and Teds\\StrictTreeMap contain exactly the values or keys added and not since removed, without duplicates and in the order of Teds\\stable_compare, and a map returns for each key the value last set. first/last/pop/popFront/get/contains answer accordingly and the tree reports itself balanced after every history.",
  ['inputs', 'histories'], 'all values as elements/keys and all histories of add/remove/pop/lookup', T % 'history, each of which exercises different rotations', ['teds_stricttreeset.c', 'teds_stricttreemap.c', 'teds_stricttreeset.h', 'teds_stricttreemap.h'],
  'red-black tree with doubly linked in-order list'),
p('C10', 'Strict sorted-vector collections stay sorted, unique and complete',
  "Teds\\StrictSortedVectorSet and Teds\\StrictSortedVectorMap contain exactly the values or keys added and not since removed, strictly increasing in the order of Teds\\stable_compare, and a map returns for each key the value last set. Binary search, insertion, removal, first/last/pop/popFront and unserialize (of unsorted or duplicated data too) keep this after every history.",
  ['inputs', 'histories'], 'all values as elements/keys and all histories', T % 'position, size and duplicate pattern', ['teds_strictsortedvectorset.c', 'teds_strictsortedvectormap.c', 'teds_strictsortedvectorset.h', 'teds_strictsortedvectormap.h'],
  'sorted array, binary search with stable_compare, sort+dedupe on bulk load'),
p('C11', 'Strict heaps always yield their extreme element and lose nothing',
  "A Teds\\StrictMinHeap (StrictMaxHeap) holds exactly the multiset of values added and not yet extracted; top and extract return a least (greatest) value in the order of Teds\\stable_compare, and iterating consumes the values in non-decreasing (non-increasing) order. This holds after every history of add, extract, next, clear, clone and unserialize; operations on an empty heap throw.",
  ['inputs', 'histories'], 'all values and all histories', T % 'insertion order and size', ['teds_strictheap.c', 'teds_strictheap.h'], 'binary heap in an array; sift up/down'),
p('C12', 'Sorted int and string sets are sorted, unique and complete',
  "Teds\\SortedIntVectorSet, Teds\\ImmutableSortedIntSet and Teds\\ImmutableSortedStringSet contain exactly the integers (strings) given to them, each once, in increasing numeric (byte-string) order, and contains/indexOf/get/first/last answer from that sorted list. SortedIntVectorSet add, remove and pop change exactly the addressed member; values of any other type are rejected when adding and never found when searching.",
  ['inputs', 'histories'], 'all 64-bit integers, all byte strings, all histories', T % 'combination of widths and positions', ['teds_intvector.c', 'teds_immutablesortedstringset.c'], 'sorted typed int arrays with promotion; packed string with offset table and binary search'),
p('C13', 'stable_compare is a total order; strict_hash and strict_equals agree with it',
  "Teds\\stable_compare is reflexive, antisymmetric and transitive over all PHP values and returns 0 only for values it does not distinguish; it orders null<false<true<numbers<strings<arrays<objects<resources, numbers by value with an int before an equal float. Teds\\strict_equals is an equivalence, and strictly equal values always have equal Teds\\strict_hash, including nested arrays and NAN.",
  ['inputs'], 'all pairs and triples of PHP values, including int/float pairs beyond 2^53, NAN, infinities, strings and nested arrays', T % 'pair and triple of values', ['teds_util.c', 'teds_util.h', 'teds.c'], 'comparison and hashing of zvals by type'),
p('C14', 'Serialization round-trips exactly and malformed data is rejected cleanly',
  "For every collection, unserialize(serialize(x)), __set_state and the string serialize()/unserialize() and binary-string forms that exist reproduce an equal collection, whatever its history and internal representation. Malformed or inconsistent serialized data either yields a well-formed collection or an exception, never a crash, an out-of-range read or a collection that breaks its own invariants.",
  ['inputs', 'histories'], 'all contents and histories; all (including hostile) data arrays and strings', T % 'content and every malformed input', ['teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c', 'teds_immutablesortedstringset.c', 'teds_serialize_util.h', 'teds_vector.c', 'teds_deque.c', 'teds_stricthashmap.c', 'teds_stricttreemap.c'], '__serialize/__unserialize per class; compact binary encodings with a type byte'),
p('C15', 'Iteration stays correct while the collection is being modified',
  "While an iterator is open, elements added to or removed from the collection (through any method, any number of iterators open) neither crash the iteration nor make it skip or repeat an element that is still in the collection and ahead of it. Each iterator yields the element at its logical position with the matching key, and rewinding starts again at the first element. (After clear() or setSize() dropped the element an iterator stands at, elements added later may or may not be visited by it.)",
  ['histories'], 'all interleavings of iteration steps and modifications, any number of open iterators', T % 'interleaving of iterator movement and modification', ['teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c', 'teds_mutableiterable.c', 'teds_stricthashset.c', 'teds_stricthashmap.c', 'teds_stricttreeset.c', 'teds_stricttreemap.c', 'teds_strictsortedvectorset.c', 'teds_strictsortedvectormap.c', 'teds_util.h'], 'intrusive list of active iterators adjusted before insert/remove'),
p('C16', 'No operation corrupts memory or leaks, whatever callbacks and destructors do',
  "No sequence of PHP calls on these classes reads or writes memory outside its own allocation, uses freed memory, or releases a value twice; every value is kept alive exactly as long as the collection holds it and is released exactly once when removed, overwritten, cleared or destroyed. This also holds when constructors, iterators or callbacks throw, when destructors or callbacks modify the very collection being operated on, and for cyclic structures handed to the garbage collector.",
  ['inputs', 'histories', 'fault_sequences'], 'all histories, all throw points of user code called back, all re-entrant modifications', T % 'throw point and re-entrant modification', ['teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c', 'teds_immutablesequence.c', 'teds_immutableiterable.c', 'teds_mutableiterable.c', 'teds_cachediterable.c', 'teds_stricthashset.c', 'teds_stricthashmap.c', 'teds_stricttreeset.c', 'teds_stricttreemap.c', 'teds_strictsortedvectorset.c', 'teds_strictsortedvectormap.c', 'teds_strictheap.c'], 'manual reference counting and (re)allocation'),
p('C17', 'The iterable helper functions compute exactly what they say on every iterable',
  "Teds\\any/all/none/find/fold/includes_value/unique_values agree with their definition over the values of any array or Traversable in order, call the callback once per element and stop as early as the answer is known, and let exceptions through. array_value_first/last return the end values, and binary_search returns whether and where a value (or key) occurs in a sorted array, or otherwise the largest entry below it.",
  ['inputs'], 'all arrays (packed, with holes, hashed), Traversables, callbacks and values', T % 'array layout, callback result and target', ['teds.c', 'teds_util.c'], 'foreach over HashTable buckets or zend_iterator; binary search over packed and sparse arrays'),
p('C18', 'The empty collections are always empty and cannot be filled',
  "Teds\\EmptySequence, Teds\\EmptySet and Teds\\EmptyMap report no elements through every method, whatever was attempted on them. Every attempt to add or read an element throws, and removing or clearing has no effect.",
  ['inputs', 'histories'], 'all methods, arguments and call sequences', T % 'argument and call order', ['teds_emptycollection.c'], 'enum singletons without state'),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for r in ROWS:
        f.write(json.dumps(r, ensure_ascii=False) + '\n')
