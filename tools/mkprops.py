#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long JSON lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))
MAPF = ["src/map.rs","src/map/storage/boolean.rs","src/map/storage/option.rs","src/map/storage/singleton.rs","src/map/storage/hashbrown.rs","fixed-map-derive/src/unit_variants.rs","fixed-map-derive/src/any_variants.rs"]
SETF = ["src/set.rs","src/set/storage/boolean.rs","src/set/storage/option.rs","src/set/storage/singleton.rs","src/set/storage/hashbrown.rs","fixed-map-derive/src/unit_variants.rs","fixed-map-derive/src/any_variants.rs"]
ALLF = MAPF + SETF[:5]
TESTS = "The suite is doc examples on 2-4 variant enums with Copy values plus a few entry tests; "

p("C01","A Map answers every operation like a reference key-value map",
 "After any sequence of operations, on any key shape (plain enums, enums whose variants carry nested enums, bool, Option, unit or dynamic keys, and those keys directly), every return value of insert, remove, get, get_mut, contains_key, len, is_empty and clear, and every entry then visible, equals that of a reference key-value map that executed the same sequence. An operation on one key never changes, creates or hides the entry of another key. This stays true when earlier operations in the sequence were interrupted, abandoned half way, refused an allocation, or followed by a crash and restart from a snapshot.",
 ["histories","inputs","programs","fault_sequences"],
 "every key type accepted by the derive (any number, nesting and order of variants), every operation sequence, every fault placement between and inside the operations",
 TESTS+"none runs a history longer than a handful of calls, uses more than five variants, mixes nested dynamic and fixed keys, or interrupts an operation.",
 MAPF,
 [("slot arrays indexed by variant","fixed-map-derive/src/unit_variants.rs: impl_map"),("per-variant nested storage","fixed-map-derive/src/any_variants.rs: impl_map_storage"),("bool/Option/unit/hash storage","src/map/storage/*.rs")],
 [("storage","all entries of the map","src/map.rs: Map::storage")],
 ["return values of Map methods","get/contains_key over every key of the universe after each step"])
p("C02","A Set answers every operation like a reference set",
 "After any sequence of operations, on any key shape and both set layouts (one flag per variant, or the bitset layout), every return value of insert (true exactly when the value was absent), remove (true exactly when that value was present), contains, len, is_empty and clear, and the membership of every value, equals that of a reference set that executed the same sequence. An operation on one value never affects the membership of another. This stays true when earlier operations were interrupted, abandoned, refused an allocation, or followed by a crash and restart from a snapshot.",
 ["histories","inputs","programs","fault_sequences"],
 "every key type accepted by the derive with and without the bitset attribute (1 to 128 variants), every operation sequence, every fault placement",
 TESTS+"the boolean values returned by insert/remove are asserted only for plain two-variant enums, and no bitset wider than three variants is used.",
 SETF,
 [("bool flags / bit masks per variant","fixed-map-derive/src/unit_variants.rs: impl_set, impl_bitset"),("per-variant nested set storage","fixed-map-derive/src/any_variants.rs: impl_set_storage"),("bool/Option/unit/hash storage","src/set/storage/*.rs")],
 [("storage","membership of all values","src/set.rs: Set::storage")],
 ["return values of Set methods","contains over the whole universe after each step"])
p("C03","Entry handles act on exactly their key, lazily, and survive interruption",
 "An entry is reported occupied exactly when its key has a value, reports exactly the key it was asked for, and every action on it (or_insert, or_insert_with, or_insert_with_key, or_default, and_modify, and get, get_mut, into_mut, insert, remove on the two kinds of handle) reads or changes the value of that key only, with the documented result. Default-producing functions run exactly once when the key is vacant and never when it is occupied, and modification functions run exactly once when occupied and never when vacant. Dropping or leaking an entry handle without acting, or a supplied function failing half way, leaves the presence of every key unchanged.",
 ["histories","inputs","programs","fault_sequences"],
 "every key shape, every prior state, every chain of entry calls, every point at which the handle is abandoned or a supplied function panics",
 "tests/entry.rs drives four keys of one composite enum through each method once and never interrupts a supplied function or abandons a handle.",
 ["src/map/entry.rs","src/option_bucket.rs","src/map/storage.rs","src/map/storage/boolean.rs","src/map/storage/option.rs","src/map/storage/singleton.rs","src/map/storage/hashbrown.rs","fixed-map-derive/src/unit_variants.rs","fixed-map-derive/src/any_variants.rs"],
 [("Entry combinators","src/map/entry.rs: impl Entry"),("unsafe occupied/vacant buckets","src/option_bucket.rs"),("derived entry enums","fixed-map-derive/src/any_variants.rs: map_storage_entry; unit_variants.rs: impl_entry")],
 [], ["values returned by entry calls","call counts of supplied functions","map contents afterwards"])
p("C04","Every traversal visits every live entry exactly once, from either end",
 "For any contents, iterating by reference, by mutable reference, by value, over keys or over values (and over a set by reference or by value) yields every live entry exactly once with its current value and nothing else, then keeps reporting the end. This holds for any interleaving of steps from the front and the back, for skipping, counting, folding and cloned iterators, and a size hint never excludes the number of items actually left. Mutable traversal hands out each value at most once and its writes are exactly what later reads see.",
 ["inputs","histories","programs","schedules"],
 "every key shape, contents, interleaving of front/back/skip/clone moves and abandonment point",
 TESTS+"they step an iterator forwards, or wholly backwards, over one or two populated contents; mixed front/back stepping that meets in the middle of a nested key is tried for a few fixed sequences only.",
 ALLF,
 [("start/end cursor over per-variant iterators","fixed-map-derive/src/any_variants.rs: build_iter_next, IteratorNext, IteratorNextBack"),("flattened array iterators","fixed-map-derive/src/unit_variants.rs"),("bit-consuming bool iterators","src/map/storage/boolean.rs: Keys; src/set/storage/boolean.rs: Iter"),("chained Option iterators","src/map/storage/option.rs, src/set/storage/option.rs")],
 [], ["items, ends and size hints of every iterator the crate returns"])
p("C05","Traversal follows declaration order whatever the history",
 "Iteration over maps and sets visits keys in the order in which their variants are declared, with a nested key's own entries in that nested key's order at its variant's position (true before false, present before absent for Option), and only the relative order of dynamic keys inside one dynamic variant is unspecified. The order depends on nothing else: not on the order of insertion, removals, clones, earlier interruptions, restarts or hash seeds. Iterating from the back gives exactly the reverse, and keys, values, pairs, mutable pairs and owned pairs agree on the order.",
 ["histories","inputs","programs","configurations"],
 "every key shape, insertion/removal history, hash seed and iterator kind",
 TESTS+"they insert in declaration order most of the time and on at most five variants.",
 ALLF+["src/key.rs"],
 [("declaration index drives code generation","fixed-map-derive/src/any_variants.rs: Field::index"),("array position = declaration index","fixed-map-derive/src/unit_variants.rs"),("true-before-false, Some-before-None","src/map/storage/boolean.rs, src/map/storage/option.rs and the set twins")],
 [], ["key sequence of every iterator"])
p("C06","Every stored value is dropped or handed back exactly once",
 "Each value given to a map is, at every moment, either owned by exactly one map (or by an iterator consuming that map), or has been handed back to the caller, or has been dropped exactly once; it is never dropped twice, never readable after being dropped or handed back, and never lost. This holds through replacement, removal, retain, clear, clone, entry actions, partially consumed and abandoned owning iterators, failed deserialization and failed collection. Only a panic raised by a value's own destructor, or the caller deliberately leaking an iterator, may leave values undropped, and never dropped twice.",
 ["histories","inputs","programs","fault_sequences"],
 "every history of operations and abandonment points, every panic point in user code, every key shape",
 "All tests store Copy integers or string slices, for which a double drop or a leak is invisible.",
 MAPF+["src/option_bucket.rs","src/map/entry.rs"],
 [("Option slots","fixed-map-derive/src/unit_variants.rs: impl_map"),("raw write into a vacant slot","src/option_bucket.rs: NoneBucket::insert"),("unchecked take","src/option_bucket.rs: SomeBucket::take")],
 [], ["per-value birth/clone/drop ledger"])
p("C07","A panic in user code never corrupts a container",
 "When code supplied by the user panics inside an operation (a closure, a value's clone, drop, comparison, hash, default, formatting or serialization, or a source iterator), the operation unwinds and every container involved stays fully usable and self-consistent: length, emptiness, lookups and all traversals agree with each other. No entry that the interrupted operation was not asked to remove (or that the predicate had not rejected) disappears or changes value, no entry appears that was not inserted, and the same operation can be repeated successfully afterwards.",
 ["fault_sequences","histories","inputs","programs"],
 "every user-code call site inside every operation, every call count at which it panics, every contents and key shape, and other clients continuing to use the container afterwards",
 "No test panics inside a callback.",
 ALLF+["src/map/entry.rs","src/option_bucket.rs","src/set/intersection.rs"],
 [("no state is taken out of the container across a user call","src/map/storage/*.rs retain, fixed-map-derive retain/clear"),("bitset retain commits at the end","fixed-map-derive/src/unit_variants.rs: impl_bitset")],
 [], ["contents and ledger after the unwinding"])
p("C08","A clone is equal, complete and independent; a failed clone changes nothing",
 "Cloning a map or set yields a container with exactly the same keys and each value cloned exactly once, and from then on no operation on either side is visible on the other. If cloning any single value panics or an allocation is refused part way, the source is untouched and every already cloned value is dropped exactly once. Cloned iterators continue independently from the position of the original.",
 ["histories","inputs","programs","fault_sequences"],
 "every contents, key shape and subsequent history on both copies; every clone call at which the failure strikes",
 "Clone is exercised on one two-entry map of Copy integers.",
 ALLF,
 [("derived Clone impls","fixed-map-derive/src/unit_variants.rs and any_variants.rs"),("storage Clone impls","src/map/storage/*.rs, src/set/storage/*.rs")],
 [], ["clone counts, contents of both copies over the rest of the history"])
p("C09","Equality, ordering and hashing depend only on the contents",
 "Two maps (or sets) compare equal exactly when they hold the same keys with equal values, however each was built, and equal containers hash equally. Where ordering is offered, it is the lexicographic order of the entries in declaration order (as for a sorted map or set of the same entries; so the empty container is smallest), equality, all comparison operators, max, min and clamp are consistent with it, and values that cannot be compared make the result incomparable only when the comparison reaches them. Comparing, hashing or a panic in the middle of either never changes the operands.",
 ["inputs","histories","programs","fault_sequences"],
 "every pair of contents and histories leading to them, every key shape offering the operation, including set bitset layout, partially ordered values, and interrupted comparisons",
 TESTS+"ordering is asserted for single-entry maps and sets only.",
 ["src/macro_support.rs","src/map.rs","src/set.rs"]+ALLF[1:],
 [("entry-wise comparison","src/macro_support.rs"),("derived PartialEq/Ord/Hash","fixed-map-derive/src/unit_variants.rs, any_variants.rs"),("bitset ordering","fixed-map-derive/src/unit_variants.rs: impl_bitset")],
 [], ["==, !=, <, <=, >, >=, cmp, partial_cmp, min, max, clamp, hash"])
p("C10","A serialized container restores to an equal container after a restart",
 "Serializing a map or set announces exactly the number of entries it then writes, each live entry once, and deserializing that output into a new process yields a container equal to the original with the same traversal order, for every contents and key shape and for both text and binary formats. When an input repeats a key the last value wins, as with repeated insertion. This holds from a snapshot taken at any moment of a history with interruptions, and restored under different hash seeds.",
 ["histories","inputs","crash_points","programs"],
 "every contents, key shape, format, history and crash point between snapshot and restart",
 "The tests never enable serde behaviour (there is no serde test at all).",
 ["src/map.rs","src/set.rs"],
 [("serialize_map/serialize_seq with exact length","src/map.rs: impl Serialize; src/set.rs: impl Serialize"),("MapVisitor/SeqVisitor","src/map.rs, src/set.rs: impl Deserialize")],
 [], ["serializer call trace","restored container"])
p("C11","Serialization failures are reported, and bad input never harms",
 "If the output sink fails at any point while a map or set is serialized, serialization reports that failure, stops, and leaves the container unchanged. If the input fails, ends early, is corrupted, or claims an absurd size, deserialization returns an error or a well-formed container that contains only entries the input delivered; it never panics, never attempts an allocation proportional to a claimed size, and drops every value already read exactly once. A successful result is only returned when every element was written, or read to the end of the input.",
 ["fault_sequences","inputs","crash_points","programs"],
 "every write/read call at which the failure strikes, every truncation point and bit flip, every size hint, key shape and contents",
 "There is no serde test in the suite.",
 ["src/map.rs","src/set.rs"],
 [("? on every serializer/accessor call","src/map.rs, src/set.rs: serde impls")],
 [], ["result of serialize/deserialize, the bytes produced, ledger, allocation sizes"])
p("C12","A raw bitset snapshot restores exactly the set, and stray bits are harmless",
 "For sets in the bitset layout, converting to the raw value and back gives an equal set in any later process, the raw value has exactly one bit per member with bit number equal to the variant's declaration position, and equal sets have equal raw values. Building a set from any raw value, including one with bits that stand for no variant, gives a self-consistent set: its length, emptiness, membership, iteration and equality all describe the same members, namely those whose bit is set.",
 ["inputs","crash_points","histories","fault_sequences"],
 "every bitset width from 1 to 128 variants, every raw value including corrupted ones, every history before the snapshot and after the restore",
 "One doc example with three variants round-trips one value.",
 ["fixed-map-derive/src/unit_variants.rs","src/raw.rs","src/set.rs"],
 [("bit = declaration index","fixed-map-derive/src/unit_variants.rs: impl_bitset, determine_bits")],
 [], ["Set::as_raw / Set::from_raw and every Set observer afterwards"])
p("C13","Fixed keys never allocate; a refused allocation changes nothing",
 "Maps and sets whose keys contain no dynamic part never request memory from the allocator in any operation, so every operation on them succeeds while the allocator refuses everything. For dynamic keys, when the allocator refuses a request in the middle of an operation, the container is left exactly as before and stays usable, and nothing is leaked or dropped twice; operations that add nothing new succeed without allocating. Clearing a dynamic map or set keeps its memory, so refilling it to the same size succeeds during an outage.",
 ["fault_sequences","histories","inputs","programs"],
 "every operation, key shape, contents and the n-th allocation at which the allocator starts refusing",
 "No test observes or fails the allocator.",
 MAPF+SETF,
 [("inline storage","fixed-map-derive generated structs"),("hash storage behind dynamic keys only","src/map/storage/hashbrown.rs, src/set/storage/hashbrown.rs")],
 [], ["allocator seam: number, size and outcome of requests per operation"])
p("C14","Set intersection yields exactly the common elements, in order",
 "The intersection of two sets yields every element contained in both exactly once, and nothing else, in declaration order, whichever of the two is larger, empty, equal or the same set. This holds when it is stepped, skipped, folded, cloned part way or abandoned, its size hint never excludes the number of elements actually left, and neither set is changed.",
 ["inputs","histories","programs","schedules"],
 "every pair of contents, key shape and set layout, interleaving of moves on the iterator and its clones, interleaved with other readers",
 "One doc example per type with two or three elements, consumed only by collect.",
 ["src/set/intersection.rs","src/set.rs"],
 [("smaller side iterates, larger side filters","src/set.rs: Set::intersection"),("next/fold/size_hint","src/set/intersection.rs")],
 [], ["items of the intersection iterator"])
p("C15","Building from a sequence equals inserting its items one by one",
 "Collecting a sequence of pairs into a map, or a sequence or array of values into a set, gives exactly the container obtained by inserting the items one after the other in order, so for a repeated key the last value is kept and the earlier ones are dropped. Every item up to the end of the source is taken from it exactly once and nothing beyond that end is kept, a misleading size hint of the source has no effect, and if the source panics part way every item already taken is dropped exactly once.",
 ["inputs","fault_sequences","programs"],
 "every sequence with repeats and any length, every key shape, every point at which the source fails or lies about its size",
 TESTS+"collect is used with two or three items and never fails.",
 ["src/map.rs","src/set.rs"],
 [("FromIterator by insertion","src/map.rs, src/set.rs: impl FromIterator"),("From<[T; N]>","src/set.rs: impl From")],
 [], ["resulting container, source call counts, ledger"])
p("C16","Concurrent readers see a stable snapshot and never disturb each other",
 "Any number of clients holding shared access to one map or set may look up, iterate, compare, clone, intersect, format, hash and serialize it in any interleaving, including at the points where those operations call back into user code, and each obtains exactly the result it would obtain alone. Reading leaves the container unchanged, and a reader that crashes or abandons its iterator affects no other reader.",
 ["schedules","fault_sequences","histories","programs"],
 "every interleaving of readers at operation, iterator-step and user-callback granularity, every crash point of a reader",
 "All tests are single threaded and never keep two readers in flight.",
 ALLF+["src/set/intersection.rs"],
 [("shared access takes &self and there is no interior mutability","src/map.rs, src/set.rs")],
 [], ["per-client results, contents after every step"])
p("C17","Retain asks once per live entry and keeps exactly the accepted ones",
 "Retain calls the predicate exactly once for every entry present at the start, with that entry's own key and its current value, and never for an absent key. Afterwards exactly the entries the predicate accepted remain, carrying whatever changes the predicate made to them, and the rejected values have been dropped exactly once. An empty container stays empty and the predicate is not called.",
 ["inputs","histories","programs","fault_sequences"],
 "every contents, predicate outcome vector, key shape and set layout, and every predicate call that panics",
 TESTS+"retain is tried with two or three entries and predicates on the value only.",
 ALLF,
 [("retain per slot","fixed-map-derive/src/unit_variants.rs, any_variants.rs; src/map/storage/*.rs; src/set/storage/*.rs")],
 [], ["predicate call trace, contents afterwards, ledger"])
p("C18","Debug output lists exactly the live entries and reports a failing sink",
 "Formatting a map or set with Debug lists exactly its live entries, each once, in traversal order, in the standard map or set notation (also in the alternate multi-line form, and a list for an intersection). If the output sink fails at any write, formatting reports the error, and neither that nor a panic in a value's own formatting changes the container.",
 ["inputs","fault_sequences","programs","histories"],
 "every contents, key shape, format flag and write at which the sink fails",
 TESTS+"Debug is compared for two small maps and never fails.",
 ["src/map.rs","src/set.rs","src/set/intersection.rs"],
 [("debug_map/debug_set over the traversal","src/map.rs, src/set.rs: impl Debug")],
 [], ["formatted text, fmt::Result"])
p("C19","Containers take no more space than the documented layout",
 "A map over a plain enum is exactly an array of optional values and a set over one is exactly an array of flags (or one integer just wide enough in the bitset layout), so their size is known from the number of variants and the value type alone.",
 ["programs"],
 "every key type accepted by the derive and every value type",
 "Sizes are asserted for two types in doc comments.",
 ["fixed-map-derive/src/unit_variants.rs"],
 [("repr(transparent) arrays / integers","fixed-map-derive/src/unit_variants.rs")])
p("C20","The derive rejects unsupported key shapes at compile time",
 "Deriving the key trait for a struct, a union, a generic type, an enum with named or multiple fields per variant, or a bitset over more than 128 variants or over non-unit variants is a compile error with a message at the offending item, and unknown options are reported.",
 ["programs"],
 "every type definition given to the derive",
 "There are no compile-fail tests.",
 ["fixed-map-derive/src/lib.rs","fixed-map-derive/src/context.rs","fixed-map-derive/src/attrs.rs","fixed-map-derive/src/any_variants.rs"],
 [("span_error collection","fixed-map-derive/src/context.rs")])
p("C21","Containers over plain enums are Copy exactly when their contents are",
 "A map or set is Copy when its key has no dynamic part and its values are Copy, and is not Copy otherwise, so value semantics never duplicate ownership.",
 ["programs"],
 "every key and value type",
 "Only positive examples are compiled.",
 ["fixed-map-derive/src/unit_variants.rs","fixed-map-derive/src/any_variants.rs","src/map.rs","src/set.rs"],
 [("conditional Copy impls","fixed-map-derive generated impls")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
