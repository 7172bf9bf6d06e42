#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SE = "bounded symbolic execution of the SSA form of the real code, every branch and assertion decided by an SMT solver (z3, QF_BV/FP)"
MC = "bounded model checking of the real code's SSA form: merged symbolic execution with symbolic context switches, assertions decided by an SMT solver (z3, QF_BV)"
NOTE = ("All values within the bounds printed in the evidence (sizes, operations, threads, rounds) are covered by the solver's verdict; nothing is claimed beyond them. "
        "Trusted: the Go SSA builder, the engine's semantics (cross-checked by re-running solver-found path inputs on the real compiled code) and z3. "
        "A counterexample is reported only after it reproduces on the natively compiled code.")
NOTE_M = (" Schedules: sequentially consistent interleavings of atomic operations, lock operations and unprotected shared accesses, with the stated number of round-robin rounds; weak-memory effects are outside.")

def P(id, title, statement, over, qtext, why, files, mech, tech=SE, note=NOTE, claimed=True, reason="", state=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, claimed=claimed, reason=reason, state=state, observe=observe)

PROPS = [
P("C01", "Vec operations act on a mathematical sequence",
  "From any contents, every operation of Vec that adds, removes, replaces, moves or reads elements (Push, Pop, Insert, Remove, Delete, Replace, Cut, SplitOff, Set, Get, First, Last, Swap, ConpareAndRemove, Reverse, Clear, Range, SliceCut, Slice) has exactly the effect and the results of the operation on an abstract sequence, for every index and value, also when the inserted values are taken from the vector itself. "
  "Arguments out of range change nothing: they are reported by the boolean or empty result, or by a panic for Insert, Delete and Replace. Grow and Clip change only the capacity.",
  ["inputs", "histories"], "all contents, all index and value arguments (full 64-bit range), all short histories of operations",
  "the tests try a few fixed vectors and indices; an error at one boundary index, capacity or self-aliasing argument is not sampled",
  ["vec/vec.go"], [("Vec methods over the slice d", "vec/vec.go")]),
P("C02", "Vec sorting, IsSorted, Min and Max are correct for every order",
  "Sort, SortFunc, SortStable and SortStableFunc leave an ascending permutation of the elements under the order in use, and the stable variants keep equal elements in their original order. "
  "IsSorted tells exactly whether every neighbouring pair is in order; Min and Max return an element that no other element is below or above and leave the vector unchanged.",
  ["inputs"], "all contents up to the bound under a strict weak order on symbolic keys with payloads",
  "permutation and stability must hold for every input order and tie pattern; the tests sort a few fixed slices",
  ["vec/vec.go"], [("comparison adapters around slices.SortFunc and friends", "vec/vec.go: Sort*, IsSorted*, Min*, Max*")]),
P("C03", "Vec search, compaction and comparison agree with their definition",
  "Search and SearchFunc return the first matching position and SearchAll and SearchAllFunc all of them in order, Contains whether there is one; on ascending contents BinarySearch returns the lowest position whose element is not below the target and whether the target is there. "
  "Compact keeps exactly the first element of every run of equal neighbours; EqualVec and EqualSlice are element-wise equality and Compare is the lexicographic order, a proper prefix being smaller.",
  ["inputs"], "all contents up to the bound and all targets",
  "the tests probe one or two targets per function; absent targets, duplicates and boundary positions are not enumerated",
  ["vec/vec.go"], [("search loops, BinarySearch adapter, Compact, Equal*, Compare*", "vec/vec.go")]),
P("C04", "Vec results that are copies stay independent of the vector",
  "What Clone, CloneToSlice, Cut and SplitOff return holds the right elements and shares no storage with the vector: no later operation on either changes the other. A clone or split-off part compares as the vector did, and setting comparators on either does not affect the other.",
  ["inputs", "histories"], "all contents up to the bound, every cut position, every following mutation",
  "aliasing only shows when a particular later mutation reuses the shared storage; the tests look at the result at once",
  ["vec/vec.go"], [("slices.Clone / capacity handling", "vec/vec.go: Clone, CloneToSlice, Cut, SplitOff")]),
P("C05", "Vec default comparators order every supported element type",
  "Without configured comparators, elements of every integer, float and string type, types defined over them and pointers to them are compared by value: numerically for numbers (NaNs first when sorting), by content for string equality and in natural order (digit runs by value) for string order. "
  "A type without a default order makes the comparison panic instead of ordering arbitrarily.",
  ["inputs", "configurations"], "all pairs or triples of values of each supported type",
  "the tests use ints and a few strings; sign, width, NaN and pointer cases need every value of every type",
  ["vec/vec.go"], [("autoDetectSetCmpLess / autoDetectSetCmpEqual by reflection", "vec/vec.go:38-104")]),
P("C06", "Dllist is a sequence, and stale or foreign handles are inert",
  "Every history of insertions, removals, moves, swaps and Clear leaves the list exactly as on an abstract sequence of elements: Len, Front, Back, Get, Slice, Range and Next/Prev from every element agree with it in both directions. "
  "Elements of another list, or removed from this one (also by Clear), never alter any list when passed as argument or used as receiver.",
  ["histories", "inputs"], "all short histories over lists up to the bound, with every choice of element handles, own, foreign or removed",
  "pointer surgery bugs need a particular neighbour configuration (adjacent, first, last, same element); the tests sample a few",
  ["dllist/dllist.go", "dllist/element.go"], [("insert, remove, move, Swap on the circular links", "dllist/dllist.go:80-245")]),
P("C07", "Dllist.Sort leaves a stable ascending permutation",
  "After Sort with any strict weak order the list holds exactly the same values, ascending, equal ones in their previous order, with consistent links in both directions.",
  ["inputs"], "all key orders and tie patterns up to the bound",
  "stability and permutation must hold for every tie pattern; the tests sort a few fixed lists",
  ["dllist/dllist.go"], [("Sort", "dllist/dllist.go: Sort")]),
P("C08", "Dllist bulk pushes copy every value in order, also onto itself",
  "PushBackList and PushFrontList insert copies of the other list's values in order at the end or the front, PushFrontListTo in order directly behind a mark of the receiving list, and PushBackListTo one value after the other directly behind the mark (so that the last one follows it first); the other list is unchanged, pushing a list onto itself doubles it, and marks that are not in the list change nothing.",
  ["inputs", "histories"], "all pairs of lists up to the bound, every mark, the self case included",
  "self insertion and marks at the ends are corner cases the tests do not reach",
  ["dllist/dllist.go"], [("PushBackList*, PushFrontList*", "dllist/dllist.go:179-213")]),
P("C09", "Ring navigation and splicing keep every ring intact",
  "New(n) makes one ring of n elements and the zero Ring is a ring of one; Next, Prev, Move (any number of steps, negative ones too), Len and Do agree from every element. "
  "Link of two rings splices them, Link inside one ring cuts out the elements between, and Unlink(n) removes the n elements that follow (counted modulo the length), each returning the documented element and leaving well-formed rings.",
  ["inputs", "histories"], "all ring sizes, positions and step counts up to the bound",
  "step counts modulo the length and links between every pair of positions are not enumerated by the tests",
  ["ring/ring.go"], [("Link, Unlink, Move", "ring/ring.go")]),
P("C10", "Heap operations keep the heap order and exactly their elements",
  "Init turns any contents into a heap; on a heap, Push, Pop, Remove and Fix keep the heap order and exactly the other elements, Pop returns a minimum and Remove the element at the index. "
  "MinHeap pops ascending and MaxHeap descending, every pushed element exactly once.",
  ["inputs", "histories"], "all contents satisfying the heap order up to the bound, every index, every new key",
  "an error in a sift direction shows only for particular shapes and keys; the tests use a few fixed heaps",
  ["heap/heap.go"], [("up, down, Remove, Fix", "heap/heap.go")]),
P("C11", "PQueue pops priorities in order, each item once with its value",
  "After any history of pushes and pops, Pop on a max (min) priority queue returns an item whose priority no queued item exceeds (falls below), together with the value it was pushed with; every item is popped exactly once and Len counts those left.",
  ["inputs", "histories"], "all priorities (full range), all push and pop interleavings up to the bound",
  "tie and ordering errors depend on the relative order of several priorities; the tests push one fixed sequence",
  ["pqueue/pqueue.go", "heap/heap.go"], [("Less by max or min, Push, Pop", "pqueue/pqueue.go")]),
P("C12", "Set operations compute the set-theoretic result",
  "For all sets and every element, Union, Intersection, Difference and SymmetricDifference contain it exactly when set theory says so and leave the operands unchanged; IsSubSet, IsSupperSet and Equal are inclusion, reverse inclusion and equality. "
  "Insert, Push, Remove, ContainAndRemove, Clear, Clone and CopyFrom act as on a mathematical set, their boolean results telling whether the element was added or was present; Len, Slice and Range show each element once.",
  ["inputs", "histories"], "all pairs of small sets over symbolic elements, all short histories",
  "the tests compute one or two fixed examples per operation; asymmetric or empty operands are not covered",
  ["set/set.go"], [("Set methods over the underlying map", "set/set.go")]),
P("C13", "GenMap behaves as a map for every key, value and history",
  "From any map, Store, Load, LoadOrStore, LoadOrStoreFunc, LoadAndDelete, LoadAndStore, Delete, DeleteFunc, Clear, Clone and the copy operations have exactly the effect and results of the operation on an abstract map, for every key, and EqualFunc decides equality of maps under the given value equality. "
  "Keys, Values, Range and Len show every entry exactly once, and a Clone is independent of its original.",
  ["inputs", "histories"], "all small maps over symbolic keys and values, all short histories",
  "return values in the present and absent case for colliding and distinct keys are not enumerated by tests",
  ["genmap/genmap.go"], [("GenMap methods", "genmap/genmap.go")]),
P("C14", "Lhashmap is a map that iterates most recently used first",
  "Every history of Store, Load, Remove and Clear behaves as a map: Load returns the last stored value and whether the key is present, Len the number of keys. "
  "Range visits every entry exactly once, most recently stored or loaded first, and stops when told to.",
  ["histories", "inputs"], "all short histories over symbolic keys and values",
  "the order depends on the whole history; the tests check a fixed one",
  ["lhashmap/lhashmap.go"], [("hash index plus list of entries", "lhashmap/lhashmap.go")]),
P("C15", "HashRing owners are members, determined by the member set alone",
  "After any history of AddNodes, RemoveNodes and ResetNodes, GetNode returns a current member for every key (the zero value only when there is none): the one owning the first replica point at or after the key's hash, wrapping round, where replica i of node n lies at the CRC-32 of \"n-i\" and a key k at that of \"k-0\". "
  "Rings with the same members and replica count agree on every key, whatever order, batches and removals led to them, also when hashes collide.",
  ["histories", "inputs"], "all placements of replica points and keys on the circle (CRC-32 as an arbitrary function), all short histories, both internal iteration orders",
  "collisions of a key's or replica's hash with another point are one in 2^32 for any sample, yet certain to occur over many keys; iteration order varies from run to run",
  ["hashring/hashring.go"], [("sorted replica points and binary search", "hashring/hashring.go: AddNodes, GetNode")]),
P("C16", "HashRing changes move only the keys they must",
  "Adding a member moves keys only to that member; removing a member moves only the keys it owned, and adding it back gives them back. Adding a present member or removing an absent one moves nothing.",
  ["histories", "inputs"], "all placements of replica points and keys (CRC-32 as an arbitrary function), every member changed",
  "minimal disruption is a statement over all keys and placements; the tests never compare owners before and after",
  ["hashring/hashring.go"], [("AddNodes, RemoveNodes, ResetNodes rebuild the points", "hashring/hashring.go")]),
P("C17", "Tree construction, traversals and measures agree with the shape",
  "BuildTree lays values out level by level as a complete binary tree; for every tree shape and starting node TraversalDFS visits the subtree once in pre-order and TraversalBFS level by level from left to right, an empty tree having no nodes. "
  "MaxDepth is the number of edges to the deepest leaf below and Layer the number of edges to the root. DrawTree shows the same levels, each on its own line.",
  ["inputs"], "all binary tree shapes up to the bound, every node",
  "the tests build one or two balanced trees; right-only and degenerate shapes are not enumerated",
  ["tree/tree.go"], [("BuildTree, Traversal*, MaxDepth, Layer", "tree/tree.go")]),
P("C18", "Tree links and relations are consistent for every pair of nodes",
  "SetLeft and SetRight return the replaced child, detach it and attach the new one (a detached root, nil, or again the same child), so that parent and child links always agree. "
  "Every predicate and relative (IsRoot, IsLeaf, IsLeft, IsRight, Has*, Sibling, Uncle, Grandparent and the Is*Relation tests between two nodes) agrees with those links; IsAncestorRelation(x) is true exactly for x itself and nodes below it, IsDescendantRelation(x) exactly for nodes below.",
  ["inputs", "histories"], "all shapes up to the bound, every pair of nodes, also of different trees, after every relinking",
  "relations are tested for a handful of pairs; wrong answers for unrelated nodes or one-child parents go unseen",
  ["tree/tree.go"], [("link updates and relation predicates", "tree/tree.go")]),
P("C19", "RWMap used by one goroutine behaves as a plain map",
  "In every history, from any state the map can be in, Load, Store, Swap, LoadOrStore, LoadAndDelete, Delete, CompareAndSwap, CompareAndDelete, Clear and Range have exactly the effect and results of the operation on an abstract map, and Len and SlowLen are the number of keys present.",
  ["histories", "inputs"], "all short histories over symbolic values, from every internal situation (promotion, deleted and expunged entries, accumulated misses, clearing)",
  "the internal read/dirty machinery has many states; the tests walk one short path",
  ["rwmap/rwmap.go"], [("read map, dirty map, miss counting, expunging", "rwmap/rwmap.go")]),
P("C20", "RWMap is linearizable",
  "Under every interleaving of concurrent Load, Store, Swap, LoadOrStore, LoadAndDelete, Delete, CompareAndSwap, CompareAndDelete and Clear, from any internal state of the map, the results of the operations and the contents left behind are those of some sequential order of the operations that respects the order in which non-overlapping operations ran; no operation deadlocks or panics.",
  ["schedules", "inputs"], "all interleavings of two goroutines, with one operation each or two against one, and of three with one each, over symbolic values and from every internal situation of the map",
  "the tests cannot force the interleavings in which promotion, expunging and deletion meet",
  ["rwmap/rwmap.go"], [("atomic entries, read map, dirty map under the mutex", "rwmap/rwmap.go")], tech=MC, note=NOTE + NOTE_M),
P("C21", "RWMap.Len is exact once operations are done",
  "Whatever concurrent operations ran, under every interleaving, Len is the number of keys present as soon as no operation is in progress.",
  ["schedules", "inputs"], "all interleavings of two goroutines with one operation each, over symbolic values and from every internal situation of the map",
  "a lost or doubled count needs an exact interleaving of insertion, deletion or clearing",
  ["rwmap/rwmap.go"], [("atomic length counter updated by every operation", "rwmap/rwmap.go: len, Len")], tech=MC, note=NOTE + NOTE_M),
P("C22", "RWMap.Range visits every stable key once",
  "Range passes every key that is present and unmodified throughout the call exactly once with its value, passes no key twice, and passes no key that is absent throughout; this holds also when the callback itself or other goroutines store and delete meanwhile, and the map stays consistent.",
  ["histories", "inputs", "schedules"], "all modifications at any point of the iteration, from every internal situation",
  "the interplay of iteration with promotion and deletion depends on the exact point of the modification",
  ["rwmap/rwmap.go"], [("Range promotes the dirty map and iterates it", "rwmap/rwmap.go: Range")], tech=SE + "; interleavings with another goroutine as " + MC, note=NOTE + NOTE_M),
P("C23", "SyncCache returns an entry exactly until it expires",
  "In every history and for every clock, an entry is found by Load, LoadOrStore, LoadAndDelete, CompareValueAndDelete and Range exactly until its lifetime (as stored, or moved by AddExpiration or SetExpiration) has passed, to the resolution of a millisecond; a stored value replaces an expired one. "
  "Otherwise the operations act as on a map, and CompareAndDelete removes exactly the entry it is given.",
  ["histories", "inputs"], "all lifetimes (also zero and negative), all times between operations, all short histories",
  "expiry boundaries are single instants in real time; the tests sleep once",
  ["synccache/synccache.go", "synccache/item.go"], [("lazy expiry on access", "synccache/synccache.go"), ("millisecond deadlines", "synccache/item.go")]),
P("C24", "SyncCache calls back exactly once per removed entry",
  "With a deletion callback, every entry that is deleted, cleared, or found expired by an access or by the periodic background cleaning is reported exactly once with its value; entries still present or replaced by Store are not. "
  "A background pass removes exactly the expired entries of every started cache and leaves closed caches alone until they are started again.",
  ["histories", "inputs"], "all short histories, lifetimes and clocks, background passes included",
  "the tests set no callback and never wait for the background pass",
  ["synccache/synccache.go"], [("deletedCallback on every removal path", "synccache/synccache.go"), ("trim loop", "synccache/synccache.go: runTrim, trim")]),
P("C25", "SyncCache stays correct under concurrency",
  "Under every interleaving of concurrent operations on a key that is absent, alive or expired, the results are those of some order of the operations on a map that holds live entries only: no expired entry is returned or loaded, no removed entry comes back, and a fresh entry is never removed in place of an expired one, also not by the background cleaning. Deadlines moved concurrently all count, and an access sees the one before or after. "
  "With a deletion callback every entry put in is still present, was overwritten by a Store, or has been reported exactly once.",
  ["schedules", "inputs"], "all interleavings of two goroutines with one operation each, or two against one, or beside a background pass, over an entry that is absent, live or expired",
  "the windows between the expiry check and the removal are a few instructions wide",
  ["synccache/synccache.go", "synccache/item.go"], [("expired entries are removed by compare-and-delete", "synccache/synccache.go")], tech=MC, note=NOTE + NOTE_M),
P("C26", "RefreshCache serves a value exactly while it is fresh",
  "In all three variants and for every clock and maximum age, Get returns the most recent refreshed value without refreshing exactly while its age is below the maximum (forever when the maximum is negative), and otherwise calls the refresh function once and returns and caches its result; before a first refresh nothing is fresh, however large the maximum age. "
  "Refresh always refreshes, and the age counts from the end of the refresh; while a refresh runs, what is still fresh is served without waiting for it.",
  ["histories", "inputs"], "all clocks, ages and refresh durations (64-bit nanoseconds), all short histories",
  "freshness boundaries are single nanoseconds and extreme ages; the tests use one age and sleeps",
  ["refreshcache/refreshcache.go", "refreshcache0/refreshcache0.go", "refreshcache1/refreshcache1.go"], [("Get, Refresh with last and maxAge", "refreshcache*/refreshcache*.go")]),
P("C27", "RefreshCache caches errors for the error age only",
  "A refresh error is returned to the caller and, if an error age is set, returned again without refreshing exactly while its age is below it; an error invalidates the cached value, a success clears the error, and without error age every Get after an error refreshes. "
  "Last and LastErr (LastTime and LastErrTime as times) and Raw report the same state without refreshing, Raw the most recent value with the error of the last refresh (none if it succeeded) when neither is fresh.",
  ["histories", "inputs", "fault_sequences"], "all sequences of successes and failures, all clocks and ages",
  "the tests do not exercise failures over time",
  ["refreshcache/refreshcache.go", "refreshcache0/refreshcache0.go", "refreshcache1/refreshcache1.go"], [("lastErr, errAge, err", "refreshcache*/refreshcache*.go: Get, Raw")]),
P("C28", "RefreshCache refreshes one at a time and shares the result",
  "Under every interleaving of concurrent Get, Refresh, Clear and Raw calls, in all three variants, the refresh function never runs twice at once, concurrent Gets that find nothing fresh share one successful refresh (or one cached error), a panic reaches only the caller whose refresh it was, Get returns only what was fresh or the result of a refresh that ran meanwhile, every Refresh returns its own result, and the result of the last refresh is what stays cached.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings of two or three goroutines with one operation each, with successful, failing and panicking refreshes, from an empty, fresh, expired or failed cache",
  "the tests cannot force a reader between the stores of a refresh, or two readers into the same refresh",
  ["refreshcache/refreshcache.go", "refreshcache0/refreshcache0.go", "refreshcache1/refreshcache1.go"], [("double-checked freshness around the lock; data stored before its time", "refreshcache*/refreshcache*.go: Get, Refresh")], tech=MC, note=NOTE + NOTE_M),
P("C29", "RefreshCache clearing, arguments, previous value and panics",
  "Clear makes the next Get refresh (already one made by the clear function, and also when that panics), and calls the configured clear function once, returning its error; refresh and clear functions receive the caller's arguments and see the most recent successful value under OldValKey. "
  "A refresh function that panics propagates to the caller, leaves the cache usable, and changes neither the cached value nor its freshness; SetRefreshFunc and SetClearFunc take effect for the next call.",
  ["histories", "inputs", "fault_sequences"], "all short histories of gets, refreshes, clears, replacements and panics over symbolic clocks and values",
  "the tests never clear, panic, or read the previous value",
  ["refreshcache/refreshcache.go", "refreshcache0/refreshcache0.go", "refreshcache1/refreshcache1.go"], [("Clear, OldValKey, deferred result update", "refreshcache*/refreshcache*.go")]),
P("C30", "The concurrent containers have no data races",
  "No two operations of RWMap, of SyncCache and its entries, or of the refresh caches, called from different goroutines on the same object, ever access the same memory unsynchronised with one of them writing (a data race in the sense of the Go memory model).",
  ["schedules", "inputs"], "all pairs of operations and all their interleavings, from every internal situation",
  "the race detector only sees the accesses of executions that happened",
  ["rwmap/rwmap.go", "synccache/synccache.go", "synccache/item.go", "refreshcache/refreshcache.go", "refreshcache0/refreshcache0.go", "refreshcache1/refreshcache1.go"], [("atomics and locks on every shared field", "rwmap, synccache, refreshcache*")], tech=MC, note=NOTE + NOTE_M),
]

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["claimed"]:
            m["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                                "technique": p["tech"], "level": "model_checking", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
