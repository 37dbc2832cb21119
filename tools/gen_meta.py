#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when the tables below change)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

def mech(*a): return [{"name": n, "where": w} for n, w in a]
S, H, I, C, F = "schedules", "histories", "inputs", "configurations", "fault_sequences"
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, level_note=None):
    a = {"files": files, "mechanism": mechanism}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
               "why_tests_cant": why, "anchors": a}, level_note))

G = "src/tree/generic.rs"; L = "src/leaf24.rs"; N = "src/internode.rs"; V = "src/nodeversion.rs"
prop("C01", "Concurrent lookups and inserts on a key are linearizable",
 "Every lookup and insert takes effect at one instant between its call and its return: a lookup returns the value some insert for that same key stored, never one already overwritten before the lookup began, never one whose insert starts after the lookup ended, and reports absence only if no insert for the key had completed. This holds for every way of looking up (owned, under a guard, by reference) and for any number of readers and writers, without external locking.",
 [S, H, F], "every interleaving of up to 4 threads' operations on contended keys, with threads stalled at arbitrary points",
 "the tests run real threads a few times and look at final states; the windows (a reader between reading a slot and validating the version) are a few instructions wide",
 [G, L, V], mech(("optimistic read protocol", G + ": get_concurrent_generic, get_ref_generic, reach_leaf_concurrent_generic"), ("locked insert", G + ": insert_concurrent_generic"), ("version word", V)),
 [("node version", "counts modifications; a dirty bit marks a modification in progress")], "return values of get/get_with_guard/get_ref/insert/insert_with_guard")
prop("C02", "No acknowledged key is lost while the tree grows",
 "Once an insert has returned, the key stays findable by every later lookup, whatever splits, new levels and new layers other inserts are causing at that moment. After all threads have finished, every inserted key is present with its last value, and nothing else is.",
 [S, I, H, F], "every interleaving of lookups and inserts with leaf splits, internal splits, root growth and layer creation; key sets that put splits at every position",
 "a key is lost only if a particular split position or a particular instant of a split meets a particular lookup; the tests sample a few key sets and leave the schedule to the machine",
 [G, L, N, "src/tree/split/propagation.rs", "src/link.rs"], mech(("leaf split and sibling links", L + " split functions, src/link.rs"), ("separator propagation", "src/tree/split"), ("root growth", G)), None, "get after insert; full scan by key after the threads joined")
prop("C03", "Distinct keys never alias",
 "Two keys that differ in any byte or in length, including zero bytes at the end, keys that are prefixes of each other, and keys equal in their first 8, 16 or more bytes, are always distinct entries: an operation on one never reads, writes, creates or hides the other. Equal keys are always the same entry.",
 [I, S, H], "keys of 0 to 256 bytes built to collide in their first slices, in every order of insertion and concurrently",
 "the key space is unbounded and what goes wrong depends on combinations (order of insertion, leaf occupancy, a split at that slice, a concurrent layer creation)",
 ["src/key.rs", "src/suffix.rs", L, G], mech(("slices and lengths", "src/key.rs"), ("suffix storage", "src/suffix.rs"), ("layers", G + ": create_layer_concurrent_generic")), None, "values carry the key they were inserted under")
prop("C04", "Overwrites hand every value back exactly once",
 "Inserting over an existing key returns exactly the value it replaced: over any history, the returned previous values of one key form a single chain from the first insert (which returns nothing) to the final value, with no value returned twice or skipped.",
 [S, H], "every interleaving of overwrites of the same keys, with splits and layer creations moving those keys",
 "needs two overwrites of one key inside each other's windows; the tests check counts at the end",
 [G, L], mech(("replace under the leaf lock", G + ": insert_concurrent_generic, Found"), ("moving values between nodes", L)), None, "return values of insert")
prop("C05", "The reported size is the number of keys",
 "Whenever no insert is in progress the reported length is exactly the number of distinct keys, and the map is reported empty only when it holds no key. While inserts run, the emptiness test never reports a map empty in which an insert has already completed.",
 [S, H], "every interleaving of inserts (new and overwriting, concurrent first inserts of one key, conflict-layer creations) with len and is_empty",
 "double counting needs two threads racing on the same new key, a wrong is_empty needs the root caught inside a split",
 [G, "src/tree.rs"], mech(("count of entries", G + ": count.fetch_add sites"), ("is_empty", "src/tree.rs / " + G)), None, "len, is_empty during and after the run")
prop("C06", "References stay valid for as long as their guard",
 "A reference or value obtained under a guard stays readable and unchanged until that guard is dropped, even if the key is overwritten, moved by a split or pushed down a layer meanwhile, and memory still reachable by any guard is never freed or reused. A guard that belongs to another map, and so protects nothing here, is refused before anything is read or changed.",
 [S, H, F, C], "every interleaving of holding readers with overwriting writers; allocators that reuse freed memory at once; kernels with and without membarrier; weak memory",
 "freed memory usually still holds the old bytes, so a test passes although it read freed memory; the window needs a reader stalled across a reclamation",
 [G, L, "src/value.rs", "src/slot.rs", "src/alloc24.rs"], mech(("guards and deferred retirement", G + ": guard(), defer_retire sites"), ("protected loads", L + ": leaf_value_ptr, ksuf")), None, "every access of the library to the heap; the values behind references")
prop("C07", "Every value is dropped exactly once and nothing is leaked",
 "Each inserted value is destroyed exactly once: never while the map, a guard or a caller can still reach it, and at the latest when the map and all handles to it are gone. After the map is dropped all memory it allocated has been freed.",
 [S, H, I], "every history of inserts, overwrites, conflicts and splits, single-threaded and concurrent, ending in a drop of the map",
 "leaks and double drops depend on which path an insert took (retry after split, conflict, overwrite); the tests count drops on a few paths",
 [G, L, "src/alloc24.rs", "src/suffix.rs", "src/tree.rs"], mech(("ownership of values", G + ", src/value.rs"), ("teardown", "src/alloc24.rs: teardown"), ("retirement", "defer_retire sites")), None, "drop counts of values; allocations alive after the drop")
prop("C08", "Operations always make progress",
 "No schedule deadlocks or livelocks: whenever the threads that hold internal locks are allowed to run, every lookup and insert finishes within a bounded number of steps. A thread stalled outside an operation never blocks the others.",
 [S, F], "every interleaving and every choice of stalled threads that are later resumed, with contention on splits, layers and the root",
 "a deadlock or endless retry needs a particular schedule; a test that happens not to meet it passes",
 [G, V, "src/tree/split", "src/internode.rs"], mech(("lock order leaf to parent", "src/tree/split/propagation.rs"), ("retry loops", G), ("sibling walk limit", G + ": advance_to_key_by_bound_generic")), None, "steps per operation; all threads blocked")
prop("C09", "Valid operations never fail or panic",
 "Inserting any key of 0 to 256 bytes succeeds and never reports an internal error, and no operation panics or aborts, whatever the tree's shape and whatever other threads do. Keys over the limit are refused, by lookups and inserts alike, and a refused operation changes nothing and disturbs no other operation.",
 [S, I, H, F], "every interleaving of valid operations, in trees of one to three internal levels and many layers; refused operations in between",
 "internal errors such as a failed split propagation occur only in particular races while the tree grows",
 [G, "src/tree.rs", "src/tree/split", "src/key.rs"], mech(("insert errors", "src/tree.rs: InsertError"), ("split propagation", "src/tree/split/propagation.rs"), ("key limit", "src/key.rs")), None, "results of insert; panics")
prop("C10", "Garbage stays bounded",
 "Replaced values and superseded internal memory are reclaimed while the map is in use: once guards are released, the amount of retired but unreclaimed memory is bounded by the number of threads and the reclamation batch size, however long the map is overwritten, and the memory the map holds stays proportional to the entries it holds, however often its nodes were split and their slots reused. Dropping the map reclaims the rest.",
 [S, H, C], "long overwrite histories with guards held and released, thread counts and batch sizes varied",
 "a leak of garbage shows only over long histories and particular guard overlaps",
 [G, L, "src/alloc24.rs"], mech(("deferred retirement", "defer_retire sites in " + G + ", " + L)), None, "retired and reclaimed objects over time; the largest block and all memory held when the run ends")
prop("C11", "No data races",
 "No two threads ever access the same memory location at the same time without synchronisation when one of them writes and one of the accesses is not atomic, in any execution of the public operations on a shared map.",
 [S, H], "every pair of accesses of every explored execution, ordered by happens-before under the C++11/Rust rules",
 "a data race is undefined behaviour that ordinarily leaves no trace in the result; the tests do not look for it",
 [L, N, "src/suffix.rs", G, "src/alloc24.rs"], mech(("atomics and their orderings", "src/ordering.rs and every atomic field"), ("publication of new nodes", "src/tree/split, " + L)), None, "vector clocks over all instrumented accesses")
prop("C12", "Correct under the weak memory model, not only on x86",
 "All of the map's guarantees hold under the memory model Rust promises, in which a load may return a value older than the newest one unless synchronisation forbids it: in particular on weakly ordered processors, and on kernels without process-wide memory barriers.",
 [S, H, C, F], "every interleaving, with every load free to return any older value that the release/acquire rules allow",
 "the tests run on x86, whose hardware never shows most of the reorderings the orderings in the code must exclude",
 [V, L, N, G, "src/ordering.rs", "src/permuter24.rs"], mech(("acquire/release pairs", "src/ordering.rs, " + V), ("validation after reading", V + ": has_changed*")), None, "as C01, C02, C04 to C07 on weak-memory executions")
prop("C13", "Copied-value maps behave like the shared-value map",
 "The variants that store small copyable values inline give the same answers as the map of reference-counted values for every history: values come back whole, never mixed from two values, and never taken for internal pointers, whatever their bits.",
 [S, I, H], "every interleaving and history of the other properties on the inline variants, including the values 0 and all ones",
 "an inline value shares its slot with layer pointers: confusion needs a value with a particular bit pattern or a reader in a particular window",
 ["src/slot.rs", "src/value.rs", G, L], mech(("slot encoding", "src/slot.rs, src/value.rs"), ("layer marker", L + ": keylenx")), None, "return values of the inline variants")
prop("C14", "The version lock excludes writers and exposes changes to readers",
 "At most one thread holds a node's lock at a time; everything written under it is visible to the next holder; a reader whose validation succeeds has seen no part of a concurrent modification; and version numbers only move forward.",
 [S, H], "every interleaving of lockers, try-lockers and validating readers on one version word, also under weak memory",
 "a violation needs two threads inside the compare-and-swap loop or a validation between two stores",
 [V], mech(("lock, try_lock, guard drop", V), ("stable, has_changed, has_split", V)), None, "a record protected by the lock, written and read through the public lock API")
prop("C15", "Threads and maps can come and go",
 "Threads may start, end and be replaced at any time while the map is in use, a guard or value may outlive the thread that made it, several maps may live side by side, and maps may be created and dropped while others are used: no such event changes an answer, leaks, frees early or blocks another map.",
 [S, H, F], "every interleaving of thread starts, exits, thread id reuse, map creation and drop",
 "thread-exit and id-reuse windows are rarely hit by tests that join all their threads at the end",
 [G, "src/tree.rs", "src/alloc24.rs"], mech(("one collector per map", "src/tree.rs"), ("guards", G + ": guard()")), None, "all of the above with short-lived threads")
prop("C16", "Immediate reuse of freed memory changes nothing",
 "Answers, drops and references are the same whatever the allocator does: in particular when freed memory is handed out again at once, possibly for the same kind of object at the same address.",
 [S, H, C], "every interleaving, with an allocator that reuses the most recently freed block of the size class first",
 "ABA and use-after-free bugs stay invisible while the allocator happens not to reuse an address",
 [G, L, "src/alloc24.rs", "src/suffix.rs"], mech(("retirement before reuse", "defer_retire sites"), ("address comparisons", G + ": ptr::eq sites")), None, "as C01, C06, C07 with reuse")
prop("C17", "Destructors of values may use the map",
 "The destructor of a stored value may itself look keys up in the same map, on whatever thread and at whatever moment the map runs it: it is never run while the map holds a lock or is inside a modification the lookup would wait for, so the lookup finishes, answers as any other lookup does, and the operation or guard release during which it ran is unaffected.",
 [S, H], "every interleaving of overwriting writers and guard releases, with destructors that look keys up in the map, also under weak memory",
 "destructors run inside whichever operation happens to reclaim a batch; a deadlock needs that operation to be inside a node the destructor visits",
 [G, L, "src/alloc24.rs"], mech(("retirement after unlocking", G + ": defer_retire sites"), ("reclamation at guard release", "seize, called from " + G)), None, "lookups made by destructors; steps per operation")
prop("C18", "Lookups never keep anybody waiting",
 "A thread that is suspended for good at any point inside a lookup (get, get_with_guard, get_ref, len, is_empty), or while it holds a guard or references obtained under it, keeps no other thread from finishing any operation: all other lookups and inserts complete, with the answers they would have given anyway, and the suspended lookup itself finishes correctly should it ever be resumed.",
 [S, H], "every point at which a reader can be stopped, against every interleaving of the other threads",
 "the window in which a reader would hold something others wait for is a few instructions on a rarely taken path; tests never suspend a thread for good",
 [G, L, V], mech(("optimistic reads validated by versions", G + ": get_concurrent_generic"), ("reservation-free retirement", "seize, called from " + G)), None, "progress of the other threads; lookups' answers")
prop("C19", "The way to a key stays short",
 "When no insert is in progress, a lookup touches a number of nodes that grows with the logarithm of the number of keys in each layer it passes and with the number of layers its key shares with other keys (one per eight shared leading bytes), never with the number of keys: whatever the order, the interleaving and the shape of the inserts that built the map, every node is reachable through its parents and no lookup walks along a chain of siblings.",
 [S, H], "every order and interleaving of splits, promotions and layer creations that builds the map",
 "answers stay right when an index entry is missing, because siblings are linked; only the distance shows it",
 ["src/tree/split/propagation.rs", "src/tree/split/root_creation.rs", G], mech(("separator propagation to the parent", "src/tree/split/propagation.rs: propagation_loop"), ("root and layer-root promotion", "src/tree/split/root_creation.rs, " + G + ": maybe_parent_generic")), None, "distinct heap blocks a quiescent lookup touches")
prop("C20", "Reading a value comes after writing it",
 "Whatever a thread did before it inserted a value happened before the return of every call, in any thread, that hands that value out (get, get_with_guard, get_ref, or the previous value an insert returns): a value, also a plain number in the inline map, can be used to publish data, without any other synchronisation between the threads.",
 [S, H], "every interleaving of inserts and lookups, every memory order the code asks for",
 "on x86-64 every load and store is ordered enough by the hardware, and the answers themselves stay right; only the ordering guarantee is gone",
 ["src/leaf24.rs", "src/ordering.rs", G, V], mech(("value slots are stored with release and loaded with acquire or stronger", "src/leaf24.rs: set_leaf_value_ptr, leaf_value_ptr"), ("version lock", V)), None, "vector clocks at invocation and response of the client operations")
prop("C21", "A stalled insert holds up only its neighbourhood",
 "A thread suspended for good at any point inside an insert keeps nobody from working elsewhere in the map, that is, on keys whose first eight bytes lie at least two leaves away in the uppermost layer: whether it replaces the value of a key or adds a key to an existing lower layer, splits of that layer included, every lookup and every overwrite elsewhere completes, and, if it replaces a value, so does every insert of a new key elsewhere (apart from operations that run into another insert which splits an inner node on their way); and the suspended insert itself finishes correctly should it ever be resumed.",
 [S, H], "every point at which a writer can be stopped, against every interleaving of the other threads",
 "tests never suspend a thread for good, and a lock that is held too long or for too many keys gives right answers",
 [G, L, "src/leaf24.rs", V, "src/alloc24.rs"], mech(("one lock per node, taken for one leaf or for the path that splits", G + ": insert_concurrent_generic, handle_leaf_split_generic"), ("layers are separate trees below the leaf that links them", G + ": insert_concurrent_generic")), None, "progress and answers of the other threads")
prop("C22", "A leaf's entries are published whole and a frozen leaf stands still",
 "Used through the public leaf trait: a slot claimed by exchanging its value belongs to its claimant until he publishes or releases it; an exchange of the permutation makes the entry visible with the key and the value its claimant wrote, once, or fails and leaves no trace; from the moment the lock holder has frozen the permutation until it is unfrozen, or its guard is dropped, no publication succeeds, no reader obtains a permutation, and the snapshot contains exactly what had been published and not taken out; unfreezing installs the given permutation and dropping the guard restores the old one; waiting readers go on afterwards.",
 [S, H], "every interleaving of publishers, freezing lock holders and readers on one leaf, also under weak memory",
 "the unit tests freeze and publish on one thread; the guarantees are about what others do in between",
 ["src/leaf24/freeze.rs", "src/leaf24/cas.rs", "src/freeze24.rs", "src/permuter24.rs", "src/leaf24.rs", "src/leaf_trait.rs"], mech(("freeze sentinel in the permutation word", "src/leaf24/freeze.rs: freeze_permutation, FreezeGuard24"), ("publication by compare-exchange", "src/leaf24/cas.rs: cas_permutation_raw")), None, "entries seen by validated reads and by lock holders")
EXTRA = os.path.join(R, "tools", "extra_props.py")
if os.path.exists(EXTRA): exec(open(EXTRA).read())

TECH = "deterministic simulation with fault injection: seeded search over schedules, stalls, stale reads and environment faults of the real code, histories checked against a reference map"
NOTE = "Seeded exploration, not exhaustive: the property held in every simulated execution of the real (sanitizer-instrumented) library code; schedules, faults, keys and machine settings are drawn from the seed. Trusts the simulator's runtime (memory model, happens-before, arena) and the oracle."
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p, _ in P: f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": "exploration", "level_note": n or NOTE} for p, n in P],
     "not_applicable": []}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1); open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
