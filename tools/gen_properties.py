#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text has one source)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
G="src/tree/generic.rs"
p("M01","Concurrent lookups and inserts are linearizable",
 "Every concurrent history of inserts and lookups on one tree can be explained by executing each operation atomically, at one instant between its call and its return, on a map from byte strings to values. In particular a key whose insert has returned is found by every later lookup, and a lookup never returns a value that was not stored under exactly that key.",
 ["schedules","histories"],"every interleaving of every finite set of concurrent insert/lookup calls, from every reachable tree shape (full leaves, full internodes, sublayers, promoted layer roots)",
 "Stress tests run a few free-running threads and check only final contents or monotone reads; they reach a handful of interleavings and never the windows of a few instructions inside a locked update, a layer conversion or a separator insertion.",
 ["src/tree/generic.rs","src/leaf24.rs","src/nodeversion.rs","src/internode.rs","src/tree/split/propagation.rs","src/tree/split/root_creation.rs"],
 [("optimistic read with version validation",G+":get_concurrent_generic, get_ref_generic"),("locked insert with post-lock bound check",G+":insert_concurrent_generic"),("right-sibling walk",G+":advance_to_key_by_bound_generic"),("hand-over-hand split propagation","src/tree/split/propagation.rs")],
 [("leaf permutation","which slots are live, in key order","src/leaf24.rs"),("node version word","lock/dirty bits and modification counters","src/nodeversion.rs")],
 ["call and return of insert/get/get_with_guard/get_ref"],"yield points at every atomic access (cfg masstree_verif)")
p("M02","Insert returns exactly the value it replaced",
 "Each insert returns the value its own store replaced: nothing for the first insert of a key, otherwise the value stored by the insert that immediately preceded it on that key. Over any concurrent history every stored value is reported as replaced by at most one insert, and exactly the last one per key is never reported and stays readable.",
 ["schedules","histories"],"every interleaving of inserts racing on the same keys, including keys that are concurrently moved by a split or pushed down into a new layer",
 "Tests look at the return value of sequential updates; racing updates of the same key across splits and layer creation are only checked for the final value.",
 ["src/tree/generic.rs","src/slot.rs","src/value.rs"],
 [("value swap under the leaf lock",G+":insert_concurrent_generic Found"),("layer creation re-homes the existing entry",G+":create_layer_concurrent_generic")],
 (),["return value of insert; final lookup of every key"],"yield points at every atomic access (cfg masstree_verif)")
p("M03","Keys of every shape behave as distinct map keys",
 "For every sequence of inserts and lookups with any byte-string keys of 0 to 256 bytes, lookups and insert results equal those of a plain map keyed by the exact byte string. Keys that differ only in length, in trailing zero bytes, in where they cross an eight-byte boundary, or that are prefixes of one another never alias, hide or displace one another, whatever splits and layers they cause.",
 ["inputs","histories"],"every finite sequence of insert/lookup operations over every set of byte-string keys up to the length limit, in every insertion order",
 "Property tests use random keys, which almost never share an eight-byte slice and so never put a same-slice group on a split boundary or chain several layers.",
 ["src/tree/generic.rs","src/key.rs","src/leaf24.rs","src/suffix.rs"],
 [("slice + length-class search",G+":search_for_insert_generic"),("twig chain for long shared prefixes",G+":create_layer_concurrent_generic"),("split point keeps same-slice keys together","src/leaf24.rs:calculate_split_point")],
 [("length class","inline length 0-8, suffix, or layer","src/leaf24.rs keylenx")],
 ["return values of insert/get"],None)
p("M04","The entry count equals the number of distinct keys",
 "Whenever no insert is in progress, the reported length equals the number of distinct keys inserted so far, and the tree reports itself empty exactly when that number is zero. Updates, failed or rejected calls, splits and layer creation never change it on their own.",
 ["schedules","histories","inputs"],"every history of inserts (concurrent or not) observed at every quiescent point",
 "Tests compare the length after a few fixed workloads; the count is bumped on several separate paths (new entry, alternative slot, layer creation) whose combinations under contention are unsampled.",
 ["src/tree/generic.rs","src/tree/index.rs"],[("count bump after publication",G+":insert_concurrent_generic")],
 [("count","number of keys","src/tree.rs count")],["len, is_empty at quiescence"],None)
p("M05","All lookup variants and storage modes agree",
 "At any moment without concurrent writers, owned lookup, guard-based lookup and by-reference lookup of the same key return the same answer. Running the same operations against the shared-pointer tree, the inline-value tree and the index wrapper gives the same results at every step, and under concurrency each variant separately satisfies the map semantics.",
 ["inputs","histories","schedules","configurations"],"every operation sequence, every key, every lookup variant and every storage configuration; and every interleaving for the by-reference variant",
 "The variants are separate copies of the same algorithm; tests exercise mostly the owned lookup of one configuration.",
 ["src/tree/generic.rs","src/tree/index.rs","src/tree.rs","src/slot.rs","src/value.rs"],
 [("duplicate lookup loops",G+":get_concurrent_generic / get_ref_generic"),("storage strategies","src/slot.rs"),("index wrapper","src/tree/index.rs")],
 (),["return values of every variant"],None)
p("M06","Over-long keys are refused without any effect",
 "Every operation accepts keys up to and including 256 bytes. A longer key is refused by a panic in the calling thread before anything is read or changed: the contents, length and structure stay as they were, no lock stays held, and later operations by any thread work normally.",
 ["inputs","fault_sequences","histories"],"every key length around and beyond the limit, at every point of every history, through every entry point",
 "Tests check the panic of the key constructor alone, not what a refused call leaves behind in a populated, concurrently used tree.",
 ["src/key.rs","src/tree/generic.rs","src/tree/index.rs"],[("length assertion","src/key.rs:Key::new")],(),["panic vs return; later operations"],None)
p("T01","A quiescent tree is a well-formed trie of ordered B+trees",
 "Whenever no operation is in progress, walking the structure from the root visits every inserted key exactly once, with the eight-byte slices of each layer in increasing order. Every separator bounds its subtrees, keys sharing an eight-byte slice sit in one leaf, sibling links in both directions and parent links match the tree, all leaves of a layer are equally deep, no node exceeds its capacity, and no lock or in-progress mark remains.",
 ["histories","schedules","inputs"],"every reachable quiescent state after every history and interleaving",
 "No test walks the structure; damaged separators or links are masked by sibling walks until a later operation happens to need them.",
 ["src/tree/generic.rs","src/leaf24.rs","src/internode.rs","src/tree/split/propagation.rs","src/tree/split/root_creation.rs"],
 [("leaf split","src/leaf24.rs:split_into_preallocated"),("sibling linking","src/leaf24.rs:link_sibling"),("internode split","src/internode.rs:split_into"),("root creation","src/tree/split/root_creation.rs")],
 [("next/prev/parent","links between nodes","src/leaf24.rs")],["structure walk at quiescence"],"root pointer accessor (cfg masstree_verif)")
p("T02","Each locked step changes the tree by exactly one legal transition",
 "Whenever a node's lock is released, the node differs from its state at lock time by nothing, one added entry, one replaced value, one entry turned into a layer holding the old and the new key, or a split that moves exactly an upper run of entries to a new right sibling that is already linked. A node is modified only by the thread holding its lock, and at every such instant the keys reachable from the root (walking right where needed) are exactly those inserted so far.",
 ["schedules","histories"],"every lock release in every execution, including all intermediate states of multi-level splits",
 "Tests observe only final results; intermediate states between the steps of a split exist for nanoseconds and are never inspected.",
 ["src/tree/generic.rs","src/leaf24.rs","src/internode.rs","src/tree/split/propagation.rs","src/tree/split/root_creation.rs"],
 [("split-then-retry",G+":handle_leaf_split_generic"),("hand-over-hand locking","src/tree/split/propagation.rs")],
 [("node contents","entries, separators, children, links","src/leaf24.rs, src/internode.rs")],["node contents at each lock acquire/release"],"reports of version-word accesses (cfg masstree_verif)")
p("V01","Optimistic validation accepts only undisturbed reads",
 "If a reader takes a stable version of a node, reads, and validation then reports no change and no modification in progress, no other thread's modification of that node overlapped the reads. Every release after a marked modification yields a version different from all versions readers could hold, a split is recognisable as a split, and releases never alter the node's kind, root or deleted status except as that operation defines.",
 ["schedules","histories"],"every interleaving of readers and lock holders on one version word and every sequence of version operations, including counter wrap-around",
 "Unit tests drive single-threaded sequences; the loom tests run a copy of the type, not the real one.",
 ["src/nodeversion.rs"],[("stable / change detection","src/nodeversion.rs:stable, has_changed, has_split, has_changed_or_locked"),("guard release","src/nodeversion.rs:LockGuard::drop")],
 [("version word","lock, dirty, counters, flags","src/nodeversion.rs:NodeVersion.value")],["version accessors and guards"],"yield points (cfg masstree_verif)")
p("V02","Node locks are mutually exclusive and always released",
 "At most one thread holds a node's lock at any time, however it was acquired (blocking, one-shot, timed or yielding attempt), and a failed attempt leaves the word unchanged. A lock is released exactly once when its holder is done, also when the holder panics, and a waiting thread then gets it.",
 ["schedules","histories","fault_sequences"],"every interleaving of lock attempts of all kinds by any number of threads, with panics while holding",
 "Concurrent unit tests use free-running threads on the blocking variant; loom tests model a copy of the code.",
 ["src/nodeversion.rs"],[("lock acquisition","src/nodeversion.rs:lock, try_lock, try_lock_for, lock_with_yield"),("release on drop","src/nodeversion.rs:LockGuard::drop")],
 [("version word","lock bit","src/nodeversion.rs:NodeVersion.value")],["lock/unlock calls"],"yield points (cfg masstree_verif)")
p("L01","Every stored value is released exactly once, never while reachable",
 "Each value handed to the tree is released exactly once: some time after it was replaced and everyone who could still be reading it is done, or when the tree is dropped. No value is released while a lookup can still return it, and none is leaked or released twice by updates, splits, layer creation, rejected calls or teardown.",
 ["histories","schedules","inputs"],"every history of inserts and lookups in every storage mode, under every interleaving, through tree teardown",
 "Tests drop a few small trees; a leak or double release on one path (a replaced value in a layer, a moved slot) shows up only under a leak detector and the right history.",
 ["src/tree/generic.rs","src/slot.rs","src/value.rs","src/leaf24.rs","src/alloc24.rs","src/tree.rs"],
 [("deferred retirement of replaced values",G+":insert_concurrent_generic"),("ownership transfer on split","src/leaf24.rs:split_into_preallocated"),("teardown","src/leaf24.rs:Drop, src/alloc24.rs:teardown_tree, src/tree.rs:Drop")],
 (),["drops of instrumented values"],"collector accessor for eager reclamation (cfg masstree_verif)")
p("L02","Memory stays valid for as long as a guard may use it",
 "A reference or value obtained under a guard stays valid and keeps its content until the guard is released, no matter how many concurrent updates, splits or layer creations replace it meanwhile. No operation ever touches tree memory (values, suffixes, nodes) after it was released.",
 ["schedules","histories"],"every interleaving of guard holders with writers, with reclamation happening as early as permitted",
 "Reclamation is batched, so in tests it practically never happens while a reader is inside the window; use-after-free does not fail assertions.",
 ["src/tree/generic.rs","src/leaf24.rs","src/slot.rs","src/alloc24.rs"],
 [("retire instead of free",G+", src/leaf24.rs:assign_ksuf, clear_ksuf"),("guard lifetime",G+":get_ref, guard")],
 (),["content of guarded references; accesses to released blocks"],"access reports and collector accessor (cfg masstree_verif)")
p("L03","Dropping the tree gives back all its memory",
 "After a tree and everything obtained from it are dropped, every allocation made on its behalf (nodes, layers, suffix storage, values, bookkeeping) has been given back exactly once, whatever shape the tree had. Nothing is given back twice and no block is written after it was given back.",
 ["histories","inputs","schedules"],"every tree shape reachable by any history: many layers, long suffixes, splits at every level, contention",
 "No test measures memory; leaks of suffix storage, sublayers or preallocated siblings are invisible to assertions.",
 ["src/alloc24.rs","src/tree.rs","src/leaf24.rs","src/suffix.rs"],
 [("tracked node list","src/alloc24.rs"),("drop order","src/tree.rs:Drop")],(),["allocator calls made inside tree operations"],None)
p("P01","Operations always complete and never fail spuriously",
 "Under any fair schedule every insert and lookup with a valid key returns after finitely many steps: there is no deadlock, livelock or abandoned lock, also when threads are suspended for long at arbitrary points and resume later. No insert with a valid key reports an error or panics because of contention, splits or tree shape.",
 ["schedules","histories"],"every fair schedule of every finite set of operations, including arbitrarily long suspension of any thread at any point",
 "Stress tests time out only on hangs that their few schedules provoke; suspended-thread scenarios (stale parents, stale roots, many splits meanwhile) are not produced.",
 ["src/tree/generic.rs","src/tree/split/propagation.rs","src/tree/split/root_creation.rs","src/leaf24.rs","src/nodeversion.rs"],
 [("retry loops",G+":insert_concurrent_generic"),("lock order left-to-right, bottom-up","src/tree/split/propagation.rs"),("hop limit restart",G+":advance_to_key_by_bound_generic")],
 (),["completion and result of every call; lock bits at quiescence"],"yield points (cfg masstree_verif)")
p("C01","Slot permutations stay permutations under every operation",
 "A slot permutation always lists every slot exactly once, split into an ordered live part and a free part, after any sequence of insertions, removals, exchanges, rotations and free-slot swaps, in both supported widths. Each operation moves exactly the slots its contract says and keeps the relative order of all others, and the mutable, immutable and atomic forms agree.",
 ["inputs","histories"],"every operation with every argument on every reachable permutation",
 "Unit and property tests sample some argument pairs; the state space is all permutations times all arguments.",
 ["src/permuter24.rs","src/permuter.rs"],[("bit shuffling","src/permuter24.rs:insert_from_back, remove, exchange, rotate, swap_free_slots")],
 [("encoded permutation","size and slot list in one word","src/permuter24.rs")],["accessors of the permutation"],None)
p("C02","Stored key suffixes are returned unchanged",
 "A suffix stored for a slot is returned byte for byte, and compares accordingly, until that slot is overwritten or cleared. Storing, overwriting in place, clearing, growing and compacting never alter, move or lose any other slot's suffix.",
 ["inputs","histories"],"every sequence of suffix operations with every combination of slot and suffix length",
 "Tests use short fixed sequences; interaction of in-place reuse, growth and compaction over many slots is not enumerated.",
 ["src/suffix.rs","src/leaf24.rs"],[("offset/length table over one buffer","src/suffix.rs:assign, try_assign_in_place, clear, compact"),("copy-on-write storage","src/leaf24.rs:assign_ksuf, clear_ksuf, compact_ksuf")],
 (),["suffix accessors"],None)
p("C03","Interior nodes route every key to the one right child",
 "For any interior node contents, searching a slice selects the child whose range contains it, a slice equal to a separator belonging to the right. Inserting a separator with its right child, or splitting a full node around such an insertion, preserves all other separators and children in order, passes up exactly the middle separator, and keeps every child's link to its actual parent.",
 ["inputs","histories"],"every node size, every insertion position, every split case and every searched slice",
 "Tests cover selected positions; the three split cases times all positions times equality with separators are not enumerated.",
 ["src/internode.rs","src/ksearch.rs"],[("search","src/ksearch.rs:upper_bound_internode_generic"),("shifted insertion","src/internode.rs:insert_key_and_child"),("split around insertion","src/internode.rs:split_into")],
 (),["separator and child accessors"],None)
p("C04","Key slicing is faithful and order-preserving",
 "Walking a key eight bytes at a time and comparing the slices numerically, then the remaining lengths, orders any two keys exactly as their byte strings order lexicographically, and recovers exactly the original bytes. Moving deeper and back up restores the earlier view of the key at any depth.",
 ["inputs"],"every pair of byte strings up to the length limit and every sequence of moves",
 "Tests sample strings; boundaries at multiples of eight, zero padding and full-length keys combine in ways random strings miss.",
 ["src/key.rs"],[("slice extraction","src/key.rs:Key::new, shift, unshift, unshift_all, compare")],(),["key accessors"],None)
p("C05","A frozen slot permutation blocks publication until released",
 "While a leaf's permutation is frozen by a split, no compare-and-swap publication on it succeeds and every observer sees that it is frozen; exactly the value chosen by the freezer, or the original if it gives up, becomes visible afterwards. A compare-and-swap succeeds only against the exact current unfrozen value.",
 ["schedules","histories"],"every interleaving of freezers, publishers and readers on one leaf, and every sequence of freeze operations",
 "Tests run one sequence per outcome; nobody races freezing with publication deterministically.",
 ["src/leaf24/freeze.rs","src/freeze24.rs","src/leaf24/cas.rs","src/permuter24.rs"],[("freeze guard","src/leaf24/freeze.rs"),("publication","src/leaf24/cas.rs")],
 (),["permutation accessors of a leaf"],"yield points (cfg masstree_verif)")
p("C06","A leaf split partitions the leaf without loss",
 "Splitting a full leaf divides its entries into a lower part that stays and an upper part that moves to the new sibling: every entry with its value, length class, suffix or layer ends up in exactly one of the two, ordered by slice, and entries sharing an eight-byte slice are never separated, whatever key triggered the split. The bound reported for the new sibling is its smallest slice and lies strictly above everything left behind.",
 ["inputs","histories"],"every leaf content (same-slice groups at every position, suffixes, layers, reused slots) and every triggering key",
 "Tests split leaves with distinct evenly spaced slices; same-slice groups on the midpoint are not produced.",
 ["src/leaf24.rs","src/leaf_trait.rs"],[("split point","src/leaf24.rs:calculate_split_point"),("entry migration","src/leaf24.rs:split_into_preallocated"),("sibling link","src/leaf24.rs:link_sibling")],
 (),["leaf accessors before and after"],None)
p("C07","The node allocator gives every node back exactly once, in time",
 "Every node handed to the node allocator, in whichever way, is owned by it until it is retired: its memory and the values in it are given back exactly once, at teardown or when the allocator is dropped, and not before. A retired node is no longer the allocator's, and is given back with its values exactly once, not before every guard that was open when it was retired has been closed. The counts it reports are those of the nodes it owns, and the layers and children a node points to are not given back with it.",
 ["histories"],"every sequence of handing over, retiring, tearing down and dropping, with every nesting of guards",
 "Tests retire one node under one guard and do not count what is released; a node released twice or too early has no visible effect.",
 ["src/alloc24.rs","src/alloc_trait.rs","src/leaf24.rs"],[("tracking lists","src/alloc24.rs:alloc_leaf24, track_leaf24, alloc_internode24, track_internode24"),("retirement","src/alloc24.rs:retire_leaf24, retire_internode24"),("teardown","src/alloc24.rs:teardown_tree24, Drop"),("what a leaf owns","src/leaf24.rs:Drop")],
 (),["counts of the allocator, releases seen by the global allocator and by the values"],None)
p("C08","Linking a new right sibling keeps the chain of leaves whole",
 "However many threads link new leaves behind leaves of one chain at once, every linked leaf ends up in the chain exactly once and none is lost. At every moment a next pointer that is not marked leads to a leaf whose prev pointer leads back; a new leaf is complete before it can be reached from the left; the pointers of a leaf change in no other way; and no mark is left behind. Whoever looks sees pointers the leaf had at that time, without the mark, and who waits for a split does not stop while the mark is still there unless it has waited very long.",
 ["schedules","histories"],"every interleaving of linkers and readers on every chain",
 "Tests link leaves on one thread; two linkers at the same leaf, or at neighbours, do not meet.",
 ["src/leaf24.rs","src/link.rs"],[("linking","src/leaf24.rs:link_sibling, lock_next"),("waiting","src/leaf24.rs:wait_for_split"),("mark bit","src/link.rs:mark_ptr, unmark_ptr, is_marked")],
 (),["next, prev and mark of every leaf after every write"],"yield points (cfg masstree_verif)")
p("C09","Value slots hand values over without losing or duplicating ownership",
 "A slot is empty or holds one value or one layer, in both storage modes, and says so consistently. Whatever sequence of storing, getting, swapping, taking, cloning and converting to and from raw pointers is applied, the value handed out is the one put in, a shared value is held by exactly those who should hold it and is dropped exactly when the last of them goes, and an inline value is returned unchanged.",
 ["inputs","histories"],"every sequence of slot and raw pointer operations in both modes",
 "Tests check single operations; counts of owners over sequences are checked only for a few.",
 ["src/slot.rs","src/value.rs"],[("slot operations","src/slot.rs:ValueSlot"),("shared values","src/value.rs:LeafValue"),("inline values","src/value.rs:LeafValueIndex")],
 (),["slot accessors and holders of each value"],None)
p("C10","Searches over slices agree with the unsigned order",
 "Every search over an array of eight-byte slices returns what its definition says, for all 64-bit values compared as unsigned numbers, all lengths and limits, and whichever implementation (vector, scalar, halving or linear) is used: the first position of an exact match or none, the number of keys not greater than the target, the set of all matching positions, the lower bound with its slot, and the upper bound. Nothing beyond the limit influences a result.",
 ["inputs"],"every array of 64-bit keys up to the supported length, every limit, permutation and target",
 "Tests use small numbers and a few lengths; the top bit, the remainder after the last full vector and limits inside a vector are not combined.",
 ["src/ksearch.rs","src/ksearch/simd.rs","src/ksearch/simd_search.rs"],[("vector comparison and remainders","src/ksearch/simd.rs:find_exact_u64, count_le_u64, find_all_matches_u64"),("matches in a leaf","src/ksearch/simd_search.rs:find_ikey_matches_leaf24"),("halving","src/ksearch.rs:lower_bound_by, upper_bound_by")],
 (),["results of the search functions"],None)
p("C11","A leaf keeps what is put into it, slot by slot",
 "A leaf holds for every slot a slice, a length class, a value or layer and possibly a suffix, besides its links, permutation, modification state and root status. Each operation changes the named field of the named slot and nothing else; every question, by whichever method, is answered from what was last put there; what is cloned out of a slot is its value and never a layer. Calls of several threads on the same slots take effect one after another, so that of several claims of an empty slot exactly one succeeds. Dropping a leaf gives back exactly the values still in it and its suffixes, and no layer.",
 ["inputs","schedules","histories"],"every sequence of leaf operations in both storage modes and every interleaving of claims",
 "Tests set one slot and read it back; neighbouring slots, repeated use of one slot, mixed classes and racing claims are not covered.",
 ["src/leaf24.rs","src/leaf_trait.rs","src/link.rs"],[("slot fields","src/leaf24.rs:set_ikey, set_keylenx, set_leaf_value_ptr, take_leaf_value_ptr"),("claims","src/leaf24.rs:cas_slot_value, store_key_data_for_cas"),("layer creation","src/leaf24.rs:try_clone_output, assign_from_key_arc"),("teardown","src/leaf24.rs:Drop")],
 (),["accessors of the leaf, holders of each value"],"yield points (cfg masstree_verif)")
p("O01","The guarantees need no more memory ordering than the code declares",
 "Lookups, inserts and updates stay linearizable, trees well formed and memory validly used in every execution that the declared orderings of the tree's atomic accesses and fences allow, not only in sequentially consistent ones: a thread whose loads lag behind still finds every key that was there when its operation began, accepts no mixture of old and new node content, and uses nodes, suffixes and values made by another thread only once their making is known to it. Unlocking a node makes everything done under the lock known to the next holder, and what a writer stores under a lock is never seen by a reader that then validates against the version from before the lock.",
 ["schedules","histories"],"every interleaving of threads together with every choice of an older value a load may return under release/acquire ordering",
 "Tests run on x86, whose hardware is stronger than the declared orderings; the loom tests cover a copy of the version word only.",
 ["src/nodeversion.rs","src/ordering.rs","src/leaf24.rs","src/internode.rs","src/permuter24.rs","src/tree/generic.rs","src/tree/split/propagation.rs","src/tree/split/root_creation.rs"],
 [("lock, unlock and marks","src/nodeversion.rs:lock, try_lock, LockGuard::drop, mark_insert, mark_split"),("reading and validating","src/nodeversion.rs:stable, has_changed, has_split"),("publication of nodes, suffixes and values","src/leaf24.rs:set_next, assign_ksuf, leaf value and permutation stores; src/internode.rs:set_child"),("orderings","src/ordering.rs")],
 [("all atomic fields","values a load may still return and what each thread knows","version words, permutations, slots, links, parents, root pointers")],["calls and returns, lookups of all keys afterwards, use of memory blocks"],"reporting atomics whose loads a hook may answer with older values (cfg masstree_verif)")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
