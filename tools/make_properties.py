#!/usr/bin/env python3
"""Single source of the property texts; writes /verif/properties.jsonl."""
import json, os
P = []
PH = "include/gtl/phmap.hpp"
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

NO_MT = "The suite is single-threaded apart from a few smoke tests; no test samples more than a handful of interleavings, and a missing or wrong lock is invisible in almost all of them."

p("C01", "Submap data is touched only while that submap's own lock is held",
  "In a parallel hash container instantiated with a real mutex, every keyed, callback, whole-table and dump/load operation on a live container reads or writes the contents of a submap (its elements and its table) only while it holds the lock of that very submap. Construction, assignment, destruction, iterators, size and capacity queries, and the operations documented as unsafe are outside this guarantee.",
  ["schedules", "inputs"], "every interleaving of any number of threads calling these operations, every key and hash value, any number of submaps and mutex type",
  NO_MT, [PH, "include/gtl/phmap_dump.hpp"],
  [("per-submap lock taken before the submap is used", PH + ": parallel_hash_set, parallel_hash_map"), ("dump/load take each submap's lock", "include/gtl/phmap_dump.hpp: parallel_hash_set::phmap_dump/phmap_load")],
  [("sets_", "array of submaps, each with its own mutex")])
p("C02", "Mutation happens only under an exclusive lock; shared holders only read",
  "In a parallel hash container using a reader-writer mutex, an operation that inserts, erases, clears, rehashes, swaps or merges, and every user callback that is given mutable access to an element, runs while the submap's lock is held in exclusive mode. While an operation holds a submap's lock only in shared mode it itself writes nothing in that submap.",
  ["schedules", "inputs"], "every interleaving of readers and writers, every key, every operation",
  NO_MT, [PH, "include/gtl/lru_cache.hpp", "include/gtl/phmap_dump.hpp"],
  [("SharedLock / UniqueLock / ReadWriteLock chosen per operation", PH + ": LockableImpl<std::shared_mutex>, parallel_hash_set"), ("LRU recency update inside a lookup", "include/gtl/lru_cache.hpp: get")])
p("C03", "Every submap lock taken is released exactly once on every exit",
  "Any operation of a mutex-protected parallel hash container, of the caches built on it, or of its dump and load, returns or throws holding no submap lock, having released each lock it acquired exactly once and in the mode it was acquired. This includes exits by an exception from user code (hash, equality, element construction, allocator, callback or archive).",
  ["fault_sequences", "inputs", "schedules"], "every normal and exceptional path of each operation, every point at which user code may throw",
  "No test makes user code throw inside a locked operation; a leaked or doubly released mutex only shows on those paths.", [PH, "include/gtl/lru_cache.hpp", "include/gtl/memoize.hpp", "include/gtl/phmap_dump.hpp"],
  [("scoped lock guards", PH + ": LockableBaseImpl::{WriteLock,ReadLock,ReadWriteLock,WriteLocks,ReadLocks}")])
p("C04", "Check-then-act operations act only on what they saw under the same hold",
  "Operations of a mutex-protected parallel hash container that look a key up and then insert, construct, assign, erase, extract or call back act only on a lookup made during the same uninterrupted exclusive hold of the submap lock; if the lock is released or upgraded in between, the lookup is redone before acting, and what is then returned to the caller reflects the second lookup.",
  ["schedules", "histories"], "every interleaving in which another thread changes the submap whenever its lock is free",
  NO_MT, [PH], [("find under lock, then prepare_insert/erase under the same lock", PH + ": find_or_prepare_insert_with_hash, emplace_decomposable_with_hash, lazy_emplace_with_hash, erase_if_impl"), ("lock upgrade followed by a second find", PH + ": erase_if_impl")])
p("C05", "Locking cannot deadlock: no blocking wait while holding another submap lock",
  "No operation of a parallel hash container blocks on one submap's lock while already holding a submap lock, except by acquiring the locks of both containers together with a deadlock-avoiding primitive; operations on two containers also do not try to lock the same mutex twice when both are the same object. The recursive memoizer never runs the user's function while holding a lock.",
  ["schedules"], "every pair of concurrent operations in either argument order, including a container with itself",
  NO_MT, [PH, "include/gtl/memoize.hpp"], [("two-container operations", PH + ": swap, merge, operator==, WriteLocks, ReadLocks"), ("f called outside the map APIs", "include/gtl/memoize.hpp: mt_memoize::operator()")])
p("C06", "Lock guards report and transfer ownership truthfully",
  "For each scoped lock guard, whatever sequence of construction (immediate, deferred, adopting, trying), lock, unlock, try-lock, upgrade, move and swap is applied: it reports owning the lock exactly when the underlying mutex is held through it, releases it exactly once, and a moved-from guard owns nothing.",
  ["histories"], "every sequence of guard operations and both outcomes of a try-lock",
  "No test exercises the guards directly, in particular none of the try-lock, move or upgrade paths.", [PH], [("guard classes", PH + ": LockableBaseImpl::WriteLock, ReadLock, ReadWriteLock, WriteLocks, ReadLocks")])
p("C07", "Read-only operations write nothing shared, so concurrent readers are safe",
  "Every const operation of the hash containers, b-tree containers, vector, bit vector, struct-of-arrays and intrusive pointer (lookup, iteration, size and capacity queries, comparison, copying from, dumping) leaves the container, the elements and all global state unwritten, so that any number of threads may read one container at the same time. The only exception is a parallel container's own mutexes.",
  ["schedules", "inputs"], "any number of concurrent readers, every key and container state",
  "A hidden write (cached result, mutable member, static scratch buffer) changes no single-threaded result, so no test can see it.", [PH, "include/gtl/btree.hpp", "include/gtl/vector.hpp", "include/gtl/bit_vector.hpp", "include/gtl/soa.hpp", "include/gtl/intrusive.hpp"],
  [("const member functions", "all containers")])
p("C08", "Distinct container instances share no mutable state",
  "Operations on one container never write memory that another container instance can observe: no operation of the hash, b-tree, vector, bit vector, struct-of-arrays, cache or memoizer classes writes global or static storage. Hence different instances may be used from different threads without synchronisation.",
  ["schedules"], "every pair of instances used concurrently",
  "Tests use instances from one thread; a static scratch variable is invisible to them.", [PH, "include/gtl/btree.hpp", "include/gtl/vector.hpp", "include/gtl/bit_vector.hpp", "include/gtl/lru_cache.hpp", "include/gtl/memoize.hpp"], [("shared immutable sentinels only", PH + ": EmptyGroup; include/gtl/btree.hpp: EmptyNode")])
p("C09", "One hash of the key selects submap, probe position and stored tag",
  "For every keyed operation of a parallel hash container, the submap used, the position where probing starts and the tag stored or matched for an element are all computed from one and the same hash of that element's key (or from the hash the caller supplied), by the same functions in every operation. So an element inserted by any operation is found by every other operation.",
  ["inputs", "histories"], "every key, every hash function, every pair of inserting and looking-up operations",
  "Tests use a few hash functions whose values agree in the bits that matter; a mismatch shows only for particular hash values or operation pairs.", [PH, "include/gtl/phmap_utils.hpp"], [("hash -> subidx, H1, H2", PH + ": subidx, H1, H2, hash(), set_ctrl, find_impl, prepare_insert")])
p("C10", "Callback operations call back exactly once, iff documented, and say so",
  "The callback operations of parallel hash containers (conditional read, modify and erase, and insert-or-callback) invoke the user's function at most once per call, exactly on the element whose key was found, and their boolean result tells truthfully what happened: found for conditional read and modify, erased for conditional erase, newly inserted for the insert-or-callback forms. The erase callback's answer decides erasure, and on a key that is absent the found-callback is never run.",
  ["inputs", "schedules"], "every key, every callback outcome, every concurrent change between lookup and action",
  "Tests cover the two or three sequential outcomes, never the ones where another thread erases the key in between.", [PH], [("extended APIs", PH + ": if_contains, modify_if, erase_if, try_emplace_l, lazy_emplace_l")])
p("C11", "A lookup reports only elements accepted by the equality predicate",
  "A lookup, insertion, erasure or callback operation of a hash container treats an element as the one for the given key only if, during that call, the user's equality predicate accepted the pair; a matching hash or tag alone is never enough, and an element for which it answered no is never returned, modified or erased.",
  ["inputs"], "every key, every hash function (including ones that collide for every key)",
  "With ordinary keys tag collisions are rare, so a skipped comparison is invisible to example-based tests.", [PH], [("probe loop", PH + ": find_impl, find_ptr, _find_key, has_element")])
p("C12", "Inserting a key that is present consumes nothing and changes nothing",
  "When an insertion that does not overwrite (insert, emplace with a deducible key, try_emplace and their hinted, hashed and locked forms) finds the key already present in a hash or ordered container, it does not move from, copy from or otherwise consume the arguments, constructs and destroys no element, writes no part of the container, and reports that nothing was inserted; when the key is absent it constructs exactly one element and reports that it did.",
  ["inputs"], "every container state and key, every argument value category",
  "Tests check a few value types; whether an rvalue argument was moved from on the present-key path is almost never observed.", [PH, "include/gtl/btree.hpp"], [("find before construct", PH + ": EmplaceDecomposable, try_emplace_impl; include/gtl/btree.hpp: insert_unique, insert_hint_unique")])
p("C13", "A throw while adding an element leaves the hash table as it was",
  "If the hash, the equality predicate, the allocator or the construction of the new element throws during an insertion into a hash container, then no element has been added: the reported size and the set of elements are unchanged, no slot is marked occupied without a live element in it, no memory is lost, and the container remains usable and destructible. This assumes that moving stored elements, and hashing them again when the table grows, does not throw.",
  ["fault_sequences", "inputs"], "every point at which user code may throw during an insertion",
  "No test injects exceptions into insertion.", [PH], [("reserve slot, construct, then publish", PH + ": prepare_insert, emplace_at, set_ctrl, InsertSlot, resize")], [("size_, growth_left, ctrl_", "published only after construction")])
p("C14", "Erasing destroys exactly the erased element, once, and unlinks its slot",
  "Each erasure, extraction, clear or destruction in a hash container destroys (or hands over) each affected element exactly once, only if its slot is occupied, and marks that same slot free in the same operation; no other element is destroyed, and no element is accessed after its destruction.",
  ["histories", "inputs"], "every table state and every erasing operation",
  "Tests with trivially destructible or self-contained values cannot see a missed or doubled destruction in rare branches.", [PH], [("destroy + erase_meta_only", PH + ": _erase, erase_meta_only, destroy_slots, clear, extract")])
p("C15", "All storage comes from the user's allocator and is returned with its size",
  "Hash containers, b-tree containers and the vector obtain and release all element storage through the allocator they were given and never through the global heap; every block is released through that allocator with exactly the size it was requested with, and a block is not dropped without being released on any path, including when an allocation, a construction, or a comparison or hash of an argument throws (moving or re-hashing elements already stored is assumed not to throw).",
  ["inputs", "fault_sequences", "configurations"], "every operation, capacity, element size and throwing point",
  "The default allocator ignores the size and tests rarely use counting allocators, so wrong sizes, bypasses and leaks on rare paths go unseen.", [PH, "include/gtl/btree.hpp", "include/gtl/vector.hpp", "include/gtl/gtl_base.hpp"], [("Allocate/Deallocate", "include/gtl/gtl_base.hpp; " + PH + ": initialize_slots, destroy_slots; include/gtl/btree.hpp: new_*_node, delete_*_node; include/gtl/vector.hpp: Impl")])
p("C16", "Node-based hash containers never move, copy or destroy other elements",
  "In the node-based hash containers an element stays at one address from insertion to erasure: inserting other keys, rehashing, reserving, erasing other elements, extracting, merging, swapping or moving the container never moves, copies, assigns, destroys or reallocates it.",
  ["histories"], "every sequence of operations after a pointer to an element was taken",
  "Tests hold pointers across a few rehashes only; growth, tombstone clean-up and merge paths are hardly sampled.", [PH], [("slots hold pointers; transfer copies the pointer", PH + ": node_hash_policy, NodeHashMapPolicy, NodeHashSetPolicy")])
p("C17", "Growth relocates elements by moving, never by copying",
  "When a flat hash container or b-tree of movable elements, or a vector of elements with a non-throwing move constructor, grows, rehashes, splits or shifts elements, it relocates existing elements only by moving each into its new place and destroying the old one, and never copies an existing element. (For the vector this is claimed with the standard allocator; merging two b-tree maps may copy keys.)",
  ["inputs", "configurations"], "every movable element type (vector: with a non-throwing move) and every growth path",
  "An accidental copy yields equal values, so value-based tests cannot see it.", [PH, "include/gtl/btree.hpp", "include/gtl/vector.hpp"], [("transfer/relocate", PH + ": hash_policy_traits::transfer, map_slot_policy; include/gtl/vector.hpp: relocate_*; include/gtl/btree.hpp: uninitialized_move_n")])
p("C18", "Moving or swapping whole containers touches no element and cannot fail",
  "Move construction and member swap of hash containers, b-tree containers and vectors with equal allocators exchange or hand over the complete state (contents, size, capacity bookkeeping, and function objects) without constructing, assigning, destroying or comparing any element, without allocating, and without throwing; a moved-from container is left empty, owning nothing, and usable. Move assignment likewise hands over the complete state of the source.",
  ["inputs", "histories"], "every container state",
  "Tests compare contents after a move; forgetting a bookkeeping member shows only in later, rarely tested operations.", [PH, "include/gtl/btree.hpp", "include/gtl/vector.hpp", "include/gtl/intrusive.hpp"], [("move constructors and swap", PH + ": raw_hash_set(raw_hash_set&&), swap; include/gtl/btree.hpp: btree(btree&&), swap; include/gtl/vector.hpp: Impl swap")])
p("C19", "Heterogeneous lookup never builds a key, element or allocation",
  "With transparent function objects, looking up, counting, testing, erasing or accessing a present element by a key of another type never constructs, copies or converts to the container's key type, constructs no element and allocates nothing.",
  ["inputs", "configurations"], "every key-like type, every container state",
  "A hidden conversion gives the same lookup result; tests cannot tell.", [PH, "include/gtl/btree.hpp"], [("key_arg / KeyArg", PH + ": KeyArg, find, contains, count, erase; include/gtl/btree.hpp: key_arg")])
p("C20", "A vector may insert or append a reference to its own element",
  "Appending to a vector, inserting into it one or several copies of a value, emplacing into it, or resizing it with a value, with an argument that refers to one of the vector's own elements stores the value that element had before the call, whether or not the vector must grow: the argument is read before any existing element it may refer to is moved away, overwritten, destroyed or its storage released.",
  ["inputs"], "every size/capacity and every aliased argument",
  "Only one or two capacities are tested, and a use-after-free of the old buffer usually still reads the old value.", ["include/gtl/vector.hpp"], [("emplace_back_aux, push_back, insert", "include/gtl/vector.hpp")])
p("C21", "A vector operation that throws loses no memory and no element lifetime",
  "If the allocator or an element's constructor or copy throws inside any vector operation (construction, append, insert, resize, reserve, copy, assign), every block allocated by the operation that the vector does not own is released, every element it constructed outside the vector is destroyed exactly once, and the vector remains destructible with a correct size.",
  ["fault_sequences"], "every throwing point of every vector operation",
  "Exceptions are not injected by the vector tests.", ["include/gtl/vector.hpp"], [("scoped_guard rollback", "include/gtl/vector.hpp: uninitialized_*, emplace_back_aux, make_window, wrap_frame; Impl destructor")])
p("C22", "Intrusive pointers add and drop exactly one reference per handle",
  "Through any construction, copy, move, assignment, reset, swap, conversion, detach or destruction of intrusive pointers, references taken equal references dropped plus live handles: each handle holding a non-null pointer accounts for exactly one reference, null handles touch no count, and on assignment the new target is referenced before the old one is dropped so that self-assignment and assignment from a part of the old target are safe. When an operation drops an object, no handle it leaves behind still points to that object without owning a reference, so the object's destructor may use the same handles.",
  ["histories"], "every sequence of operations and aliasing of handles",
  "There are no tests for the intrusive pointer.", ["include/gtl/intrusive.hpp"], [("add_ref/release pairing", "include/gtl/intrusive.hpp: intrusive_ptr")])
p("C23", "The thread-safe reference count frees once, after all other uses",
  "With the thread-safe counting policy every change of the count is one atomic operation; the object is deleted exactly by the drop that takes the count to zero, and that drop synchronises with all earlier drops so the deletion happens after every other thread's use. A new object starts with no references and copying an object does not copy its count.",
  ["schedules"], "every interleaving of handle copies and drops",
  "No tests; a weakened ordering is invisible on x86 runs.", ["include/gtl/intrusive.hpp"], [("atomic policy", "include/gtl/intrusive.hpp: thread_safe_counter, intrusive_ptr_release")])
p("C24", "Scope guards run their rollback exactly once unless dismissed",
  "Once constructed, a scope guard runs its exit action exactly once on every way out of the scope, normal or by exception, if and only if it was enabled and not dismissed; the entry action, or the assignment of the temporary value, happens only if it was enabled, and the value-restoring guard puts back precisely the value it found.",
  ["histories", "fault_sequences"], "every enabling flag, dismissal and exit path",
  "There are no tests of these utilities.", ["include/gtl/utils.hpp"], [("guards", "include/gtl/utils.hpp: scoped_set_unset, scoped_guard, scoped_set_value")])
p("C25", "Dump and load are mirror images",
  "What dumping a hash container writes is exactly what loading reads, field by field, in the same order and with the same sizes: every piece of table state needed to use the table is written, and loading restores each into the place it was dumped from. The parallel form does this for every submap.",
  ["inputs", "histories"], "every table content, size and capacity",
  "Tests round-trip a few tables; a lost field (such as remaining growth) only matters for later operations at particular fill levels.", ["include/gtl/phmap_dump.hpp"], [("dump/load", "include/gtl/phmap_dump.hpp: raw_hash_set::phmap_dump/phmap_load, parallel_hash_set::phmap_dump/phmap_load")])
p("C26", "Loading replaces the old content without leaking it, and rejects mismatches",
  "Loading into a hash container first releases all storage and elements it held, then owns freshly allocated storage of the size the loaded capacity requires; a parallel container refuses data written with a different number of submaps before changing any submap, and reports failure.",
  ["inputs", "histories"], "every previous content and every dumped header",
  "Tests load only into empty containers of matching shape.", ["include/gtl/phmap_dump.hpp"], [("destroy_slots before initialize_slots; submap count check", "include/gtl/phmap_dump.hpp")])
p("C27", "A memoizer never calls the function on a hit and returns what it stored",
  "A memoizer call invokes the user's function at most once, and not at all when the arguments are already cached; on a miss the value returned to the caller is that call's result and it is what is stored under those arguments, unless the function throws, in which case nothing is stored and the exception reaches the caller. Querying the cache never invokes the function.",
  ["inputs", "schedules"], "every argument, cache state and function outcome",
  "No tests for the memoizers; examples only print timings.", ["include/gtl/memoize.hpp"], [("operator(), contains", "include/gtl/memoize.hpp: mt_memoize, mt_memoize_lru")])
p("C28", "An LRU cache's index and recency list change together under one lock",
  "In the LRU cache and the LRU memoizer, every operation that adds an entry adds it to the index and at the front of the recency list, every eviction removes the same entry from both, a hit moves the entry found to the front and reads or replaces that entry's value, and all this happens within one uninterrupted exclusive hold of the shard's lock. An exception from copying a key or value or from allocating leaves index and list matching; clearing empties both.",
  ["histories", "schedules"], "every operation sequence and interleaving",
  "The LRU tests are single-threaded with one shard and never clear.", ["include/gtl/lru_cache.hpp", "include/gtl/memoize.hpp", PH], [("callbacks on map + list", "include/gtl/lru_cache.hpp: insert, get; include/gtl/memoize.hpp: mt_memoize_lru; " + PH + ": lazy_emplace_l, clear")])
p("C29", "Every operation on a struct-of-arrays acts on all of its columns alike",
  "Each operation of the struct-of-arrays container that changes its rows (insert, resize, reserve, clear, sort by a field) does the same to every column, so that after every call, completed or ended by an exception, all columns have equal length and row i of every column belongs to the same logical record; rows and views take every member from its own column at the position asked for; an exception thrown by the comparison leaves all rows as they were.",
  ["inputs", "configurations"], "any number and types of columns, every operation",
  "There are no tests for it.", ["include/gtl/soa.hpp"], [("fold over all columns", "include/gtl/soa.hpp")])
p("C30", "Every public header and operation compiles for the types it admits",
  "Each public header compiles when included alone, together with the others in any order, and in several translation units of one program, and every documented operation of every public container, cache, memoizer, pointer and utility can be instantiated with minimal user types (move-only values, non-default-constructible keys, custom hash, equality, comparator, allocator and mutex types) that meet its documented requirements.",
  ["configurations", "programs"], "every admissible template argument",
  "Templates are checked only where a test instantiates them; several members are never instantiated by the suite.", ["include/gtl"], [("templates", "all public headers")])
p("C31", "Types enforce immutability of keys and const access",
  "Without a cast, no iterator, accessor or read-only callback gives write access to a key stored in a map or to an element of a set, and nothing obtained from a const container, const iterator or read-only callback (conditional read, for_each, with_submap) gives write access to an element or offers a modifying operation (extracted node handles, the modifying callbacks of parallel sets, and copies made of a bit view excepted). Copying of guards and node handles, and looking up foreign key types through non-transparent functors, do not compile. Containers advertise non-throwing moves, iterator categories, result types and the standard member types truthfully.",
  ["programs"], "every program using the API",
  "A test can only show that valid programs compile, never that all invalid ones are rejected.", [PH, "include/gtl/btree.hpp", "include/gtl/vector.hpp", "include/gtl/bit_vector.hpp", "include/gtl/utils.hpp", "include/gtl/intrusive.hpp"], [("type-level contracts", "all public containers")])
p("C32", "A bit vector's unused tail bits are always zero",
  "After every operation the bits of the last storage block beyond the vector's size are zero, so counting, comparing, any/none tests, finding and hashing see only real bits.",
  ["histories", "inputs"], "every size, every operation sequence",
  "Tests sample a few sizes.", ["include/gtl/bit_vector.hpp"], [("masking of the last block", "include/gtl/bit_vector.hpp: storage::visit, visit_all, resize")])
# --- semantic properties outside the reach of this family
p("N01", "Hash containers behave as finite maps",
  "After any sequence of operations a hash container holds exactly the keys inserted and not erased, each with its latest value, and lookups, iteration and size agree with that.",
  ["histories", "inputs"], "every operation sequence", "Tests sample some sequences.", [PH], [("probing, tombstones, rehash", PH + ": raw_hash_set")])
p("N02", "B-tree containers keep elements sorted and balanced",
  "After any sequence of operations an ordered container iterates over exactly its elements in comparator order, with bounds and ranges agreeing, and its height stays logarithmic.",
  ["histories", "inputs"], "every operation sequence", "Tests sample some sequences.", ["include/gtl/btree.hpp"], [("split, merge, rebalance", "include/gtl/btree.hpp")])
p("N03", "Bit vector operations compute the documented bit-wise results",
  "Every bit vector and view operation (shifts, logical operators, counts, searches, views at arbitrary offsets) yields the result of the corresponding operation on a mathematical bit sequence.",
  ["inputs"], "every content and offset", "Tests sample some values.", ["include/gtl/bit_vector.hpp"], [("visit", "include/gtl/bit_vector.hpp")])
p("N04", "The LRU cache evicts the least recently used entry of a shard",
  "An entry is evicted only when its shard exceeds the configured size, and it is the one that was used longest ago.",
  ["histories"], "every access sequence", "Tests sample one shard.", ["include/gtl/lru_cache.hpp"], [("list order", "include/gtl/lru_cache.hpp")])
p("N05", "Hash table operations are constant expected time at bounded load",
  "The load factor stays within the documented bounds and probing terminates, so operations take constant expected time and memory stays within the documented factor of the content.",
  ["histories"], "every operation sequence", "Tests check a few sizes.", [PH], [("CapacityToGrowth, growth_left", PH)])
p("N06", "Generalised binary search and slicing utilities return the documented values",
  "The binary search returns the boundary of a monotone predicate, and concatenation, slicing and mapping of vectors return the documented sequences for all arguments.",
  ["inputs"], "every argument", "No tests.", ["include/gtl/adv_utils.hpp", "include/gtl/vec_utils.hpp"], [("binary_search, slice, cat, map", "include/gtl/adv_utils.hpp, include/gtl/vec_utils.hpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
