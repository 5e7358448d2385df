"""Which properties are claimed, with what rule over which witness units; and which are not applicable, with the reason."""
IR = "whole-operation dataflow on LLVM IR: "
LOCKN = ("Every public operation of the parallel containers is instantiated with opaque user types (undefined functions), all of gtl is inlined "
         "into one control-flow graph per operation, and a path-sensitive lock typestate is propagated to a fixpoint over all paths including unwinding. ")
KEYN = ("Every keyed operation of the hash containers is instantiated with opaque user types, inlined into one control-flow graph, and all paths are "
        "explored to a fixpoint forking on the answers of the user's equality predicate and callbacks. ")
EFFN = ("Every operation is instantiated with opaque user types and inlined into one control-flow graph; every store, atomic update, memory intrinsic and writing call is traced to "
        "the objects its address can come from (arguments, locals, allocations, globals). ")
TABN = ("Every operation of the hash containers is instantiated with opaque element types, hash, equality and allocator (each of which may throw), inlined into one control-flow graph, and all "
        "paths including unwinding are explored to a fixpoint tracking construction and destruction of elements, control-byte writes and size updates by symbolic position. ")
DUMPN = ("dump is inlined with an opaque archive and each of its paths gives a sequence of words and blocks, named by the field they come from and sized as linear functions of fields; load is then followed on all "
         "paths against each sequence, every word read being the one dumped at that position. ")
MEMON = ("Every operation of the memoizers and LRU caches is instantiated with an opaque function, opaque arguments, results and mutexes, inlined into one control-flow graph, and all paths are followed forking on the "
         "equality predicate, tracking which object holds which argument, result or cached value. ")
CLAIMS = {
    "C01": dict(rules=["lock"], groups=["parallel", "mlock"], floor=1000, technique=IR + "lock-coverage typestate",
                note=LOCKN + "Each access reaching memory obtained from a submap is an obligation: the lock embedded in the same submap must be held."),
    "C02": dict(rules=["lock"], groups=["parallel", "mlock"], floor=100, technique=IR + "lock-mode typestate",
                note=LOCKN + "Each write (or mutable hand-out) to submap memory must happen in exclusive mode."),
    "C03": dict(rules=["lock"], groups=["parallel", "mlock"], floor=100, technique=IR + "lock-release typestate on all exits",
                note=LOCKN + "Each release must match a held lock in its mode, and no lock is held at any return or exception exit."),
    "C04": dict(rules=["lock"], groups=["parallel", "mlock"], floor=100, technique=IR + "freshness of lookups within a lock hold",
                note=LOCKN + "Each write of a check-then-act operation must follow a probe of the table made since the last acquisition and use positions derived after it."),
    "C05": dict(rules=["lock"], groups=["parallel", "mlock"], floor=50, technique=IR + "lock-order typestate",
                note=LOCKN + "Each blocking acquisition must happen with no submap lock held, or be a joint deadlock-avoiding acquisition of provably distinct mutexes."),
    "C06": dict(rules=["guard"], groups=["guards"], floor=5000, technique=IR + "ownership typestate over all operation sequences",
                note="For each guard class and constructor a loop applying an arbitrary operation (lock, unlock, try-lock, upgrade, move assignment and construction, self-move, swap, query) to two guards over two opaque mutexes, whose locks may throw and try-locks fail, is inlined into one graph and explored to a fixpoint, which covers every sequence. After every operation the reported ownership, the mutex states and the operation's promise are compared; each release must match one acquisition in mode; nothing may be held when the guards are gone."),
    "C09": dict(rules=["hash"], groups=["rflat", "rnode", "pflat", "pnode", "hethash"], floor=10000, technique=IR + "bit-level normal forms of everything computed from a hash, compared between all operations",
                note="In every operation, each submap index, probe start, tag compared and tag stored is brought into a normal form over the bits of the hash (exclusive ors of bits; other arithmetic as functions of its operand bits) and must equal the form lookups use, for the hash the container computes itself and for the one the caller supplies (as returned by hash()). A tag and its position must come from the same key's hash, relocated elements must be re-hashed themselves, keyed lookups must hash the key they were given. Assumes the user's hash is deterministic."),
    "C10": dict(rules=["keyed"], groups=["parallel"], floor=300, technique=IR + "callback/result correlation typestate",
                note=KEYN + "The found-callback may run once, on the accepted element, and the returned value is compared with what happened on each path."),
    "C11": dict(rules=["keyed"], groups=["parallel", "raw"], floor=1000, technique=IR + "acceptance typestate of the equality predicate",
                note=KEYN + "Each element returned, handed out, assigned or destroyed must be the one at the position the predicate accepted since the lock was taken."),
    "C12": dict(rules=["keyed", "bins"], groups=["parallel", "raw", "btree"], floor=500, technique=IR + "effect typestate conditioned on the equality predicate's answer",
                note=KEYN + "On paths where the predicate accepted an element, no argument may be consumed and no container memory or element written; otherwise exactly one element is built from the arguments; the returned flag must agree. For b-trees (where presence is an ordering argument) what a path does to arguments, memory and elements is compared with the flag or position it returns; that a duplicate is never judged absent is not decided there."),
    "C07": dict(rules=["effects"], groups=["raw", "btree", "vector", "bitvec", "soa", "intrusive", "parallel", "rdump"], floor=1500, technique=IR + "write-effect provenance",
                note=EFFN + "For every const operation each write must go to a local variable, freshly allocated memory, the output argument, or a parallel container's mutex."),
    "C08": dict(rules=["effects"], groups=["all"], floor=50000, technique=IR + "write-effect provenance",
                note=EFFN + "No write of any operation may reach a non-constant global or static variable (thread-local ones excepted), directly or through a pointer stored in one."),
    "C22": dict(rules=["refs"], groups=["intrusive"], floor=100, technique=IR + "reference-balance typestate per symbolic pointer",
                note="Every operation of intrusive_ptr is instantiated over opaque add_ref/release and inlined; on every path (null/non-null, distinct handles and one handle passed twice) references taken minus dropped is compared, per symbolic pointer, with handles gained minus lost; taking after dropping and touching null counts are violations."),
    "C23": dict(rules=["rc"], groups=["refcount"], floor=60, technique=IR + "atomic-operation and memory-order typestate, constant propagation of the old count",
                note="Each counter operation is inlined and all its paths inspected: exactly one atomic read-modify-write by one, release and acquire ordering before deletion, deletion exactly on the path the old value one selects, no non-atomic access, zero initial count. Not a proof of the C++ memory model; the ordering constants are compared with what it requires."),
    "C24": dict(rules=["scope"], groups=["scope"], floor=120, technique=IR + "exit-action and value-token typestate on all exits",
                note="Guards are instantiated around an opaque scope body that may throw and may dismiss; for enabled and disabled guards every normal and exceptional path is checked for exactly one exit action or, for the value guard, for the token of the value held by the variable at each point."),
    "C16": dict(rules=["elems"], groups=["rnode", "pnode"], floor=800, technique=IR + "element-event provenance",
                note="Every operation of the node hash containers is instantiated over opaque element types and inlined; every construction, copy, move, assignment, destruction and release on every path is traced to the object it touches. Elements of the container may only be destroyed by erasing operations (or where the path has established the container is empty), assigned only by assigning operations, and never constructed over, moved or copied from."),
    "C17": dict(rules=["elems"], groups=["rflat", "pflat", "btree", "vector", "tmove"], floor=20000, technique=IR + "element-event provenance and moved-from typestate",
                note="Every operation is instantiated over opaque element types and inlined; on every path no copy may read an element of the container (directly or through a temporary it was moved to), and in the flat hash containers each element moved from is destroyed at its old place before the next is moved and before the operation ends."),
    "C18": dict(rules=["whole"], groups=["raw", "btree", "vector", "state", "parallel"], floor=1500, technique=IR + "byte-wise symbolic value propagation of the object representation",
                note="The bytes of state are those the default constructor sets. For move construction, swap and move assignment, with stateless and stateful function objects, each path is followed byte by byte: the destination must end with the source's bytes, the source with the destination's (swap) or the default constructor's (move), and no element event, allocation, hash, comparison or throwing exit may be on the path."),
    "C19": dict(rules=["elems"], groups=["het"], floor=2500, technique=IR + "effect analysis of heterogeneous operations",
                note="Every lookup, counting, testing, erasing and accessing operation is instantiated with transparent function objects and a foreign key type that is implicitly convertible to the key type; on every path no element or key construction (other than a b-tree shifting its own elements) and no allocation may occur."),
    "C13": dict(rules=["table"], groups=["rflat", "rnode", "pflat", "pnode"], floor=20000, technique=IR + "construct-before-publish typestate on unwinding paths",
                note=TABN + "At every exceptional exit of an inserting operation the numbers of elements constructed, slots marked occupied and size increments so far must agree (all zero, or all undone), no table cell may be left pointing at freed or unfinished storage, and the rehash path may not lose moved elements."),
    "C14": dict(rules=["table"], groups=["rflat", "rnode", "pflat", "pnode"], floor=600, technique=IR + "destroy/unmark/uncount pairing typestate",
                note=TABN + "Each element destroyed must be at a slot whose control byte the path has established to be occupied or that the operation looked up, the control byte written must be indexed by the same position, size decremented once, and nothing of the element accessed afterwards."),
    "C15": dict(rules=["alloc"], groups=["rflat", "rnode", "pflat", "pnode", "btree", "vector", "rdump", "pdump"], floor=1500, technique=IR + "ownership typestate of allocated blocks; release sizes compared as functions of the recorded capacity",
                note="Every allocation site is followed on every normal and unwinding path until the block is released or stored in the container; the container's own block word may not be overwritten before its block is released; units built on the witness allocator may not reach the global heap; sizes given back are evaluated as functions of the capacity (hash tables: every 2^k-1; b-tree nodes: every recorded room; vector: end-of-storage minus begin) and must equal the sizes requested. Re-hashing stored elements is assumed not to throw. Blocks held in containers' interior (b-tree children) are checked for size, not for reachability."),
    "C20": dict(rules=["alias"], groups=["vector", "vectriv"], floor=60, technique=IR + "read-before-disturb typestate on the argument",
                note="In push_back, emplace_back, resize, insert and emplace (element types with non-trivial and with trivial copies, standard and witness allocator) every read of the argument on every path must precede the first move, overwrite, destruction or release of the vector's existing elements, unless the path has established by comparing addresses that the argument lies outside them."),
    "C25": dict(rules=["dump"], groups=["rdump", "pdump"], floor=1000, technique=IR + "symbolic replay of every dump sequence through load",
                note=DUMPN + "At each end of a load every field must hold what was dumped from that field, every block must have been read, with the same extent, to where the same pointer field now points, without overlap and without being overwritten later; nothing is left unread; a non-empty table is dumped with all of its blocks; every submap is handled once."),
    "C21": dict(rules=["vecx", "alloc"], groups=["vector", "vecthrow"], accept=["C15"], floor=1500, technique=IR + "element lifetimes as symbolic intervals, compared with begin and end at every exit; ownership typestate of blocks",
                note="The vector's begin, end and capacity words are turned into SSA values and every construction and destruction of an element, in straight code or in a loop over moving pointers, extends or shrinks intervals with symbolic linear bounds. At every return and every exceptional exit the live intervals must be exactly begin to end (none for a failed construction); every block allocated must be released or owned. Elements have throwing default and copy constructors, with a non-throwing or a throwing move; begin <= position <= end is assumed of arguments."),
    "C26": dict(rules=["dump", "alloc"], groups=["rdump", "pdump"], accept=["C15"], floor=1000, technique=IR + "symbolic replay of dump sequences through load; ownership typestate of blocks",
                note=DUMPN + "Table pointers must end in storage allocated by this load and large enough, for every capacity 2^k-1, for the blocks read; the old block must be released and its pointer dropped; no exceptional exit leaves a capacity without storage; with a submap count that differs from the container's the parallel load must neither lock nor write a submap and return false."),
    "C27": dict(rules=["memo"], groups=["memo"], floor=500, technique=IR + "token propagation of arguments, function result and cached value",
                note=MEMON + "The function may be called only after the table was consulted and no entry accepted, once, with the caller's arguments in order; what the caller gets and what is stored must be the same call's result, or the accepted entry's value."),
    "C28": dict(rules=["memo"], groups=["lru"], floor=800, technique=IR + "typestate of list nodes and index entries",
                note=MEMON + "The list functions of the standard library are the list events; each event's node and position are named (new node, found node, first, last). On every normal and exceptional exit the events in list and index must correspond, within one hold of the lock. Hashing and comparing keys are taken not to throw here."),
    "C29": dict(rules=["soa"], groups=["soacol"], floor=800, technique=IR + "per-column event sequences compared at every exit",
                note="A three-column container is instantiated over columns whose every operation is one opaque event that may throw; on every path, normal and exceptional, the sequences of events each column received are compared, rows are checked to take every member from its own column at the position asked for, and the permuting phase of a sort is checked to do the same to every column, with marks cleared in between and nothing that can throw after it began."),
    "C30": dict(rules=[], pyrule="compile_all", floor=3000, technique="type checking of instantiation witnesses by two compilers, and linkage of every definition a header emits",
                note="Every public header is compiled alone (included twice), all together in both orders, and every operation of every container, cache, memoizer, pointer, guard and utility is instantiated with minimal user types and five mutex types, with clang and gcc, without running anything; each compiler error is reported at the library line that fails. Each symbol a header emits must have inline linkage."),
    "C31": dict(rules=[], pyrule="type_facts", floor=200, technique="compile-fail witnesses: static_assert over requires-expressions and exact result types",
                note="For every container family, facts about types are stated as static_asserts: exact types of iterators, references, accessors and callback arguments, expressions that must be rejected (each paired with its accepted form on a non-const object), copyability of guards and handles, noexcept of moves. Two compilers decide them."),
}
NA = {
    "C32": "Needs the numeric relation between a slot index, the size and the bits of a mask ((size mod 64), slot(size), last <= size) through user lambdas applied word by word; no sound abstract domain in reach relates bit positions of a word to the symbolic size, and enumerating sizes would be execution, not static analysis.",
    "N01": "Functional correctness over all operation histories (the set of keys reachable by probing after any sequence of inserts, erases and rehashes) is an inductive numeric invariant of the control bytes; its local ingredients that can be decided statically are claimed separately (C09 one hash selects position and tag, C11 only accepted elements, C12, C13, C14).",
    "N02": "Sortedness and balance are quantified heap invariants over node counts, positions and the comparator's order through loops; no sound static argument in reach bounds them. What an insertion does against what it reports is claimed in C12, relocation in C17, storage in C15.",
    "N03": "The results are arithmetic on words at symbolic bit offsets; deciding them needs bit-precise reasoning over all sizes and offsets (a solver or execution), not dataflow.",
    "N04": "Which entry is dropped and where used entries go is decided in C28 (victim is the last of the list, used and new entries go to the front); that the shard then exceeded its configured size is a numeric relation between a list's length and a run-time limit over all histories.",
    "N05": "Load factor, probe termination and expected cost are quantitative run-time statements (growth counters against capacities over histories, quality of a user's hash); static analysis in reach cannot bound them.",
    "N06": "Value-level results of arithmetic and sequence utilities for all arguments; deciding them needs functional proof or execution, not dataflow. That they compile for the types they admit is decided in C30.",
}
