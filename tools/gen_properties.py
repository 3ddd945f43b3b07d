#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, run, commit both."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Edits on owned trees and forests yield exactly the ordered tree they name",
 "After any sequence of push/pop at either end, append, prepend, insert_prev_sib, insert_next_sib, detach, abandon and data updates, made through Tree, Forest or a Node at any depth, every tree and forest holds exactly the data items, in exactly the parent/child arrangement and sibling order, that the same sequence produces on an ideal ordered tree. Each operation returns what it removed (the whole subtree, unchanged) or None exactly when there is nothing to remove. No other tree or forest is affected.",
 ["histories", "inputs"], "every finite sequence of edits, on any number of coexisting trees and forests of any shape, at any node, through any of the owning handles",
 "The doc tests run one to three edits on one literal tree of at most seven nodes and compare the printed text; they never mix edit kinds, act at depth, or continue on what was detached.",
 ["src/node.rs", "src/tree.rs", "src/forest.rs"],
 [("doubly linked sibling lists with head/tail/up pointers rewired by each edit", "src/node.rs push_front..append, insert_prev_sib, insert_next_sib, detach"),
  ("a moved tree is forgotten by its old owner", "mem::forget in src/node.rs, Forest::clear in src/forest.rs"),
  ("root hand-over on abandon", "src/tree.rs Tree::abandon")],
 [("children list", "head/tail/prev/next of each node", "src/node.rs struct Node")],
 ["Node::iter, front, back, data; return values of pop/detach/abandon"])

prop("C02", "Counts, ends and parent links agree with the real structure at every node",
 "At every node of every tree and forest, after any history of construction and edits, degree() is the number of children that iteration yields, node_count() is the number of nodes in the subtree (in a forest, of all its trees), has_no_child() says whether there are none, and front()/back() are the first and last child. parent() of each child is the very node it hangs from, and a root (of a tree, of a tree in a forest, or of anything just removed) has no parent. The same holds when the tree is looked at through shared handles.",
 ["histories", "inputs"], "every node (in particular every ancestor of the edited node) after every prefix of every edit history, for scattered, contiguous and mixed storage",
 "Counters are maintained incrementally along the ancestor chain; tests read degree/node_count on freshly built depth-2 trees and never after a deep edit, a detach or an abandon.",
 ["src/node.rs", "src/rc.rs", "src/forest.rs", "src/tree.rs", "src/size.rs"],
 [("incremental size accounting up the ancestor chain", "src/node.rs inc_sizes, dec_sizes"),
  ("fake forest root skipped by parent()", "src/node.rs parent, is_forest"),
  ("up pointer reset on removal", "src/tree.rs Tree::from_node; src/node.rs detach")],
 [("size", "degree and descendants cached in each node", "src/node.rs struct Node, src/size.rs")],
 ["degree, node_count, has_no_child, front, back, parent, is_root"])

prop("C03", "Every data item is dropped exactly once and all memory is returned",
 "Across any history of the safe operations, a data item given to the library is at every moment either still reachable from one living owner, or has been handed back to the caller, or has been dropped; it is dropped exactly once, never while still reachable. Once every tree, forest, iterator, cursor and handle of the history is gone, every item has been dropped and every allocation made by the library is freed. This includes owning iterators, BFS streams and cursors abandoned half-way.",
 ["histories", "inputs"], "every history of construction, edits, cloning, iteration, conversion between Tree/Forest/walk/shared handle, and release in any order",
 "Ownership moves by mem::forget and manual reference counts; the test payload is i32, which has no destructor, so no existing test can see a lost or doubled drop.",
 ["src/heap.rs", "src/node_vec.rs", "src/node.rs", "src/tree.rs", "src/forest.rs", "src/rc.rs", "src/into_iter.rs", "src/bfs_impls.rs"],
 [("manual ownership transfer", "mem::forget in src/node.rs, src/tree.rs, src/rc.rs"),
  ("node release", "src/heap.rs drop_node; src/node.rs Data::take/into_inner"),
  ("contiguous buffer released with its last node", "src/node_vec.rs decr_ref, Drop")],
 [("ref_cnt", "live nodes and handles of a contiguous buffer", "src/node_vec.rs")],
 ["Drop of the payload type; the global allocator"])

prop("C04", "No safe operation touches memory it does not own",
 "No program that uses only the crate's safe operations reads or writes freed, uninitialised or out-of-bounds memory, frees memory twice or with a wrong layout, or produces an invalid value. This holds for every payload type (zero-sized, over-aligned, heap-owning), every storage kind and every order in which trees, forests, iterators, cursors and handles are used and released.",
 ["histories", "inputs", "programs"], "every history of safe operations and every payload layout",
 "The tests run on uninstrumented builds with i32 payloads: a stray read of freed memory usually still yields the expected number.",
 ["src/node_vec.rs", "src/heap.rs", "src/node.rs", "src/rc.rs", "src/iter.rs", "src/iter_rc.rs", "src/walk.rs", "src/bfs_impls.rs", "src/tree.rs", "src/forest.rs"],
 [("raw NonNull links between nodes", "src/node.rs"), ("unchecked buffer indexing", "src/node_vec.rs"),
  ("pointer-difference index recovery", "src/rc.rs Node::rc, Node::into_rc"), ("raw iterator cursors", "src/iter.rs, src/iter_rc.rs, src/walk.rs")],
 (), ["AddressSanitizer/LeakSanitizer and Miri reports on the running crate"])

prop("C05", "Contiguous and scattered storage are indistinguishable to the user",
 "A tree or forest built node by node, from a tuple, or collected from a BFS stream or clone (in any mixture, at any depth) answers every later operation identically: same results, same structure, same text, same comparisons. A subtree taken out of a contiguously stored tree stays fully usable after the rest of that tree is gone, whatever the order in which the pieces are edited, recombined and dropped.",
 ["histories", "configurations"], "every edit history run on twins that differ only in storage kind, and every release order of the pieces of one contiguous buffer",
 "Tests use each storage kind in separate, single-step examples; none takes a contiguous tree apart and keeps using a piece after the rest is dropped.",
 ["src/node_vec.rs", "src/node.rs", "src/heap.rs", "src/rc.rs", "src/bfs_impls.rs"],
 [("storage tag carried by each node", "src/node.rs enum Data"), ("buffer kept alive by its remaining nodes", "src/node_vec.rs ref_cnt/decr_ref")],
 [("Data variant", "which allocation owns the node", "src/node.rs")],
 ["all public observers on both twins"])

prop("C06", "BFS visits every node once, level by level, with its true sizes",
 "bfs, bfs_mut, into_bfs, bfs_children and bfs_children_mut, from a Tree, a Forest or a Node at any depth, yield each node of the subtree (without the starting node for the *_children forms) exactly once, in level order and left to right within a level, and nothing outside it. Each visit carries that node's own data, its number of children and its number of descendants; the size of the whole stream is reported consistently. The mutable forms give access to each item exactly once and later reads see every update; map changes the data only.",
 ["inputs", "histories"], "every tree/forest shape and storage, every starting node, every prefix of the stream",
 "All examples use the same two-level 7-node tree started at the root; ragged depths, single chains, empty forests, mid-tree starts with right siblings and half-read streams are not exercised.",
 ["src/bfs.rs", "src/bfs_impls.rs", "src/iter.rs", "src/into_iter.rs"],
 [("queue of child iterators", "src/bfs.rs Splitted::next"), ("splitting a node into data and children", "src/bfs_impls.rs impl Split"),
  ("single-item starting iterator", "src/into_iter.rs Iter::once/IterMut::once")],
 (), ["Visit.data, Visit.size, BfsTree.size, BfsForest.size"])

prop("C07", "Cloning and rebuilding from BFS give an equal, independent tree",
 "For every tree, forest or node, clone, deep_clone, deep_clone_forest and collecting any of its BFS streams into a Tree or Forest produce a structure that equals the source in data, shape and order, with right counts and links at every node. Each source item is cloned exactly once, or moved for owned streams. The result shares nothing with the source: editing or dropping one never shows in the other.",
 ["inputs", "histories"], "every shape, storage mixture and starting node, followed by arbitrary edits of source and copy",
 "Tests rebuild three small shapes once and compare text; none edits or drops the source afterwards or checks the counts inside the rebuilt copy.",
 ["src/bfs_impls.rs", "src/node_vec.rs", "src/tree.rs", "src/forest.rs", "src/rc.rs"],
 [("child-to-parent assignment by remaining degree", "src/bfs_impls.rs From<BfsTree>, From<BfsForest>"),
  ("buffer fill", "src/node_vec.rs append_child, make_node")],
 (), ["structure of the copy and of the source; clone/drop log of the payload"])

prop("C08", "Inconsistent BFS streams are refused, never turned into a broken tree",
 "BfsTree and BfsForest can be made by hand, filtered or partly consumed, so the sizes they carry may not fit the visits that follow. Converting such a stream into a Tree or Forest either yields a tree that is internally consistent (counts, links and data of exactly the visits supplied) or panics; it never corrupts memory and never yields a tree whose counts contradict its structure. A consistent stream is always accepted.",
 ["inputs"], "every finite stream of visits with arbitrary degree and descendant figures, and every truncation, extension, permutation or perturbation of a genuine stream",
 "Tests only feed streams that come straight from a tree.",
 ["src/bfs_impls.rs", "src/node_vec.rs", "src/bfs.rs"],
 [("bounds and consistency checks while filling", "src/bfs_impls.rs From<BfsTree>, From<BfsForest>; src/node_vec.rs make_node")],
 (), ["result or panic of Tree::from / Forest::from; sanitizer reports"])

prop("C09", "The DFS cursor walks the exact Begin/Leaf/End tour",
 "From a fresh TreeWalk or ForestWalk, reading get() and calling forward() repeatedly visits, in depth-first left-to-right order, each childless node once as Leaf and each other node once as Begin (before its subtree) and once as End (after it), and then reports None for ever. next() is forward() followed by get(), and get_parent() is at every step the parent of the current node. Turning the walk back into a Tree or Forest at any point returns the original, unchanged.",
 ["inputs", "histories"], "every tree and forest shape and storage kind, every number of steps including past the end",
 "Examples walk one 7-node tree; single nodes, chains, ragged and empty forests, and stepping far past the end are not covered together.",
 ["src/walk.rs"],
 [("stack of sibling cursors with a direction", "src/walk.rs Walk::forward"), ("sentinel limits a tree walk to its root", "src/walk.rs Nodes::this")],
 [("path/direction/visit_type", "cursor position and phase", "src/walk.rs struct Walk")],
 ["get, next, forward, get_parent, Tree::from(walk), Forest::from(walk)"])

prop("C10", "Cursor jumps and revisits land on the named node and keep the walk sound",
 "At any moment of a walk, to_child(n), to_sib(n) and to_parent() move to the n-th child (from 0), the n-th following sibling, or the parent and return exactly that visit (Begin or Leaf for children and siblings, End for a parent), or return None when no such node exists; revisit() restarts a node at End, restarts the whole traversal when it is over, and changes nothing otherwise. After any mix of jumps, forward() continues the depth-first tour from the new position: a jump to a missing child or sibling leaves the cursor past the last one (get() is None, the next step is the parent's End), while asking a leaf for a child leaves it on that leaf. No sequence of cursor calls panics or hangs.",
 ["histories", "inputs"], "every sequence of get/forward/next/to_parent/to_child/to_sib/revisit/get_parent on every tree and forest, including calls on a finished or past-the-end cursor",
 "Tests do one successful jump each; failed jumps, jumps from End or from a finished walk, and what follows them are never run.",
 ["src/walk.rs"],
 [("jump operations", "src/walk.rs Walk::to_parent, to_child, to_sib, revisit")],
 [("path/direction/visit_type/origin", "cursor position, phase and restart point", "src/walk.rs struct Walk")],
 ["return values of the jumps and all later get()/forward()"])

prop("C11", "Tuple notation builds exactly the tree it spells, for every nesting",
 "Tree::from_tuple and Forest::from_tuple build, for every nesting of tuples of up to 32 children per node, the tree or forest whose nodes, order and nesting are those of the tuple: the first element of a tuple is the node's data and the rest are its children in order (for a forest, all elements are its trees), a bare value or one-element tuple being a childless node. The result equals the same tree built with push_back, has right counts and links at every node, and stays correct under later edits.",
 ["inputs", "programs"], "every nesting shape accepted by the type system, at every arity 0..=32 and mixed depths",
 "Tests build two balanced shapes of depth 2; shapes in which a nested branch is followed by a sibling at a shallower level are absent.",
 ["src/node_vec.rs", "src/tuple.rs", "src/tree.rs", "src/forest.rs"],
 [("per-level offsets while filling the buffer", "src/node_vec.rs construct_tree, construct_forest"), ("arity macros", "src/tuple.rs tuple_tree_impls!, tuple_forest_impls!")],
 (), ["structure, counts and links of the built tree"])

prop("C12", "Tuple visitors report the tuple's shape consistently",
 "For every tuple, SIZE, height() and descendants(k) give the number of children, of descendants, of levels, and of nodes k+1 levels below the top. preorder emits Branch before and Frame after a branch's children and Leaf for each childless node; postorder emits Frame before and Branch after; both carry each datum exactly once in left-to-right order. The *_with_size_hint forms emit the very same events in the same order, each with the true size of its node.",
 ["inputs", "programs"], "every nesting shape accepted by the type system",
 "One shape is checked for preorder and postorder; the size-hint forms, height and descendants are not tested at all.",
 ["src/tuple.rs"],
 [("visitor methods generated per arity", "src/tuple.rs impl_tuple_tree!, impl_tuple_forest!")],
 (), ["the sequence of (Visit, Size) events, SIZE, height, descendants"])

prop("C13", "Operator notation means what it says and leaves borrowed operands alone",
 "tr, fr and every combination of - and / on owned or borrowed trees and forests build the same tree or forest as the corresponding push_back/append sequence: t/x adds x (a tree, all trees of a forest, or nothing for ()) after t's children, a-b lists a's trees then b's, -t is the forest of t. An operand passed by reference is cloned and remains exactly as it was; an operand passed by value is moved, not cloned.",
 ["inputs", "programs"], "every operator overload with every ownership combination, on operands of every shape, and every nesting of them",
 "Doc tests use owned literal operands only; the borrowed overloads (more than half of them) are never executed.",
 ["src/notation.rs"],
 [("operator impls", "src/notation.rs impl_notations!")],
 (), ["result and borrowed operands; clone log of the payload"])

prop("C14", "Equality, ordering and hashing follow structure alone",
 "Two trees, forests, nodes or shared nodes are equal exactly when they have the same shape, order and data; != is its negation. Ordering compares data first, then children lexicographically, node by node, is a total order consistent with equality for totally ordered data, and partial_cmp follows partially ordered data. Equal values hash equally, and none of this depends on storage, addresses, history or the kind of handle (Tree and its root Node agree).",
 ["inputs", "histories"], "every pair and triple of trees/forests/nodes/shared nodes, including near-misses that differ in one datum, one child or nesting only",
 "Tests only assert equality of equal literals; inequality, ordering, partial ordering and hashing are never asserted.",
 ["src/macros.rs", "src/node.rs", "src/tree.rs", "src/forest.rs", "src/rc.rs"],
 [("comparison and hash macros", "src/macros.rs impl_order_relations_for_node!, impl_order_relations_for_collection!, impl_hash_*")],
 (), ["==, !=, <, <=, >, >=, partial_cmp, cmp, hash"])

prop("C15", "Display text is canonical",
 "Display of a Tree, Node, or shared node is the data followed, if there are children, by \"( \", each child's text followed by one space, and \")\"; an empty forest is \"()\" and any other forest is its trees in the same parenthesised form. The text depends only on structure and data, is the same for every kind of handle and storage, and reading it back by the same grammar gives the original structure. Debug, its node addresses and spacing left out, shows the same data in the same order and nesting.",
 ["inputs", "histories"], "every tree and forest of every shape, storage kind and handle kind, after any history",
 "Tests print a handful of literals.",
 ["src/macros.rs"],
 [("formatting macros", "src/macros.rs impl_debug_display_*")],
 (), ["to_string() and {:?} of Tree, Forest, Node, RcNode"])

prop("C16", "Child iterators yield the children present at the start, once, in order",
 "iter, iter_mut, iter_rc and the owning into_iter yield each child that was present when iteration started exactly once, in order, then None for ever (into_iter of a Tree yields that tree), with len/size_hint exact at every step. Editing the node just yielded while iter_mut or iter_rc runs (inserting siblings before or after it, detaching it, changing its data or children) does not disturb this: inserted nodes are not visited, and nothing is skipped or repeated. Shared iteration stays memory-safe whatever else is removed or dropped meanwhile.",
 ["histories", "inputs"], "every child list and every interleaving of next() with edits of the node in hand (for iter_rc: of any node)",
 "Doc tests do one uniform edit per child on two or three children; size hints, exhaustion, mixed edits and removal of other nodes during shared iteration are not tested.",
 ["src/iter.rs", "src/iter_rc.rs", "src/into_iter.rs", "src/node.rs", "src/rc.rs"],
 [("next sibling read when a child is yielded, with a count fixed at the start", "src/iter.rs CountedRawIter; src/iter_rc.rs")],
 (), ["items, len, size_hint; the tree after the loop"])

prop("C17", "Shared handles of one tree all see and make the same edits",
 "Edits made through any RcNode of a tree (push/pop at both ends, append, prepend, insert siblings, detach, extend, data_mut, at any depth) change that tree exactly as the ideal ordered tree changes, and every other handle sees the result at once. A handle denotes the same node for as long as it lives: after pops, detaches and drops elsewhere, its data, children, parent() and is_root() are those of that node, which is a root once removed from its parent or once its parent is gone. front, back, parent and iter_rc return handles of the very nodes concerned, and converting a Tree to RcNode and back is the identity.",
 ["histories", "inputs"], "every history of edits through any set of simultaneously held handles, for scattered, contiguous and mixed trees",
 "rc_works is the only test with several handles and it is read-only apart from one pop.",
 ["src/rc.rs", "src/iter_rc.rs", "src/node.rs"],
 [("shared cell per node", "src/rc.rs RcNode, Node::rc/into_rc"), ("orphaning of children when the last handle goes", "src/rc.rs Drop for RcNode")],
 (), ["all RcNode observers through all live handles"])

prop("C18", "A node lives exactly as long as a strong handle or living ancestor holds it",
 "A shared node's data is not dropped while a strong handle to it, or to any of its ancestors, exists, and is dropped as soon as none does; cloning or dropping handles in any number and order has no other effect. Dropping a node's last holder releases its subtree, except that descendants still held become roots with their subtrees intact. A weak handle never keeps data alive, upgrades successfully exactly while the node is alive, and may outlive everything. All this also holds when the data items themselves keep handles of the tree and their destructors, clones, comparisons or texts read it, or, on release, edit it.",
 ["histories"], "every sequence of clone, drop, downgrade, upgrade, navigation and removal over any number of strong and weak handles, for both storage kinds and any release order",
 "No test clones, downgrades or upgrades a handle, or drops a parent before its children's handles in contiguous storage.",
 ["src/rc.rs", "src/node_vec.rs", "src/heap.rs"],
 [("per-node strong count and per-buffer count", "src/rc.rs Shared, RefCount; src/node_vec.rs ref_cnt"), ("Rc/Weak for scattered nodes", "src/rc.rs ScatteredRcNode, ScatteredWeakNode")],
 [("count/ref_cnt", "strong handles of a node; nodes and handles of a buffer", "src/rc.rs, src/node_vec.rs")],
 ["drop log of the payload, upgrade() results, allocator"])

prop("C19", "Dynamic borrows are enforced and a refused borrow changes nothing",
 "While a shared node's data is mutably borrowed, any other borrow of that node's data or children through any handle panics, and while it is immutably borrowed any mutable borrow or edit of that node panics; borrows of different nodes never conflict, and any number of shared borrows coexist. A refused operation leaves the tree, all handles and the existing borrow exactly as they were, and everything works again once the borrow is released.",
 ["histories"], "every nesting of live data()/data_mut() borrows with every operation, on every handle of the node and of other nodes, for both storage kinds",
 "No test holds a borrow across another operation.",
 ["src/rc.rs", "src/node_vec.rs"],
 [("RefCell per node", "src/rc.rs node_borrow, node_borrow_mut")],
 (), ["panic or success of each operation; state afterwards"])

prop("C20", "Cursors moved to or shared between threads are free of data races",
 "TreeWalk and ForestWalk may be sent to and shared between threads when their data may. Whatever threads then do with the walks they own (step, turn back into trees, edit, clone, drop) or share by reference (read, compare, clone nodes), there is no data race and no item is lost, leaked or dropped twice, even when trees now on different threads were cut from one contiguously stored tree. Each thread's results equal those of the same work done sequentially.",
 ["schedules", "histories"], "every interleaving of threads owning pieces of the same original tree or sharing one walk",
 "No test creates a thread.",
 ["src/walk.rs", "src/node_vec.rs"],
 [("unsafe impl Send/Sync", "src/walk.rs"), ("buffer reference count shared by pieces", "src/node_vec.rs ref_cnt")],
 [("ref_cnt", "shared by all trees cut from one buffer", "src/node_vec.rs")],
 ["race detector (Miri, ThreadSanitizer), drop log, final structures"])

prop("C21", "A panic in user code or a misused call leaves everything sound",
 "If user code called by the library panics (the clone, drop, comparison, hash or formatting of a data item, a closure or iterator feeding a rebuild) or an operation panics because it is misapplied (detaching or adding siblings to a root), then no item is dropped twice or used after it was dropped. Trees, forests and handles that survive the panic are consistent and fully usable; for read-only operations and refused edits they are unchanged.",
 ["fault_sequences", "histories"], "a panic at every single call of user code, in every operation, on every shape; misuse of every edit on every root",
 "No test panics on purpose.",
 ["src/bfs_impls.rs", "src/node_vec.rs", "src/heap.rs", "src/node.rs", "src/tree.rs", "src/forest.rs", "src/rc.rs"],
 [("ownership handed over before or after the call", "src/heap.rs drop_node; src/bfs_impls.rs From impls; src/node.rs insert_*_sib, detach")],
 (), ["drop log, consistency of survivors, sanitizers"])

prop("C22", "The no_std build behaves exactly like the default build",
 "Built with the no_std feature the crate offers the same operations and, for every history, gives the same results, structures, texts, orderings, drops and panics as the default build.",
 ["configurations", "histories"], "every history, in both feature configurations",
 "The test suite is only ever built with default features.",
 ["src/lib.rs", "src/rc.rs", "Cargo.toml"],
 [("feature-selected imports", "src/lib.rs mod rust; src/rc.rs RefCount for Cell")],
 (), ["event logs of identical workloads on the two builds"])

prop("C23", "Traversal, cloning and editing need no stack proportional to depth",
 "On trees of any depth and width, the DFS cursor, all BFS streams, clone and deep_clone, rebuilding, child iteration and every edit finish on a small fixed-size stack with the right result. Their stack use does not grow with the depth or the number of nodes.",
 ["inputs"], "chains, combs and fans of up to hundreds of thousands of nodes, in both storage kinds",
 "The deepest tree in the tests has three levels.",
 ["src/walk.rs", "src/bfs.rs", "src/bfs_impls.rs", "src/node.rs"],
 [("explicit stack in the cursor", "src/walk.rs Walk::path"), ("explicit queue in BFS", "src/bfs.rs Splitted"), ("clone by BFS", "src/bfs_impls.rs deep_clone")],
 (), ["stack high-water mark and results on a small stack"])

prop("C24", "A node never moves in memory while it exists",
 "From its creation until it is dropped, consumed or copied, every node of a tree or forest and the data item in it stay at the same address, through all edits of itself and of others: pushing, inserting, appending and prepending it elsewhere, popping and detaching it, taking it from a forest as a tree and back, turning a tree into a shared handle and back, and clearing or dropping everything around it, for scattered as well as contiguous storage. This is what handing out Pin<&mut Node> promises. Two operations make new nodes by design: rebuilding or cloning, and abandon, which leaves the tree with a new root node.",
 ["histories", "inputs"], "every node after every prefix of every edit history, scattered, contiguous and mixed, through owned and shared handles",
 "No test looks at addresses, and a node copied to a new place looks the same to everything else until someone holds a pointer to the old one.",
 ["src/node.rs", "src/tree.rs", "src/forest.rs", "src/rc.rs", "src/node_vec.rs"],
 [("Pin in every mutable access", "src/node.rs, src/tree.rs, src/forest.rs"), ("edits relink nodes, never copy them", "src/node.rs detach, insert_*_sib, push_*, pop_*"), ("Tree and RcNode own the same node", "src/rc.rs From<Tree> for RcNode, into_tree")],
 (), ["addresses of Node and of its data"])

prop("C25", "A tree built in one go lies in one block, freed with the last of its nodes",
 "A tree or forest built in one go, from a tuple or from a BFS stream of any shape and size, keeps all its nodes next to each other in one contiguous block of memory. Nodes built one by one are stored separately. While no weak handle is around, the memory of a separately stored node is returned as soon as that node is gone, and a block as soon as the last node built in it (and the forest built with it) is gone, wherever its nodes have been moved by then and whichever owners hold them; not later, and not only at the end.",
 ["histories", "inputs"], "every shape and size, every way to take such a tree apart, recombine, share and drop its pieces",
 "The tests look neither at addresses nor at memory in use.",
 ["src/node_vec.rs", "src/bfs_impls.rs", "src/heap.rs", "src/rc.rs", "src/tree.rs", "src/forest.rs"],
 [("one buffer with a count of living nodes", "src/node_vec.rs NodeVec::buf, ref_cnt"), ("built from a stream", "src/bfs_impls.rs From<BfsTree>, From<BfsForest>"), ("the last node frees the buffer", "src/heap.rs drop_node")],
 (), ["addresses of data items, live heap blocks"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
