"""Which workloads decide which property: (flavour, suite, quick cases, thorough cases), options.

`accept` narrows the kinds of failure that speak about the property (default: any). Workloads of other
properties that are borrowed here only count for what they say about this one; other failures are skipped.
"""
LEVEL = {"C21": "fault_enumeration"}
MEM = ("item", "allocator", "crash", "asan", "ub")       # what "no memory error" looks like
DROP = ("item", "allocator", "crash", "leak")
OWN = ("oracle", "panic", "leak", "item", "allocator", "hang", "crash")   # anything but what the workload marks as another property's business ("foreign")

def J(*a, **k): return (a, k)

PLAN = {
 "C01": [J("native", "owned_struct", 240000, 12000000), J("native", "exh_struct", 12, 12, chunks=12), J("release", "owned_struct", 0, 8000000), J("native", "tours", 12000, 400000, accept=MEM + ("hang",)), J("native", "huge_edits", 480, 20000)],
 "C02": [J("native", "owned_counts", 240000, 12000000, accept=OWN), J("native", "exh_counts", 12, 12, chunks=12, accept=OWN), J("release", "owned_counts", 60000, 8000000, accept=OWN),
         J("native", "rc_counts", 60000, 3000000, accept=OWN), J("native", "huge_edits", 480, 20000, accept=OWN)],
 "C03": [J("native", "owned_drops", 160000, 10000000, no_leaks=False, accept=OWN), J("native", "exh_drops", 12, 12, chunks=12, no_leaks=False, accept=OWN),
         J("native", "rc_life", 15000, 600000, no_leaks=False, accept=DROP), J("native", "rc_exh_life", 6, 6, no_leaks=False, accept=DROP),
         J("native", "bfs", 15000, 600000, no_leaks=False, accept=DROP), J("native", "own_streams", 8000, 300000, no_leaks=False, accept=DROP), J("native", "clones", 10000, 600000, no_leaks=False, accept=DROP),
         J("native", "iter_plain", 30000, 1000000, no_leaks=False, accept=DROP), J("native", "iter_edited", 30000, 1000000, no_leaks=False, accept=DROP),
         J("native", "tours", 15000, 500000, no_leaks=False, accept=DROP), J("native", "jumps", 15000, 500000, no_leaks=False, accept=DROP),
         J("native", "twins_owned", 8000, 400000, no_leaks=False, accept=DROP), J("native", "operators", 30000, 500000, no_leaks=False, accept=DROP), J("native", "huge_edits", 320, 10000, no_leaks=False, accept=DROP)],
 "C05": [J("native", "twins_owned", 60000, 4000000, no_leaks=False), J("native", "twins_shared", 2500, 150000, no_leaks=False), J("native", "twins_exh", 6, 6, no_leaks=False),
         J("release", "twins_owned", 0, 2000000, no_leaks=False)],
 "C06": [J("native", "bfs", 150000, 6000000), J("native", "bfs_exh", 7, 9), J("release", "bfs", 0, 4000000), J("native", "own_streams", 40000, 2000000), J("native", "huge_streams", 320, 10000)],
 "C07": [J("native", "clones", 120000, 5000000), J("native", "bfs", 40000, 2000000, accept=MEM + ("oracle",)), J("release", "clones", 0, 3000000), J("native", "huge_copies", 320, 10000)],
 "C08": [J("native", "hostile_streams", 500000, 20000000), J("native", "doctored_streams", 300000, 10000000),
         J("release", "hostile_streams", 300000, 20000000), J("release", "doctored_streams", 200000, 10000000)],
 "C09": [J("native", "tours", 200000, 8000000), J("native", "tours_exh", 7, 9), J("release", "tours", 0, 4000000), J("native", "huge_tours", 320, 10000)],
 "C10": [J("native", "jumps", 300000, 12000000), J("native", "jumps_exh", 5, 6), J("release", "jumps", 0, 6000000), J("native", "huge_jumps", 320, 10000)],
 "C11": [J("tuples_build", "tree", 12000, 200000), J("tuples_build", "forest", 12000, 200000), J("tuples_build", "huge_tuples", 12, 12, chunks=4)],
 "C12": [J("tuples_visits", "tree_visits", 4000, 8000), J("tuples_visits", "forest_visits", 4000, 8000), J("tuples_visits", "huge_tuple_visits", 12, 12, chunks=4)],
 "C13": [J("native", "operators", 400000, 15000000), J("native", "expressions", 200000, 6000000), J("native", "huge_notation", 320, 10000)],
 "C14": [J("native", "compare_exh", 102, 550), J("native", "compare", 12000, 400000), J("native", "compare_history", 150000, 6000000), J("native", "compare_partial", 100000, 4000000), J("native", "huge_compare", 320, 10000)],
 "C15": [J("native", "texts", 60000, 2000000), J("native", "texts_exh", 7, 9), J("native", "texts_strings", 300000, 10000000), J("native", "huge_text", 320, 10000)],
 "C16": [J("native", "iter_plain", 200000, 8000000), J("native", "iter_edited", 300000, 12000000), J("native", "iter_hostile", 400000, 15000000), J("native", "iter_exh", 4, 5), J("native", "rc_nested", 60000, 3000000), J("native", "huge_iters", 480, 20000)],
 "C17": [J("native", "rc_edits", 40000, 2000000), J("native", "rc_exh_edits", 6, 6), J("native", "rc_nested", 60000, 3000000)],
 "C18": [J("native", "rc_life", 90000, 4000000, no_leaks=False, accept=OWN), J("native", "rc_exh_life", 6, 6, no_leaks=False, accept=OWN), J("native", "crowd", 160, 20000, no_leaks=False, accept=OWN), J("native", "huge_handles", 480, 20000, no_leaks=False, accept=OWN), J("native", "reentry", 60000, 3000000, no_leaks=False, accept=OWN)],
 "C19": [J("native", "borrows", 40000, 2000000), J("native", "borrow_table", 10, 10)],
 "C21": [J("native", "faults_owned", 200000, 8000000), J("native", "faults_exh", 33, 33, chunks=33), J("native", "faults_shared", 60000, 3000000), J("native", "faults_rc_exh", 5, 6), J("native", "faults_visitors", 1, 1)],
 "C24": [J("native", "owned_place", 160000, 8000000, accept=("oracle",)), J("native", "exh_place", 12, 12, chunks=12, accept=("oracle",)),
         J("native", "rc_place", 60000, 3000000, accept=("oracle",)), J("native", "rc_exh_place", 6, 6, accept=("oracle",)), J("release", "owned_place", 0, 4000000, accept=("oracle",))],
 "C25": [J("native", "store", 160000, 8000000, accept=("oracle",)), J("tuples_build", "tree_place", 4000, 8000, accept=("oracle",)), J("tuples_build", "forest_place", 4000, 8000, accept=("oracle",)), J("native", "huge_place", 320, 10000, accept=("oracle",))],
 "C23": [J("plain", "deep", 144, 144, chunks=48), J("native", "deep", 144, 144, chunks=48), J("release", "deep", 0, 144, chunks=48)],
}

# C04, C20, C22 are put together in special.py
MEMORY_SUITES = {  # suite: (native cases, asan cases, miri cases and chunks)
 "owned_all": (60000, 9000, 64), "exh_struct": (0, 0, 12), "rc_edits": (6000, 2000, 48), "rc_life": (10000, 3000, 48), "rc_nested": (15000, 3000, 48), "rc_exh_life": (0, 0, 6),
 "bfs": (8000, 3000, 48), "own_streams": (4000, 1500, 24), "clones": (8000, 3000, 40), "hostile_streams": (60000, 20000, 80), "doctored_streams": (40000, 15000, 64),
 "tours": (8000, 3000, 32), "jumps": (15000, 4000, 40), "operators": (20000, 6000, 48), "expressions": (6000, 2000, 24), "compare": (400, 200, 16), "texts": (1500, 500, 16),
 "iter_plain": (20000, 6000, 48), "iter_edited": (30000, 8000, 64), "iter_hostile": (60000, 15000, 96), "twins_owned": (4000, 1200, 24), "twins_shared": (200, 80, 16),
 "crowd": (80, 40, 0), "reentry": (8000, 2500, 16), "borrows": (3000, 800, 24), "borrow_table": (0, 10, 0), "faults_owned": (20000, 5000, 64), "faults_shared": (8000, 2500, 40), "faults_exh": (0, 33, 6), "faults_visitors": (0, 1, 1), "threads_items": (300, 0, 6),
 "huge_edits": (64, 48, 8), "huge_streams": (64, 48, 8), "huge_copies": (64, 48, 8), "huge_handles": (64, 48, 8), "huge_notation": (48, 32, 8),
}
SPECIAL = ("C04", "C20", "C22")
NO_STD_SUITES = {"owned_all": 20000, "exh_struct": 12, "rc_edits": 1000, "rc_life": 800, "bfs": 12000, "own_streams": 4000, "clones": 8000, "hostile_streams": 60000, "doctored_streams": 40000, "tours": 12000, "jumps": 20000,
 "operators": 30000, "expressions": 15000, "compare": 600, "compare_history": 15000, "texts": 3000, "iter_plain": 20000, "iter_edited": 30000, "iter_hostile": 30000, "twins_owned": 4000,
 "borrows": 800, "borrow_table": 10, "faults_owned": 15000, "faults_shared": 800, "faults_rc_exh": 3, "rc_nested": 10000, "threads_items": 200, "thread_types": 1, "crowd": 80, "reentry": 6000, "rc_counts": 6000,
 "owned_place": 8000, "store": 6000, "twins_shared": 200, "faults_visitors": 1, "compare_partial": 8000, "texts_strings": 15000, "iter_exh": 3, "jumps_exh": 3,
 "huge_edits": 64, "huge_streams": 64, "huge_copies": 64, "huge_tours": 64, "huge_jumps": 64, "huge_notation": 64, "huge_compare": 64, "huge_text": 64, "huge_iters": 64, "huge_handles": 64, "huge_place": 64}

RULES = {
 "C01": "A case is a random (or, in exh_*, every) history of safe edits on a set of owned trees and forests of mixed storage, judged after each operation against an ideal ordered tree (ids in child vectors): every item, arrangement, order and return value, in all slots. Non-trivial: at least one edit took effect. Distinct: hash of operations and operands. huge_edits: the same judgement on trees around 2^8..2^16 nodes or children.",
 "C02": "The same histories (and histories of edits through shared handles); after each operation every node of every tree has degree, node_count, has_no_child, front, back and parent recomputed from iteration alone. Non-trivial: at least one edit took effect. Distinct: hash of operations and operands. huge_edits: sizes around 2^8..2^16.",
 "C03": "Histories whose items are registered at birth; after each operation the set of living items must be the set reachable in the model plus those handed out; at the end of a case no item and no heap block may be left. Borrowed workloads (shared handles, BFS, clones, iterators, cursors, operators) count for leaks, double drops and dead items only. Non-trivial: an edit, or an object abandoned half-way.",
 "C04": "Workloads of all other properties, run under AddressSanitizer, under Miri (which also sees uninitialised reads, misalignment, invalid values and out-of-bounds inside live blocks) and under a checking allocator (red zones, wrong-layout frees, poisoned quarantine) with items that carry canaries; and 78 safe programs that would use freed or moved memory if they compiled must be refused (one that is accepted is run under Miri). Only memory errors count. Non-trivial and distinct as in each workload.",
 "C05": "Twin runs: the same history is executed on differently stored but equal worlds (all scattered / contiguous / mixed) and every observation (results, structure, text, comparisons, drop order) is compared. Non-trivial: at least one edit of contiguous storage. Distinct: hash of operations and operands.",
 "C06": "A random tree, forest or subtree (after random edits) is streamed by each BFS form; the visit sequence, sizes and remaining-size accounting are compared with the model's level order; mutable forms write and are read back. bfs_exh: every shape up to the bound. Non-trivial: at least three nodes. own_streams: a user's own tree type streamed through the Split trait. huge_streams: sizes around 2^8..2^16.",
 "C07": "A random tree, forest or node of either storage is cloned or rebuilt by each route; the copy is compared with the model (data, shape, order, counts, links), clone counts are read from the items, then source and copy are edited and dropped in turn, each judged after every step. Non-trivial: at least two nodes. huge_copies: sizes around 2^8..2^16.",
 "C08": "Hand-made streams (arbitrary sizes and visits) and doctored real ones (filtered, truncated, sizes changed, partly consumed) are converted; the outcome must be a panic or a tree internally consistent and made of exactly the visits supplied, and consistent streams must be accepted. Non-trivial: the stream is inconsistent, or has three or more nodes.",
 "C09": "A fresh walk over a random (tours_exh: every) tree or forest is stepped with a random mix of forward/next/get/get_parent, possibly abandoned and turned back; each answer is compared with the tour computed from the model. Non-trivial: at least three nodes. huge_tours: sizes around 2^8..2^16.",
 "C10": "Random (jumps_exh: every, up to the bound) sequences of forward, next, to_child, to_sib, to_parent, revisit, get, get_parent are compared, call by call, with a cursor over the model. Non-trivial: at least one jump landed. huge_jumps: indices and sizes around 2^8..2^16.",
 "C11": "Generated programs: literal tuples for all tree and forest shapes up to a size, every arity 0..32, chains at every position and random nestings, with bare and one-element leaves; each result is compared node by node with the shape and with the push_back tree, then edited further under the C01-C03 monitors. Non-trivial: at least three nodes. Distinct: shape and edits. huge_tuples: tuples of 33 to 67684 nodes, 32 children per node.",
 "C12": "The same generated tuples through SIZE, height, descendants(k) and the four visitor forms; event sequences and sizes are compared with the shape; items must pass through by identity. Non-trivial: at least three nodes. Distinct: shape. huge_tuple_visits: the same of 33 to 67684 nodes.",
 "C13": "Every operator overload in every ownership combination on random operands, and random nested expressions evaluated in parallel on the model; borrowed operands are compared before/after by identity, clone counts are read from the items. Non-trivial: at least two operand nodes. huge_notation: operands around 2^8..2^16 nodes.",
 "C14": "All ordered pairs of shapes up to the bound with small labels, random pairs and triples of near-misses across storages, histories and handle kinds: ==, !=, <, <=, >, >=, cmp and partial_cmp are compared with the model's (data first, then children), and whatever is equal must hash equal (several hashers). Non-trivial: the operands have at least three nodes together. huge_compare: differences at the far end of trees around 2^8..2^16 nodes.",
 "C15": "The text of random (texts_exh: every) trees and forests by every handle kind is compared with the grammar's text and parsed back; labels include parentheses-free strings of any length. Non-trivial: at least two nodes. huge_text: sizes around 2^8..2^16.",
 "C16": "Iterators are run with random (iter_exh: every) edits of the yielded node between steps, exhaustively polled past the end, compared with the children present at the start; shared iteration also under removal of arbitrary nodes and dropping of owners. Non-trivial: an edit during iteration, or at least two children. huge_iters: numbers of children around 2^8..2^16.",
 "C17": "Histories over a set of shared handles (RcNode) of several trees: every handle is after each operation compared with the model node it denotes (data identity, children, parent, is_root) and every tree with the ideal tree. Non-trivial: at least one edit took effect. Distinct: hash of operations and operands.",
 "C18": "The same histories with clones, drops and weak handles in any order; the model computes which items must be alive (held, or below a held node) and the registry is compared after each operation; weak handles must upgrade exactly then. Leaks are judged at the end of each case. huge_handles: numbers of handles around 2^8..2^16. reentry: items whose destructors, clones, comparisons and texts follow weak handles into the trees they live in, read them and (destructors) edit them, to a depth of 3; after each operation the living nodes are those held or below a held node, found by walking.",
 "C19": "Random and tabulated (every operation x every borrow state x both storages) attempts under live Ref/RefMut guards: a conflicting one must panic and leave everything unchanged, a compatible one must succeed; then the guard is released and everything must work. Non-trivial: at least one refused and one granted operation.",
 "C20": "Pieces of one or more trees (contiguous and scattered, cut or whole) are handed to 2-8 threads as cursors; each thread runs a random program on its own pieces and on shared walks; results are compared with a sequential run of the same programs, items are conserved, ThreadSanitizer and Miri watch every access. Distinct: the observed global order of operations (ticket order). Non-trivial: at least as many thread switches as threads.",
 "C21": "Fault injection: the k-th clone, drop, comparison, hash, formatting, closure call or iterator step of an operation panics (faults_exh: every k of every operation on every small shape), or an operation is misapplied to a root; afterwards items are checked for double drop/use after drop, survivors for consistency and usability, read-only operations for no change. Non-trivial: the injected panic fired.",
 "C22": "The same logged histories (owned and shared) run in the default and the no_std build and every observation is compared by hash; all oracle workloads run in the no_std build, a failure there counts when the default build passes the same case. Non-trivial and distinct as in each workload.",
 "C23": "A table of (operation, shape, storage) on trees of 24-44 thousand nodes (chains, combs, stars, mixes), each run on a thread with a 64 KiB stack; the result is checked and the thread must survive. Non-trivial: all. Drop and text/comparison, which recurse by design, happen on a large stack.",
 "C24": "The histories of C01 and C17; after each operation the address of every node and of its data, in every tree, is compared with where it was first seen (rebuilt nodes and the new root after abandon start afresh). Non-trivial: at least one edit took effect. Distinct: hash of operations and operands.",
 "C25": "Random histories of building (node by node, from tuples, from BFS streams, rebuilding), taking out, recombining, sharing and dropping pieces; every block's node addresses are compared at birth, and after each operation the number of memory blocks in use is compared with what the nodes still reachable need. tree_place/forest_place: the generated tuples of C11, addresses only. Non-trivial: at least four nodes built in blocks (tuples: three nodes). Distinct: hash of operations (tuples: shape). huge_place: blocks of 2^8..2^16 nodes.",
}
NOTES = {
 "C04": ["aliasing models (Stacked/Tree Borrows) are not enforced: the crate's links predate them; Miri runs with -Zmiri-disable-stacked-borrows",
         "three holes in the safe API listed in known-findings.txt are demonstrated separately and kept out of the workloads"],
 "C08": ["sizes large enough to exhaust memory are not tried"],
 "C21": ["memory leaked by a panic is not judged"],
 "C23": ["dropping, formatting, comparing and hashing recurse by depth and are outside the property"],
}
FINDINGS = ["pin-detach-reuse", "node-unpin-swap", "default-node-moved"]
