"""Source of /verif/properties.jsonl (run: python3 tools/props.py).

Each entry: id, title, statement, over, quantifier text, why tests can't,
files, mechanisms [(name, where)], observe_at.
"""
import json
import os

L = "extra/lists/"
T = "extra/trees/"
H, I = ["histories"], ["inputs"]
HI = ["histories", "inputs"]
P = []


def prop(id, title, statement, over, qtext, why, files, mech, obs,
         state=()):
    assert len(title) <= 80, (id, len(title))
    d = {
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": obs,
            "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [
            {"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


# ------------------------------------------------------------------ lists
prop("L01", "A linked list always holds what a plain sequence would hold",
     """After any sequence of edits (adding at either end, inserting, replacing
     and deleting at a position, removing a value once or everywhere, extending,
     rotating, clearing), a linked list holds exactly the items a plain sequence
     given the same edits would hold, in the same order. Its length, emptiness
     test, iteration, positive and negative indexing, slicing with any start,
     stop and step, splitting, reversing, copying, membership test and
     occurrence count all answer as that sequence would.""",
     HI, """Every finite history of accepted operations, over items of any mix
     of types (equal-but-different numbers, duplicates, strings, tuples), at
     every list length and every valid position or slice.""",
     """The tests run a few fixed scripts; node re-linking has separate branches
     for the first, last, only and middle node and for lengths 0, 1, 2 and more,
     and only particular successions of edits reach a wrong combination.""",
     [L + "linked_list.py"],
     [("node insertion", "LinkedList._insert_node"),
      ("node removal", "LinkedList._remove_node, _remove_value"),
      ("rotation by split and extend", "LinkedList._rotate"),
      ("slicing", "LinkedList.__getitem__")],
     ["len()", "to_list()", "indexing/slicing", "in", "count()", "split()",
      "reverse()", "copy()"],
     [("_head", "first node of the chain", "LinkedList"),
      ("_length", "number of items", "LinkedList")])

prop("L02", "A doubly linked list holds a plain sequence's items, both directions",
     """After any sequence of edits a doubly linked list holds exactly the items
     a plain sequence given the same edits would hold, and every read
     (iteration, indexing from either end, slicing, splitting, reversing,
     copying, rotating, membership, count) agrees with that sequence. Walking
     backwards from its last item always visits the same items as walking
     forwards, in opposite order.""",
     HI, """Every finite history of accepted operations over items of any mix of
     types, at every length and position (positions in the upper half are
     reached from the tail).""",
     """The tests check the forward order of a few scripts; a stale back link or
     tail only shows after a particular edit is followed by an access that
     starts from the tail.""",
     [L + "doubly_linked_list.py", L + "linked_list.py"],
     [("two-way linking", "DoublyNode.set_next/set_prev"),
      ("insertion", "DoublyLinkedList._insert_node"),
      ("removal", "DoublyLinkedList._remove_node"),
      ("walk from the nearer end", "DoublyLinkedList._get_node")],
     ["to_list()", "indexing", "backward walk"],
     [("_tail", "last node", "DoublyLinkedList")])

prop("L03", "A circular linked list behaves as a ring of its items",
     """After any sequence of edits a circular linked list holds exactly the
     items a plain sequence would hold, where a position beyond the end wraps
     around: reading, replacing, deleting and splitting use the position modulo
     the length, inserting uses it modulo the length plus one. Length,
     iteration (one round), membership, count, copying, reversing and rotating
     agree with that sequence, and following the chain from the last item leads
     back to the first.""",
     HI, """Every finite history of accepted operations with arbitrary
     non-negative positions, any item types, every length including 0 and 1.""",
     """Wrap-around depends on the relation of position and current length; the
     tests use a handful of fixed pairs and never mix them with removals that
     move data between nodes.""",
     [L + "circular_linked_list.py", L + "linked_list.py"],
     [("index wrap", "CircularLinkedList.__getitem__/insert/__setitem__/"
       "__delitem__/split"),
      ("ring linking", "CircularLinkedList._insert_node/_remove_node")],
     ["to_list()", "indexing", "split()", "chain walk"])

prop("L04", "Lists derived from other lists are independent of them",
     """A list obtained from another one (constructing from it, copying,
     slicing, splitting, reversing, rotating out of place) or extended by
     another one shares nothing with it: any later edit of one never changes
     the items of the other. Extending a list with itself doubles it, and using
     a list as a source never alters the source.""",
     H, """Every history over a pool of lists of the three linked kinds and skip
     lists in which derivations and edits are interleaved arbitrarily.""",
     """Tests look at the derived list right after deriving it; sharing only
     shows when one of the two is edited later and the other is read again.""",
     [L + "linked_list.py", L + "doubly_linked_list.py",
      L + "circular_linked_list.py", L + "skip_list.py"],
     [("copying construction", "__init__ of the list classes"),
      ("extension", "extend of the list classes"),
      ("value copies", "copy, _split, reverse, __getitem__(slice)")],
     ["to_list() and len() of every list of the pool after every step"])

prop("L05", "List comparisons are one coherent pairwise order",
     """Two lists of one kind are equal exactly when they have the same length
     and pairwise equal items, and unequal otherwise. One is less than or equal
     to another exactly when it is not longer and each of its items is less
     than or equal to the opposing item; it is less when in addition it is
     shorter or some opposing pair differs; greater and greater-or-equal are the
     mirror image.""",
     I, """Every pair of lists of the same kind, any lengths, any mutually
     comparable items.""",
     """The tests compare about a dozen fixed pairs; the outcome depends on which
     list is longer and on where the first differing pair sits.""",
     [L + "linked_list.py", L + "doubly_linked_list.py",
      L + "circular_linked_list.py"],
     [("pairwise comparison", "LinkedList._compare"),
      ("operators", "LinkedList.__eq__ .. __ge__")],
     ["==", "!=", "<", "<=", ">", ">="])

prop("L06", "Rejected list operations raise as documented and change nothing",
     """An operation on a linked, doubly linked or circular list or a skip list
     that is given a bad position (wrong type, negative, out of bounds, or a
     slice where none is accepted), a missing or unsupported item, a bad flag,
     a bad rotation distance or a foreign list is rejected with the documented
     kind of error. The list is exactly as it was before the rejected call, and
     keeps working.""",
     ["histories", "inputs", "fault_sequences"],
     """Every reachable list state, every invalid argument class, any
     interleaving of rejected and accepted calls.""",
     """The tests try invalid calls on fresh or small lists and rarely look at
     the list afterwards.""",
     [L + "linked_list.py", L + "doubly_linked_list.py",
      L + "circular_linked_list.py", L + "skip_list.py", "extra/interface.py"],
     [("index validation", "_validate_index"),
      ("item validation", "Extra._validate_item"),
      ("flag validation", "rotate_left, rotate_right, remove")],
     ["exception type", "to_list() before and after"])

prop("L07", "A list's drawing shows exactly its items, in order and aligned",
     """The drawing of a linked, doubly linked, circular or skip list contains
     each item's text exactly once per lane it is in, in list order, each in a
     box one space wider than the text on either side, with the lines of the
     drawing aligned. This holds for every content, including empty and
     just-emptied lists, and drawing changes nothing.""",
     HI, """Every list reachable by edits, over items whose text has any
     length, including text with line breaks, which is shown on one line.""",
     """The tests compare a few fixed drawings; widths and links depend on every
     item's text and on the history of edits.""",
     [L + "linked_list.py", L + "doubly_linked_list.py",
      L + "circular_linked_list.py", L + "skip_list.py"],
     [("box drawing", "_print_node/_print_linked_list/__repr__"),
      ("line-break escaping", "Node.__init__/set_data")],
     ["repr()"])

# ---------------------------------------------------- bounded containers
prop("S01", "A stack is last-in first-out and never exceeds its capacity",
     """Popping and peeking always give the most recently pushed item not yet
     popped; length, emptiness and fullness always agree with the history.
     Pushing onto a full stack is refused with an overflow error and changes
     nothing, popping an empty stack warns and gives nothing, peeking at an
     empty one raises an index error, and clearing keeps the capacity.""",
     HI, """Every history of push, pop, peek, clear and invalid calls, every
     capacity (zero, fractional, infinite), every item type.""",
     """The tests fill and drain a few stacks; interleavings around the
     full/empty boundary and repeated clears are not explored.""",
     [L + "stack.py"],
     [("push/pop/peek", "Stack.push/pop/peek"),
      ("capacity", "Stack.is_full, __init__")],
     ["return values", "len()", "warnings", "exceptions", "repr()"])

prop("S02", "A queue is first-in first-out; overflow drops the oldest item",
     """Dequeuing gives the items in the order they were enqueued, the top is
     always the next item to be dequeued, and length, emptiness and fullness
     agree with the history. Enqueuing into a full queue warns and drops the
     oldest item so the capacity is never exceeded; dequeuing an empty queue
     warns and gives nothing, asking it for its top raises an index error.""",
     HI, """Every history of enqueue, dequeue, top, clear and invalid calls,
     every capacity (zero, fractional, infinite), every item type.""",
     """The tests fill and drain a few queues; wrap-around between full and
     empty in arbitrary order is not explored.""",
     [L + "queue.py", L + "doubly_linked_list.py"],
     [("enqueue", "Queue._enqueue"), ("dequeue", "Queue.dequeue")],
     ["return values", "len()", "warnings", "exceptions"])

prop("S03", "A deque agrees with a bounded double-ended sequence",
     """Appending and popping at either end, and reading either end, act as on a
     double-ended sequence given the same history. Appending to a full deque
     warns and drops one item from the opposite end so that the capacity is
     never exceeded; popping an empty one warns and gives nothing, reading an
     end of an empty one raises an index error.""",
     HI, """Every history mixing both ends, clear and invalid calls, every
     capacity (zero, fractional, infinite), every item type.""",
     """The tests use one end at a time; the interplay of both ends around the
     lengths 0, 1, 2 and the capacity is not explored.""",
     [L + "deque.py", L + "queue.py", L + "doubly_linked_list.py"],
     [("append/pop on both sides", "Deque.append_*/pop_*/get_*")],
     ["return values", "len()", "warnings", "exceptions"])

prop("S04", "A priority queue always releases an item of extreme priority",
     """Each dequeue removes and returns one stored item whose priority is the
     highest among those stored, or the lowest when the lowest is asked for.
     Every item is released exactly once with the priority it was enqueued
     with, whatever the order of enqueues and of dequeues from either
     extreme.""",
     HI, """Every history of enqueue (explicit, negative, fractional, tied or
     default priorities), dequeue of either extreme, and clear.""",
     """The tests enqueue in sorted order and drain from one extreme; mixed
     histories, removal from the middle and both extremes are not covered.""",
     [L + "priority_queue.py", L + "doubly_linked_list.py"],
     [("extreme tracking", "PriorityQueue._update_min/max_priority"),
      ("dequeue", "PriorityQueue.dequeue")],
     ["return values of dequeue", "drawing with priorities shown"],
     [("_min_priority/_max_priority", "cached extremes", "PriorityQueue")])

prop("S05", "A bounded priority queue evicts its oldest item, keeps order intact",
     """The top of a priority queue is always the earliest enqueued item still
     stored, and the drawing lists the stored items from newest to oldest, with
     their priorities when those are switched on. Enqueuing into a full one
     warns and drops exactly that earliest item, after which every later
     dequeue still works and releases an extreme of what remains; capacity is
     never exceeded.""",
     HI, """Every history over every capacity (zero, one, small, fractional,
     infinite) mixing overflowing enqueues, dequeues of either extreme, top and
     clear.""",
     """One test overflows once and then clears; dequeuing after an eviction of
     the current extreme is never exercised.""",
     [L + "priority_queue.py", L + "queue.py"],
     [("eviction", "Queue._enqueue"), ("top", "Queue.top"),
      ("extreme tracking", "PriorityQueue.enqueue/dequeue")],
     ["top()", "repr()", "dequeue()", "warnings", "len()"])

prop("S06", "Queues and stacks draw exactly their current items and reject cleanly",
     """The drawing of a stack, queue, deque or priority queue shows exactly the
     items currently stored, in order, each in a box fitting its text, also
     after items were removed or everything was emptied. Missing or unsupported
     items, non-numeric priorities and invalid capacities are rejected with the
     documented error and leave the container unchanged.""",
     ["histories", "inputs", "fault_sequences"],
     """Every container state reachable by any history, every invalid argument
     class.""",
     """Tests draw a few fixed containers and never one that was emptied by
     removals.""",
     [L + "stack.py", L + "queue.py", L + "deque.py", L + "priority_queue.py"],
     [("drawing", "Stack.__repr__, Queue._print_queue"),
      ("validation", "Extra._validate_item, __init__, "
       "PriorityQueue.enqueue")],
     ["repr()", "exceptions", "len()"])

# ------------------------------------------------------------- skip list
prop("K01", "A skip list is a sorted set of numbers",
     """After any history of insertions and removals a skip list iterates over
     exactly the distinct numbers inserted and not removed since, in ascending
     order; length, emptiness, membership, positional reads and positional
     deletes agree. Inserting a present number or removing an absent one
     changes nothing, and the outcome never depends on the random lane
     heights.""",
     HI, """Every history over integers and floats (negative, equal-valued,
     infinite), and every outcome of the coin flips.""",
     """Tests insert random numbers once and remove in order; the outcome of a
     removal depends on lane heights drawn at random in the earlier history.""",
     [L + "skip_list.py"],
     [("search", "SkipList._search, search_sorted"),
      ("insert/remove", "SkipList.insert/remove")],
     ["to_list()", "in", "indexing", "len()"])

prop("K02", "A skip list's express lanes are consistent after every operation",
     """Every upper lane of a skip list is a sorted sub-sequence of the lane
     below it, starting at the common left boundary, and each of its entries
     leads down to the entry of the same value one lane below. A removed number
     vanishes from every lane, no empty upper lane is kept, and the reported
     height is the number of lanes.""",
     H, """Every history of insertions and removals and every outcome of the
     coin flips.""",
     """A left-over or mislinked express entry is invisible to contents checks
     until a later search runs into it.""",
     [L + "skip_list.py"],
     [("promotion", "SkipList._promote/_add_extra_level"),
      ("removal on all lanes", "SkipList.remove/_remove_level")],
     ["lanes after every operation", "get_height()", "repr()"])

# ----------------------------------------------------------------- trees
prop("T01", "A binary tree parsed from nested lists has exactly that shape",
     """Parsing a nested list or tuple gives a binary tree whose root is the
     first entry and whose left and right subtrees are the second and third
     entries, recursively, with nothing lost, added or swapped. Malformed
     nesting (an empty list or more than three entries anywhere) and values
     that are missing or unsupported are rejected with the documented error.""",
     I, """Every nested list/tuple of depth and shape admitted by the format,
     with any mix of lists, tuples and bare leaves, and every malformed
     variation of one.""",
     """Tests parse two or three fixed trees.""",
     [T + "binary_tree.py", T + "tree.py"],
     [("parsing", "BinaryTree.parse")],
     ["traversals", "levels", "exceptions"])

prop("T02", "All traversals of a tree describe one and the same tree",
     """For every tree the pre-order, in-order, post-order and breadth-first
     traversals, the list and iteration order, the per-level listing and the
     left and right side views are those of its shape, whether asked for by
     their own operation or by name in any letter case. Unknown traversal names
     are rejected; inverting mirrors the shape, and inverting twice restores
     it.""",
     I, """Every tree shape (general trees, binary trees, and every kind of
     search tree after any history) with any values, duplicates included.""",
     """Tests compare a few fixed trees; a wrong traversal can be right on
     symmetric or small shapes.""",
     [T + "tree.py", T + "binary_tree.py", T + "bst.py"],
     [("traversals", "BinaryTree.*_traverse/traverse"),
      ("levels", "Tree._get_nodes_per_level, __iter__"),
      ("views", "BinaryTree.get_leftside_view/get_rightside_view"),
      ("mirror", "BinaryTree.invert")],
     ["traversal results", "get_nodes_per_level()", "views"])

prop("T03", "A tree's measurements are those of its actual shape",
     """For every tree, length, height, number of leaves, and membership of any
     value are exactly what counting over its shape gives, and the depth of
     the tree itself, being that of its root, is zero; perfect means every
     level is full and strict means no node has exactly one child. A tree whose
     leaf depths differ by at most one is reported balanced when its root has
     two children or a single leaf child, and a tree whose two root subtrees
     differ in height by more than one is reported unbalanced.""",
     I, """Every tree shape (general trees, binary trees, and every kind of
     search tree after any history), empty, single-node and degenerate ones
     included.""",
     """Tests measure a few fixed trees.""",
     [T + "tree.py", T + "binary_tree.py", T + "bst.py", T + "avl.py"],
     [("counting", "Tree.__len__/count_leaf_nodes/get_height"),
      ("shape predicates", "BinaryTree.is_perfect/is_strict/is_balanced")],
     ["len()", "get_height()", "count_leaf_nodes()", "in", "is_perfect()",
      "is_strict()", "is_balanced()"])

prop("T04", "A tree made from a path mirrors the directory exactly",
     """The tree made from a file system path has one node per file or folder
     under it, named as on disk, with every folder's entries as its children in
     sorted order and files as leaves, and the last path component as the root,
     however the path is spelt. Anything that is not an existing path given as
     text is rejected with the documented error.""",
     ["inputs", "configurations"],
     """Every directory layout (depth, width, empty folders, hidden and unusual
     names, links to files) and every spelling of its path (absolute, relative,
     trailing separators, dot components).""",
     """Tests build the tree of one fixed folder.""",
     [T + "tree.py"], [("recursion over folders", "Tree.from_path")],
     ["levels and drawing of the tree compared with the directory"])

prop("T05", "A tree's drawing shows every node once, placed by the tree's shape",
     """The drawing of a general tree or trie lists every node once in
     depth-first order, indented by its depth with connectors telling last
     children from others. The drawing of a binary, search or heap tree puts
     each level's values left to right on its own line, with values further
     right in in-order further right in the drawing, and one left or right
     branch per child; extra marks (colour, priority, end of word) belong to
     their node.""",
     HI, """Every tree shape and value text, for every tree class, after any
     history.""",
     """Tests compare fixed drawings of a few small trees.""",
     [T + "tree.py", T + "binary_tree.py", T + "red_black_tree.py",
      T + "treap.py", T + "_heap.py", T + "trie.py"],
     [("drawing", "Tree.__repr__, BinaryTree._print_subtree"),
      ("node text", "*Node._represent")],
     ["repr()"])

# ---------------------------------------------------------- search trees
SETWHY = """Tests insert a handful of fixed values and remove a few; the removal
     case chosen depends on the whole earlier history (shape, children,
     replacement), which only generated histories reach."""
SETQ = """Every history of insertions, removals and queries over integers and
     floats (negative, huge, equal-valued, duplicates), any order of
     insertion."""

prop("B01", "A binary search tree is an ordered set of numbers",
     """After any history of insertions and removals the in-order traversal of
     a binary search tree is the ascending list of the distinct numbers
     inserted and not removed since, and length, membership, minimum and maximum
     agree with it. Inserting a present number or removing an absent one warns
     and changes nothing; minimum and maximum of an empty tree raise an index
     error.""",
     HI, SETQ, SETWHY, [T + "bst.py"],
     [("descent", "BST._search/_insert_node"),
      ("replacement", "BST._find_replacement/_transplant")],
     ["inorder_traverse()", "len()", "in", "get_min()", "get_max()",
      "warnings"])

prop("B02", "An AVL tree is an ordered set of numbers",
     """After any history of insertions and removals an AVL tree contains
     exactly the distinct numbers inserted and not removed since, ascending in
     in-order, and length, membership, minimum and maximum agree with it.
     Inserting a present number or removing an absent one warns and changes
     nothing.""",
     HI, SETQ, SETWHY, [T + "avl.py", T + "bst.py"],
     [("insert/remove", "AVL._insert/_remove"),
      ("rotations", "BST._rotate_*")],
     ["inorder_traverse()", "len()", "in", "warnings"])

prop("B03", "An AVL tree is height-balanced after every operation",
     """After every insertion and every removal the heights of the two subtrees
     of every node of an AVL tree differ by at most one, so its height stays
     logarithmic, and its reported height is its actual height and it reports
     itself balanced.""",
     H, SETQ, """Balance after a removal depends on the shape left by the
     earlier history; tests verify a few fixed sequences.""",
     [T + "avl.py"],
     [("rebalancing", "AVL._rebalance"), ("heights", "AVLNode.set_left/"
       "set_right/get_children_heights")],
     ["shape rebuilt from the pre-order traversal", "get_height()",
      "is_balanced()"])

prop("B04", "A red-black tree is an ordered set of numbers",
     """After any history of insertions and removals a red-black tree contains
     exactly the distinct numbers inserted and not removed since, ascending in
     in-order, and length, membership, minimum and maximum agree with it; no
     removal of a stored number ever fails. Inserting a present number or
     removing an absent one warns and changes nothing.""",
     HI, SETQ, SETWHY, [T + "red_black_tree.py", T + "bst.py"],
     [("insert", "RedBlackTree.insert"), ("remove", "RedBlackTree.remove")],
     ["inorder_traverse()", "len()", "in", "warnings"])

prop("B05", "A red-black tree obeys its colour rules after every operation",
     """After every insertion and every removal the root of a red-black tree is
     black, no red node has a red child, and every path from a node down to an
     empty place passes the same number of black nodes, which is what the tree
     reports as its black height; hence its height is at most twice the
     logarithm of its size.""",
     H, SETQ, """Recolouring has mirrored cases selected by colours the earlier
     history left behind; tests verify a few fixed sequences.""",
     [T + "red_black_tree.py"],
     [("recolouring", "RedBlackTree.insert (recolor)"),
      ("double black", "RedBlackTree.remove (double black)")],
     ["node colours", "get_black_height()", "get_height()"])

prop("B06", "A splay tree is an ordered set of numbers",
     """After any history of insertions, removals and lookups a splay tree
     contains exactly the distinct numbers inserted and not removed since,
     ascending in in-order, and length, membership, minimum and maximum agree
     with it. Lookups never change the contents; inserting a present number or
     removing an absent one warns and keeps the contents.""",
     HI, SETQ, SETWHY, [T + "splay_tree.py", T + "bst.py"],
     [("insert/remove/contains", "SplayTree.insert/remove/__contains__")],
     ["inorder_traverse()", "len()", "in", "warnings"])

prop("B07", "A splay tree splays the accessed element to the root",
     """Looking up or inserting a number leaves it at the root of a splay tree;
     looking up an absent number leaves the last number met on its search path
     at the root. The restructuring is the standard bottom-up one (zig,
     zig-zig, zig-zag, and mirrors), so every other element keeps the place
     that rule gives it.""",
     H, SETQ, """The shape after an access depends on the shape before it; the
     tests check the root and list order of a few fixed trees.""",
     [T + "splay_tree.py"], [("splaying", "SplayTree._splay")],
     ["preorder_traverse() before and after each access"])

prop("B08", "A treap is an ordered set of numbers with heap-ordered priorities",
     """After any history of insertions and removals a treap contains exactly
     the distinct numbers inserted and not removed since, ascending in in-order,
     with length, membership, minimum and maximum agreeing. Every number keeps
     the priority it was first inserted with, and no node has a priority lower
     than a child's, so that distinct priorities determine the shape whatever
     the order of operations.""",
     HI, SETQ + """ Priorities explicit (negative, fractional, tied) or
     drawn at random.""", SETWHY, [T + "treap.py", T + "bst.py"],
     [("insert", "Treap.insert"), ("remove", "Treap.remove"),
      ("rotations", "BST._rotate_left/_rotate_right/_attach")],
     ["inorder_traverse()", "preorder_traverse()", "priorities"])

prop("B09", "All ordered sets agree on every history of operations",
     """Given one and the same history of insertions and removals, the binary
     search tree, AVL tree, red-black tree, splay tree, treap and skip list
     contain the same numbers in the same order, and give the same answers to
     every membership test, length, minimum and maximum along the way.""",
     H, SETQ, """No test relates two structures to one another, and each is only
     tested on its own fixed data.""",
     [T + "bst.py", T + "avl.py", T + "red_black_tree.py",
      T + "splay_tree.py", T + "treap.py", L + "skip_list.py"],
     [("insert/remove", "each class")],
     ["to ascending list", "in", "len()", "get_min()", "get_max()"])

# ----------------------------------------------------------------- heaps
prop("H01", "A heap is a multiset with exact minimum and maximum",
     """After any history of insertions and removals a min-heap or max-heap
     holds exactly the numbers inserted and not removed, with repetitions, and
     reports their exact minimum and maximum, length and membership. Removing a
     value removes one occurrence of it, removing the minimum or maximum removes
     one such, and removing an absent value warns and changes nothing.""",
     HI, """Every history of insertions, removals of arbitrary stored or absent
     values and of extremes, over integers and floats with repetitions.""",
     """Tests remove a few fixed values; a removal from the middle of the heap
     can silently break the order that later extremes rely on.""",
     [T + "_heap.py", T + "min_heap.py", T + "max_heap.py"],
     [("sifting", "Heap.insert/remove"),
      ("opposite extreme", "MinHeap.get_max, MaxHeap.get_min")],
     ["get_min()", "get_max()", "in", "len()", "to_list()"])

prop("H02", "A heap is heap-ordered after every operation and drains sorted",
     """After every insertion, removal or bulk construction the level-order
     listing of a min-heap (max-heap) never has a value smaller (larger) than
     its parent's. Repeatedly removing the minimum gives the contents in
     ascending order, repeatedly removing the maximum gives them in descending
     order, from either kind of heap.""",
     H, """Every history of insertions and removals of arbitrary values, and
     every iterable to build from.""",
     """Tests verify heap order after fixed insertions; removal of inner values
     reaches upward violations only in particular arrangements.""",
     [T + "_heap.py", T + "min_heap.py", T + "max_heap.py"],
     [("sifting", "Heap.insert/remove"), ("bulk build", "Heap.heapify")],
     ["to_list()", "iteration", "remove_min()/remove_max() sequence"])

# ----------------------------------------------------------------- tries
WQ = """Every history of insertions and removals over words of any characters
     and lengths, words that are prefixes of one another, repeated and absent
     words."""
prop("R01", "A trie holds exactly the words inserted and not removed",
     """After any history of insertions and removals a trie contains a text
     exactly when it was inserted and not removed since; no other text, and no
     mere prefix, is contained. Inserting a present word or removing an absent
     one changes nothing, and removing the last word leaves a working empty
     trie.""",
     HI, WQ, """Removal prunes nodes depending on which other words share the
     path; the tests remove a few fixed words and never the last one.""",
     [T + "trie.py", T + "tree.py"],
     [("descent", "Trie._follow_path"), ("insert/remove",
       "Trie.insert/remove")],
     ["in", "auto_complete()", "is_empty()"])

prop("R02", "A radix trie holds exactly the words inserted and not removed",
     """After any history of insertions and removals a radix trie contains a
     text exactly when it was inserted and not removed since; no other text, and
     no mere prefix, is contained, whatever order words were inserted in and
     however their edges were split. Inserting a present word or removing an
     absent one changes nothing, and removing the last word leaves a working
     empty trie.""",
     HI, WQ, """Edge splitting depends on the order of earlier insertions;
     tests insert a few fixed words.""",
     [T + "radix_trie.py", T + "trie.py"],
     [("edge splitting", "RadixTrie._insert"), ("removal", "Trie.remove")],
     ["in", "auto_complete()", "is_empty()"])

prop("R03", "Prefix tests and completions of tries are exact",
     """A trie or radix trie says it has a prefix exactly when some stored word
     starts with it (the empty prefix always counts), also when the prefix ends
     in the middle of a shared edge. Completing a prefix gives every stored word
     starting with it exactly once and nothing else.""",
     HI, WQ, """Tests complete a few fixed prefixes; exactness over all prefixes
     after removals is not covered.""",
     [T + "trie.py", T + "radix_trie.py"],
     [("prefix", "Trie.has_prefix"), ("completion",
       "Trie.auto_complete, RadixTrie.auto_complete")],
     ["has_prefix()", "auto_complete()"])

prop("R04", "Tries keep exactly the nodes their words need, and count them right",
     """A trie has one node per distinct non-empty prefix of its words plus the
     root; its length, height, levels and breadth-first listing are those of
     that tree, its depth (that of the root) is zero, and it has one leaf per word that is no prefix of another word.
     A radix trie built by insertions has one node per word or branching point,
     its edges along each path spell the words, and removing words from either
     never leaves a dead branch behind.""",
     HI, WQ, """Node accounting after removals and splits is only checked on
     fixed examples.""",
     [T + "trie.py", T + "radix_trie.py"],
     [("node counting", "Trie.insert/remove, RadixTrie._insert"),
      ("pruning", "Trie.remove")],
     ["len()", "get_height()", "count_leaf_nodes()",
      "get_nodes_per_level()", "to_list()"])

prop("X01", "Substring search and counting in a suffix trie are exact",
     """For every text, the suffix trie says it has a substring exactly when the
     text contains it, and counts a non-empty pattern exactly as often as it
     occurs, overlapping occurrences included. Patterns that are not text are
     never found and counted zero times.""",
     I, """Every non-empty text and every pattern free of the terminator
     character.""",
     """Tests query a few fixed words.""",
     [T + "suffix_trie.py", T + "radix_trie.py"],
     [("search", "SuffixTrie.has_substring"), ("counting",
       "SuffixTrie.count_pattern_occurrences")],
     ["has_substring()", "count_pattern_occurrences()"])

prop("X02", "The suffix array is the sorted order of all suffixes",
     """For every text of letters the suffix array is the permutation of the
     positions 0..n that sorts the n suffixes and the terminator. The suffix
     trie has one leaf per suffix plus one for the terminator, and its edges
     spell out exactly those suffixes.""",
     I, """Every non-empty text over characters sorting after the
     terminator.""",
     """Tests check two fixed words.""",
     [T + "suffix_trie.py"],
     [("suffix array", "SuffixTrie.to_suffix_array"),
      ("construction", "SuffixTrie.__init__")],
     ["to_suffix_array()", "count_leaf_nodes()", "to_list()"])

prop("X03", "Longest repeated substrings are exactly the longest ones occurring twice",
     """For every text, the reported longest repeated (or common) substrings are
     exactly the set of distinct substrings of greatest length that occur at
     least twice in it (overlaps allowed), each listed once; a text without any
     repetition yields just the empty text.""",
     I, """Every non-empty text.""",
     """Tests check seven fixed words whose answer happens to sit at the deepest
     level of the trie.""",
     [T + "suffix_trie.py"],
     [("longest repeat", "SuffixTrie.get_longest_common_substring/"
       "get_longest_repeated_substring")],
     ["returned lists"])

prop("X04", "The lowest common ancestor of two suffixes is their common prefix",
     """For every text and every two different positions in it, the lowest
     common ancestor of the suffixes starting there is their longest common
     prefix, in either order of arguments. Positions that are not whole numbers
     are rejected with a type error; negative ones and ones beyond the text with
     a value error.""",
     I, """Every non-empty text and every pair of positions, valid or not.""",
     """Tests check a few fixed pairs.""",
     [T + "suffix_trie.py"],
     [("ancestor walk", "SuffixTrie.get_lowest_common_ancestor")],
     ["get_lowest_common_ancestor()"])

# -------------------------------------------------------- cross-cutting
prop("C01", "Looking never changes: queries are pure and results are snapshots",
     """Asking a structure anything (length, membership, iteration, traversals,
     drawing, measurements, extremes, comparisons, completions) leaves it
     exactly as it was, the one exception being that a lookup may re-shape a
     splay tree without changing its contents. Lists handed out by a structure
     may be modified freely without affecting it, and asking the same again gives
     the same answer.""",
     H, """Every structure in every reachable state, every succession of
     queries, with the returned lists modified by the caller.""",
     """Tests query once and never modify what they were given.""",
     [L + "linked_list.py", L + "skip_list.py", L + "queue.py",
      L + "priority_queue.py", T + "tree.py", T + "binary_tree.py",
      T + "bst.py", T + "_heap.py", T + "trie.py", T + "suffix_trie.py"],
     [("queries", "all reading operations"),
      ("result lists", "to_list, traversals, get_nodes_per_level")],
     ["fingerprint (drawing, listing, measurements) before and after"])

prop("C02", "Instances are independent and clearing makes a structure like new",
     """Two instances of any structure never influence each other, however
     their operations are interleaved. After clearing, a structure is empty and
     from then on behaves exactly like a newly made one of the same capacity,
     whatever happened to it before.""",
     H, """Every structure, every history before clearing, every history after
     it, any interleaving of several instances.""",
     """Tests use one instance at a time and stop looking after clearing.""",
     [L + "linked_list.py", L + "stack.py", L + "queue.py",
      L + "priority_queue.py", L + "skip_list.py", T + "bst.py",
      T + "_heap.py", T + "trie.py", T + "tree.py"],
     [("clear", "clear of each class"), ("initial state", "__init__")],
     ["fingerprints of cleared and new instance in lock step"])

prop("C03", "Trees, heaps and tries reject bad input cleanly",
     """Inserting anything but a number into a search tree or heap, anything but
     a non-blank text into a trie, a non-numeric priority, building from
     something that cannot be iterated, or making a suffix trie of anything but
     a non-empty text is rejected with the documented kind of error. Searching for such a value simply finds nothing (a splay tree may
     refuse it), removing it only warns, and in every case the structure's
     contents are exactly as before and stay usable.""",
     ["histories", "inputs", "fault_sequences"],
     """Every structure in every reachable state, every class of invalid
     argument, interleaved with valid operations.""",
     """Tests try invalid values on small fresh instances and rarely look at the
     state afterwards.""",
     [T + "bst.py", T + "avl.py", T + "red_black_tree.py",
      T + "splay_tree.py", T + "treap.py", T + "_heap.py", T + "trie.py",
      T + "suffix_trie.py", "extra/interface.py"],
     [("validation", "_validate_item of each class")],
     ["exception type", "warnings", "contents before and after"])

prop("N01", "List nodes keep their values and mutual links through relinking",
     """A list node holds the item it was given, text with line breaks escaped,
     and a link to a neighbour or none. After any sequence of linking, relinking,
     unlinking and value or priority changes, every node answers with its own
     current item, priority and neighbours; linking two doubly linked nodes in
     either direction makes each the other's neighbour. A neighbour of the wrong
     kind, a forbidden item or a non-numeric priority is refused with the
     documented type or value error and changes nothing. The printed form of a
     node shows its item and those of its current neighbours or its priority.""",
     HI, """Every pool of nodes of any mix of kinds (plain, doubly linked, skip,
     priority), every history of linking, unlinking, setting and refused calls,
     self-links and cycles included.""",
     """Tests link two or three nodes once each; stale and one-sided links arise
     only from particular sequences of relinking.""",
     [L + "linked_list.py", L + "doubly_linked_list.py", L + "skip_list.py",
      L + "priority_queue.py", "extra/interface.py"],
     [("links", "set_next/set_prev/set_down of each node class"),
      ("validation", "_validate_item, __init__/set_data/set_priority")],
     ["get_data/get_next/get_prev/get_down/get_priority", "repr",
      "exception type"])

prop("N02", "Tree nodes answer truly about children, relatives and own data",
     """A tree node's children, leaf and one-child tests, keys and data always
     reflect exactly the links and swaps made so far. In a search tree, built by
     hand or by the library, every node names the right parent, grand-parent,
     sibling and uncle, or none where there is none, and knows whether it is a
     left child, the root being none. Heights, balance, colours and priorities
     of nodes follow what was set. Swapping two nodes exchanges their data (and
     colours, for red-black nodes) and nothing else. Wrong neighbours, values,
     colours, heights and priorities are refused with the documented error and
     leave every node unchanged.""",
     HI, """Every pool of general, binary, heap and trie nodes under histories of
     linking, swapping and refused calls; every free-standing search tree of
     plain, AVL, red-black and treap nodes; every node of a live search tree
     after every operation.""",
     """Tests look at two or three nodes in one arrangement; relatives and
     refusals depend on the position of the node and on earlier links.""",
     [T + "tree.py", T + "binary_tree.py", T + "bst.py", T + "avl.py",
      T + "red_black_tree.py", T + "treap.py", T + "_heap.py",
      T + "trie.py"],
     [("links", "set_child/set_children/set_left/set_right/set_parent"),
      ("relatives", "BSTNode.get_uncle/get_sibling/get_grand_parent/"
       "is_left_child"), ("swap", "TreeNode.swap, RedBlackNode.swap")],
     ["get_* and is_* of every node", "repr", "exception type"])

prop("X05", "Common prefix and palindrome helpers are exact",
     """The longest common prefix of two words is the longest text both begin
     with, whichever is given first: empty when the first letters differ, the
     shorter word when it begins the longer. A word is reported a palindrome
     exactly when it reads the same backwards. Anything but text is refused.""",
     I, """Every pair of words and every word, empty ones and non-ASCII letters
     included.""",
     """Tests use a few words; errors sit at particular lengths and positions of
     the first difference.""",
     [T + "radix_trie.py", T + "suffix_trie.py"],
     [("prefix", "get_lcp"), ("palindrome", "is_palindrome")],
     ["return values", "exception type"])

prop("C04", "Every structure is usable while empty, new or emptied",
     """A structure that is empty, whether new, cleared or emptied by removals,
     answers every query with the empty answer (nothing contained, zero length
     and height, empty listings, the empty drawing) or with the documented
     warning or index error, never with any other failure. It accepts new items
     afterwards as if it were new.""",
     H, """Every structure, every way of becoming empty, every query, followed by
     refilling.""",
     """Tests query new empty instances with part of the operations and seldom
     instances emptied by removals.""",
     [L + "linked_list.py", L + "doubly_linked_list.py",
      L + "circular_linked_list.py", L + "queue.py", L + "skip_list.py",
      T + "tree.py", T + "bst.py", T + "splay_tree.py", T + "_heap.py",
      T + "trie.py"],
     [("empty-case branches", "is_empty() guards of each operation")],
     ["return values", "warnings", "exceptions"])

prop("C05", "Randomness affects only shape, and a seed makes it reproducible",
     """The random priorities and lane heights never affect contents, order of
     listing or answers to queries. A treap built from the same input with the
     same seed is identical in shape and priorities, and under a fixed state of
     the random source every randomised structure is rebuilt identically by the
     same operations; automatic priorities are whole numbers from 0 to 100.""",
     ["inputs", "histories"],
     """Every input and history, every pair of seeds.""",
     """Tests fix no relation between two seeds or two runs.""",
     [T + "treap.py", L + "skip_list.py", L + "priority_queue.py"],
     [("seeding", "Treap.__init__"), ("random draws",
       "TreapNode/PriorityNode.__init__, flip_coin")],
     ["contents under different seeds", "shape under equal seeds"])

prop("C06", "Size and order of the input never make an operation fail",
     """Any of the structures can be filled with thousands of items in any
     order, ascending and descending included, and words can be thousands of
     characters long. Insertion, lookup, removal, traversal and measuring then
     still work and give right answers instead of failing because the structure
     is too deep.""",
     I, """Inputs of several thousand items or characters in ascending,
     descending, alternating, block-wise and random order.""",
     """Tests stay below a few hundred levels.""",
     [T + "bst.py", T + "splay_tree.py", T + "treap.py", T + "tree.py",
      T + "binary_tree.py", T + "trie.py", T + "suffix_trie.py",
      L + "linked_list.py", L + "skip_list.py"],
     [("descents and walks", "_search/_insert_node/_get_min_node/"
       "_get_max_node, traversals, _get_height")],
     ["results on large inputs"])

prop("C07", "Building from an iterable equals inserting its items one by one",
     """Constructing a structure from any iterable (list, tuple, generator, set,
     string, mapping keys, another structure) gives the same contents and shape
     as making an empty one and inserting the items in iteration order, and
     leaves the source untouched; afterwards changing either leaves the other as
    it was. Text items are stored with line breaks
     escaped, by whichever way they enter.""",
     I, """Every iterable kind and content, for every structure that can be
     built from one.""",
     """Tests build from lists only, and compare with the same list.""",
     [L + "linked_list.py", L + "doubly_linked_list.py",
      L + "circular_linked_list.py", L + "skip_list.py", T + "bst.py",
      T + "treap.py", T + "_heap.py"],
     [("bulk construction", "__init__/heapify of each class")],
     ["fingerprints of both instances", "the source afterwards"])

prop("C08", "Every iteration walks the whole contents, whatever else is going on",
     """Iterating over an unchanged list, skip list, tree, heap or trie yields
     exactly the items to_list() reports, in that order, and then stops, for
     every iterator by itself: any number of iterators may be open on one
     instance, advanced in any interleaving, nested, left unfinished, with
     queries in between, and none disturbs another, a later iteration, the
     answers of the instance or the effect of later changes.""",
     HI, """Every structure and contents, every number of iterators and
     interleaving of opening, advancing, exhausting and abandoning them with
     queries (lookups in a splay tree excepted: they reshape it).""",
     """Tests run one complete for-loop; state shared between iterators shows
     only when two of them overlap or one is abandoned.""",
     [L + "linked_list.py", L + "circular_linked_list.py", L + "skip_list.py",
      T + "tree.py", T + "binary_tree.py", T + "trie.py", T + "suffix_trie.py",
      T + "_heap.py"],
     [("iteration", "__iter__ of each class")],
     ["next() of every iterator", "snapshots of twin instances"])


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")


if __name__ == "__main__":
    main()
