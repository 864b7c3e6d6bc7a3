"""One adapter per structure: how to make, change and question it."""
import random
import warnings

from pbt.core import number, size, value
from pbt.targets import reset_globals
from pbt.targets.lists import (GROW, MUT, SHRINK, gen_op, pos)

LISTS = ("LinkedList", "DoublyLinkedList", "CircularLinkedList")
LINEAR = ("Stack", "Queue", "Deque", "PriorityQueue")
SEARCH = ("BST", "AVL", "RedBlackTree", "SplayTree", "Treap")
HEAPS = ("MinHeap", "MaxHeap")
TRIES = ("Trie", "RadixTrie")
FIXED = ("BinaryTree", "SuffixTrie", "Tree")     # made whole, not grown
MUTABLE = LISTS + LINEAR + ("SkipList",) + SEARCH + HEAPS + TRIES
ALL = MUTABLE + FIXED
RANDOM = ("SkipList", "Treap", "PriorityQueue")
SHORT = {"LinkedList": "LL", "DoublyLinkedList": "DLL",
         "CircularLinkedList": "CLL"}


def make(kind, seed=0, cap=None):
    import extra
    cls = getattr(extra, kind)
    if kind == "Treap":
        return cls(seed=seed)
    if kind in LINEAR and cap is not None:
        return cls(cap)
    return cls()


# -------------------------------------------------------------- mutations
def gen_growth(dec, kind, prof, alph):
    """One change that (nearly always) adds an item."""
    if kind in LISTS:
        return (dec.pick(["front", "end"]), value(dec, prof))
    if kind in LINEAR:
        op = ("put", dec.chance(128), value(dec, prof))
        if kind == "PriorityQueue":
            op += (dec.pick([None, dec.below(5), dec.below(101)]),)
        return op
    if kind in TRIES:
        return ("ins", "".join(dec.pick(alph) for _ in range(dec.rng(2, 7))))
    op = ("ins", number(dec, dec.pick([prof % 8, 2, 7])))
    return op + (None,) if kind == "Treap" else op


def gen_removal(dec, kind):
    if kind in LISTS:
        return (dec.pick(["rmf", "rme"]),)
    if kind in LINEAR:
        return ("take", dec.chance(128))
    return ("rmat", dec.below(256))


def gen_muts(dec, kind, most=60):
    """A list of valid changes for the kind."""
    out = []
    prof = dec.below(8)
    alph = dec.pick(["ab", "abc", "aé漢", "xyz01"])
    mix = dec.pick([MUT, GROW + SHRINK, GROW + SHRINK + SHRINK])
    if most >= 30 and dec.chance(14):
        k = dec.pick([24, 70, 150, size(dec, 150)])
        out.append(("many", [gen_growth(dec, kind, prof, alph)
                             for _ in range(k)]))
        if dec.chance(80):
            out.append(("many", [gen_removal(dec, kind)
                                 for _ in range(dec.pick([20, k]))]))
    while dec.left and len(out) < most:
        if kind in LISTS:
            op = gen_op(dec, prof, mix)
            if op[0] == "exts":
                continue
            out.append(op)
        elif kind in LINEAR:
            if dec.chance(150):
                op = ("put", dec.chance(128), value(dec, prof))
                if kind == "PriorityQueue":
                    op += (dec.pick([None, dec.below(5), dec.rng(-3, 3),
                                     dec.below(101)]),)
                out.append(op)
            else:
                out.append(("take", dec.chance(128)))
        elif kind == "SkipList" or kind in SEARCH or kind in HEAPS:
            p = prof % 8
            k = dec.below(8)
            if k < 5:
                op = ("ins", number(dec, p))
                if kind == "Treap":
                    op += (dec.pick([None, dec.below(8), dec.rng(-9, 99)]),)
                out.append(op)
            elif k < 7:
                out.append(("rmat", dec.below(256)))
            else:
                out.append(("rm", number(dec, p)))
        elif kind in TRIES:
            if dec.chance(160):
                out.append(("ins", "".join(
                    dec.pick(alph) for _ in range(dec.rng(1, 5)))))
            elif dec.chance(128):
                out.append(("rmat", dec.below(256)))
            else:
                out.append(("rm", "".join(
                    dec.pick(alph) for _ in range(dec.rng(1, 3)))))
        else:
            raise AssertionError(kind)
    return out


def contents(kind, obj):
    """Stored items, through one public query."""
    if kind in SEARCH:
        return obj.inorder_traverse()
    if kind in TRIES:
        return sorted(obj.auto_complete(""))
    if kind in HEAPS:
        return sorted(obj.to_list())
    return obj.to_list()


def mutate(kind, obj, op):
    """Apply one change; returns what the operation returned."""
    name = op[0]
    if name == "many":
        return [mutate(kind, obj, o) for o in op[1]]
    if kind in LISTS:
        return mutate_list(kind, obj, op)
    if kind in LINEAR:
        if name == "put":
            if kind == "Stack":
                return obj.push(op[2])
            if kind == "Queue":
                return obj.enqueue(op[2])
            if kind == "Deque":
                return (obj.append_left if op[1] else obj.append_right)(op[2])
            return obj.enqueue(op[2], op[3])
        if kind == "Stack":
            return obj.pop()
        if kind == "Queue":
            return obj.dequeue()
        if kind == "Deque":
            return (obj.pop_left if op[1] else obj.pop_right)()
        return obj.dequeue(op[1])
    if name == "ins":
        if kind == "Treap":
            return obj.insert(op[1], op[2])
        return obj.insert(op[1])
    if name == "rm":
        return obj.remove(op[1])
    if name == "rmat":
        c = contents(kind, obj)
        if c:
            return obj.remove(c[op[1] % len(c)])
        return None
    raise AssertionError(op)


def mutate_list(kind, o, op):
    import extra
    name, n = op[0], len(o)
    if name == "front":
        return o.add_front(op[1])
    if name == "end":
        return o.add_end(op[1])
    if name == "ins":
        return o.insert(pos(op[1], n + 1), op[2])
    if name == "ext":
        return o.extend(getattr(extra, kind)(op[1])) if n < 200 else None
    if name == "clear":
        return o.clear()
    if name == "rmf":
        return o.remove_front()
    if name == "rme":
        return o.remove_end()
    if name == "rm":
        return o.remove(op[1], op[2])
    if name == "rotl":
        return o.rotate_left(op[1])
    if name == "rotr":
        return o.rotate_right(op[1])
    if not n:
        return None
    i = pos(op[1], n)
    if name == "set":
        return o.__setitem__(i, op[2])
    if name == "del":
        return o.__delitem__(i)
    if name == "rmat":
        return o.remove(o[i], op[2])
    raise AssertionError(op)


def gen_fixed(dec, kind):
    """Ingredients of a structure that is made whole."""
    if kind == "SuffixTrie":
        alph = dec.pick(["ab", "abc", "xyz01"])
        n = dec.rng(20, 70) if dec.chance(12) else dec.rng(1, 12)
        return "".join(dec.pick(alph) for _ in range(n))
    n = dec.rng(20, 70) if dec.chance(12) else dec.rng(1, 14)
    return [(dec.below(256), dec.chance(128), dec.below(10))
            for _ in range(n)]


def make_fixed(kind, data):
    import extra
    from pbt.targets import shapes as S
    if kind == "SuffixTrie":
        return extra.SuffixTrie(data)
    if kind == "Tree":
        nodes = [extra.TreeNode(v) for _, _, v in data]
        for i in range(1, len(nodes)):
            nodes[data[i][0] % i].set_child(nodes[i])
        t = extra.Tree()
        t._root = nodes[0] if nodes else None
        return t
    t = extra.BinaryTree()
    root = S.from_entries(data)
    if root is None:
        return t
    top = extra.BinaryTreeNode(root.v)
    st = [(root, top)]
    while st:
        a, b = st.pop()
        if a.l:
            b.set_left(extra.BinaryTreeNode(a.l.v))
            st.append((a.l, b.get_left()))
        if a.r:
            b.set_right(extra.BinaryTreeNode(a.r.v))
            st.append((a.r, b.get_right()))
    t._root = top
    return t


# ---------------------------------------------------------------- queries
def queries(kind, obj, ask=(), lookups=True):
    """[(name, thunk)] of everything the structure can be asked. The thunks
    return plain data."""
    out = [("len", lambda: len(obj)), ("repr", lambda: repr(obj)),
           ("str", lambda: str(obj))]

    def add(*names):
        for nm in names:
            out.append((nm, lambda nm=nm: getattr(obj, nm)()))

    def each(label, fn, vals):
        for v in vals:
            out.append((f"{label}({v!r})", lambda v=v: fn(v)))

    if kind != "SuffixTrie":
        add("is_empty")
    if kind not in LINEAR:
        out.append(("iteration", lambda: list(obj)))
        add("to_list")
    if kind in LISTS:
        each("count", obj.count, ask)
        each("in", obj.__contains__, ask)
        idx = (0, 1, 2, -1) if kind != "CircularLinkedList" else (0, 1, 7)
        each("getitem", obj.__getitem__, idx)
        each("split", lambda k: [p.to_list() for p in obj.split(k)], (0, 1))
        each("rotate_left", lambda k: obj.rotate_left(k, False).to_list(),
             (0, 1, 5))
        each("rotate_right", lambda k: obj.rotate_right(k, False).to_list(),
             (1, 3))
        out.append(("copy", lambda: obj.copy().to_list()))
        out.append(("reverse", lambda: obj.reverse().to_list()))
        out.append(("== copy", lambda: obj == obj.copy()))
        out.append(("!= copy", lambda: obj != obj.copy()))
        out.append(("built from it", lambda: type(obj)(obj).to_list()))
        if kind != "CircularLinkedList":
            each("slice", lambda s: obj[s[0]:s[1]:s[2]].to_list(),
                 ((None, None, None), (1, 4, None), (None, None, 2),
                  (None, None, -1), (0, 2, 1)))
    elif kind in LINEAR:
        add("is_full")
        add(*{"Stack": ["peek"], "Queue": ["top"],
              "Deque": ["get_left", "get_right"],
              "PriorityQueue": ["top"]}[kind])
        if kind == "PriorityQueue":
            out.append(("repr with priorities", lambda: shown(obj)))
    elif kind == "SkipList":
        add("get_height")
        each("in", obj.__contains__, ask)
        each("getitem", obj.__getitem__, (0, 1, 3))
    elif kind in HEAPS:
        add("get_min", "get_max")
        each("in", obj.__contains__, ask)
    elif kind == "SuffixTrie":
        add("get_height", "get_depth", "count_leaf_nodes", "to_suffix_array")
        each("has_substring", obj.has_substring, ask)
        each("occurrences", obj.count_pattern_occurrences, ask)
        out.append(("lrs", lambda: taken(
            obj.get_longest_repeated_substring())))
        out.append(("lcs", lambda: taken(
            obj.get_longest_common_substring())))
        each("lca", lambda p: obj.get_lowest_common_ancestor(*p),
             ((0, 1), (1, 0), (0, 2)))
    else:                                            # trees
        add("get_height", "get_depth", "count_leaf_nodes",
            "get_nodes_per_level")
        if lookups:
            each("in", obj.__contains__, ask)
        if kind in TRIES:
            each("has_prefix", obj.has_prefix, ask)
            each("auto_complete", obj.auto_complete, ask)
        elif kind != "Tree":
            add("preorder_traverse", "inorder_traverse",
                "postorder_traverse", "depth_first_traverse",
                "breadth_first_traverse", "get_leftside_view",
                "get_rightside_view", "is_balanced", "is_perfect",
                "is_strict")
            each("traverse", obj.traverse, ("inorder", "PreOrder",
                                            "postorder", "breadth-first",
                                            "depth-first"))
            if kind in SEARCH:
                add("get_min", "get_max")
            if kind == "RedBlackTree":
                add("get_black_height")
            if kind == "Treap":
                out.append(("repr with priorities", lambda: shown(obj)))
    return out


def taken(xs):
    """A sorted copy of a list that was handed out; the list is emptied."""
    out = sorted(xs)
    del xs[:]
    return out


def shown(obj):
    import extra
    extra.PriorityQueue.SHOW_PRIORITY = extra.Treap.SHOW_PRIORITY = True
    try:
        return repr(obj)
    finally:
        reset_globals()


def capture(fn, *a):
    """Outcome of a call as plain data: value or error, and warnings."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r = ("value", fn(*a))
        except Exception as e:
            r = ("error", type(e).__name__)
    return r + (sum(isinstance(w.message, UserWarning) for w in ws),)


def snapshot(kind, obj, ask=(), lookups=True):
    return [(n, capture(f)) for n, f in queries(kind, obj, ask, lookups)]


def ask_values(kind, picks):
    """Values to ask about, of the kind the structure holds."""
    if kind in TRIES or kind == "SuffixTrie":
        return ["", "a", "b", "ab", "x"] + [
            "".join("abcxyz01"[(p >> s) % 8] for s in (0, 2, 4)[:1 + p % 3])
            for p in picks]
    if kind in LISTS or kind in FIXED:
        return [0, 1, "a", "", 2.5] + list(picks)
    return [0, 1, 2.5, -1] + list(picks)


def seeded(seed, fn, *a):
    """Run with the random source in a given state."""
    random.seed(seed)
    return fn(*a)
