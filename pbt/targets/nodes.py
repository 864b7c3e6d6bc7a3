"""N01, N02, X05: the public building blocks (nodes, word helpers)."""
from pbt.core import number, text, value
from pbt.targets import Target, register

INF = float("inf")


def foreign(kind):
    """Objects no node accepts as a neighbour."""
    from extra.lists.linked_list import LinkedList, Node
    from extra.trees.tree import Tree, TreeNode
    return [lambda: 7, lambda: "x", lambda: [], lambda: Node,
            lambda: LinkedList(), lambda: TreeNode, lambda: Tree(),
            lambda: TreeNode(1) if kind == "list" else Node(1),
            lambda: object()][:]


def bad_items():
    from extra.lists.linked_list import LinkedList, Node
    from extra.lists.stack import Stack
    from extra.trees.bst import BST
    from extra.trees.tree import Tree, TreeNode
    return [lambda: None, lambda: LinkedList([1]), lambda: Node(1),
            lambda: TreeNode(1), lambda: Tree(), lambda: BST([1]),
            lambda: Stack()]


def not_a_number(k):
    return ["1", b"1", (1,), [2], {}, object(), 1j, "x"][k % 8]


def esc(v):
    return v.replace("\n", "\\n") if type(v) is str else v


# ---------------------------------------------------------------- N01
LK = ("Node", "DoublyNode", "SkipNode", "PriorityNode")


def list_classes():
    from extra.lists.doubly_linked_list import DoublyNode
    from extra.lists.linked_list import Node
    from extra.lists.priority_queue import PriorityNode
    from extra.lists.skip_list import SkipNode
    return {"Node": Node, "DoublyNode": DoublyNode, "SkipNode": SkipNode,
            "PriorityNode": PriorityNode}


class M:
    """Model of one list node."""

    def __init__(self, kind, data, prio=None):
        self.kind, self.data, self.prio = kind, data, prio
        self.next = self.prev = self.down = None
        self.sut = None

    @property
    def doubly(self):
        return self.kind in ("DoublyNode", "PriorityNode")


def inf_text(v):
    return "-∞" if v == -INF else "∞" if v == INF else v


class ListNodes(Target):
    name = "list-nodes"

    def gen(self, dec):
        kinds = dec.pick([LK, ("DoublyNode", "PriorityNode"),
                          ("DoublyNode",), ("Node", "DoublyNode"),
                          ("SkipNode", "Node"), ("PriorityNode",), LK])
        prof = dec.below(8)
        nprof = dec.below(8)

        def new():
            k = dec.pick(kinds)
            if k == "SkipNode":
                v = dec.pick([INF, -INF]) if dec.chance(60) \
                    else number(dec, nprof)
            else:
                v = value(dec, prof)
            p = number(dec, nprof) if k == "PriorityNode" and \
                dec.chance(200) else None
            return ("new", k, v, p)
        ops = [new() for _ in range(dec.rng(2, 5))]
        while dec.left:
            op = dec.weighted([("new", 1), ("next", 6), ("prev", 5),
                               ("down", 2), ("data", 3), ("prio", 2),
                               ("badnew", 1), ("badlink", 2), ("badset", 1),
                               ("unlink", 2)])
            if op == "new":
                ops.append(new())
            elif op == "data":
                ops.append((op, dec.below(256), value(dec, prof)))
            elif op == "prio":
                ops.append((op, dec.below(256), number(dec, nprof)))
            elif op in ("next", "prev", "down"):
                ops.append((op, dec.below(256), dec.below(256)))
            elif op == "badnew":
                ops.append((op, dec.pick(kinds), dec.below(256)))
            else:
                ops.append((op, dec.below(256), dec.below(3),
                            dec.below(256)))
        return {"ops": ops}

    def run(self, case, ctx):
        cls = list_classes()
        pool = []
        links = refused = relinked = 0
        for op in case["ops"]:
            ctx.at(op)
            name = op[0]
            ctx.tag("op:" + name)
            if name == "new":
                _, k, v, p = op
                m = M(k, esc(v), p)
                if k == "PriorityNode":
                    m.sut = ctx.sut(cls[k], v, p) if p is not None \
                        else ctx.sut(cls[k], v)
                    if p is None:
                        m.prio = ctx.sut(m.sut.get_priority)
                        ctx.ok(f"automatic priority {m.prio!r}",
                               type(m.prio) is int and 0 <= m.prio <= 100)
                else:
                    m.sut = ctx.sut(cls[k], v)
                pool.append(m)
                self.check(ctx, pool)
                continue
            if name == "badnew":
                _, k, b = op
                if k == "SkipNode" and b % 3 == 0:
                    ctx.raises((TypeError, ValueError), cls[k],
                               not_a_number(b // 3))
                elif k == "PriorityNode" and b % 3 == 0:
                    ctx.raises(TypeError, cls[k], 1, not_a_number(b // 3))
                else:
                    mk = bad_items()
                    bad = mk[b // 3 % len(mk)]()
                    ctx.raises(ValueError if bad is None else TypeError,
                               cls[k], bad)
                refused += 1
                continue
            if not pool:
                continue
            a = pool[op[1] % len(pool)]
            if name in ("next", "prev", "down"):
                b = pool[op[2] % len(pool)]
                if self.link(ctx, name, a, b):
                    links += 1
                else:
                    refused += 1
                relinked = ctx.tags.get("displaced", 0)
            elif name == "unlink":
                if op[2] % 2 == 0 or not a.doubly:
                    ctx.sut(a.sut.set_next, None)
                    old, a.next = a.next, None
                    if a.doubly and old is not None and old.prev is a:
                        self.settle(ctx, old, "prev")
                else:
                    ctx.sut(a.sut.set_prev, None)
                    old, a.prev = a.prev, None
                    if old is not None and old.next is a:
                        self.settle(ctx, old, "next")
            elif name == "data":
                if a.kind == "SkipNode":
                    continue
                ctx.sut(a.sut.set_data, op[2])
                a.data = esc(op[2])
            elif name == "prio":
                if a.kind != "PriorityNode":
                    continue
                ctx.sut(a.sut.set_priority, op[2])
                a.prio = op[2]
            elif name == "badlink":
                fs = foreign("list")
                bad = fs[op[3] % len(fs)]()
                f = ["set_next", "set_prev", "set_down"][op[2]]
                if hasattr(a.sut, f):
                    ctx.raises(TypeError, getattr(a.sut, f), bad)
                    refused += 1
            elif name == "badset":
                if a.kind == "PriorityNode" and op[2] == 0:
                    ctx.raises(TypeError, a.sut.set_priority,
                               not_a_number(op[3]))
                elif a.kind != "SkipNode":
                    mk = bad_items()
                    bad = mk[op[3] % len(mk)]()
                    ctx.raises(ValueError if bad is None else TypeError,
                               a.sut.set_data, bad)
                refused += 1
            self.check(ctx, pool)
        ctx.tag("links", links)
        ctx.nontrivial = links >= 2 and relinked + refused >= 1

    def link(self, ctx, name, a, b):
        """True when the link was made, False when it was refused."""
        if name == "down":
            if a.kind != "SkipNode":
                return False
            if b.kind != "SkipNode":
                ctx.raises(TypeError, a.sut.set_down, b.sut)
                return False
            ctx.sut(a.sut.set_down, b.sut)
            a.down = b
            return True
        if name == "prev" and not a.doubly:
            return False
        f = a.sut.set_next if name == "next" else a.sut.set_prev
        if a.doubly and not b.doubly:
            ctx.raises(TypeError, f, b.sut)
            return False
        ctx.sut(f, b.sut)
        back = "prev" if name == "next" else "next"
        old = getattr(a, name)
        setattr(a, name, b)
        if a.doubly:
            other = getattr(b, back)
            setattr(b, back, a)
            # neighbours that lost their partner: their old link may stay or
            # be cleared
            for x, side, was in ((old, back, a), (other, name, b)):
                if x is not None and getattr(x, side) is was and \
                        (x, side) not in ((a, name), (b, back)):
                    ctx.tag("displaced")
                    self.settle(ctx, x, side)
        return True

    def settle(self, ctx, x, side):
        got = ctx.sut(getattr(x.sut, "get_" + side))
        if got is None:
            setattr(x, side, None)

    def check(self, ctx, pool):
        for i, m in enumerate(pool):
            s = m.sut
            ctx.eq(f"data of node {i}", ctx.sut(s.get_data), m.data)
            for side in ("next", "prev", "down"):
                if side == "prev" and not m.doubly or \
                        side == "down" and m.kind != "SkipNode":
                    continue
                w = getattr(m, side)
                got = ctx.sut(getattr(s, "get_" + side))
                ctx.ok(f"{side} of node {i} is {got!r}, want "
                       f"{None if w is None else w.sut!r}",
                       got is (None if w is None else w.sut))
            nx = None if m.next is None else m.next.data
            pv = None if m.prev is None else m.prev.data
            if m.kind == "Node":
                want = f"Node(data: {m.data}, next: {nx})"
            elif m.kind == "DoublyNode":
                want = f"DoublyNode(data: {m.data}, prev: {pv}, next: {nx})"
            elif m.kind == "SkipNode":
                want = f"SkipNode(data: {inf_text(m.data)}, next: {nx})"
            else:
                ctx.eq("priority", ctx.sut(s.get_priority), m.prio)
                want = f"PriorityNode(data: {m.data}, Priority: {m.prio})"
            ctx.eq(f"repr of node {i}", ctx.sut(repr, s), want)


# ---------------------------------------------------------------- N02
class GeneralNodes(Target):
    """TreeNode, BinaryTreeNode, HeapNode, TrieNode: pool histories."""
    name = "tree-nodes"

    def gen(self, dec):
        kind = dec.pick(["tree", "tree", "bin", "bin", "trie"])
        prof = dec.below(8)
        ops = []

        def val():
            if kind == "trie":
                return text(dec, 2, True, "abé")
            if kind == "bin" and dec.chance(90):
                return ("heap", number(dec, prof))
            return value(dec, prof)
        ops = [("new", val()) for _ in range(dec.rng(2, 5))]
        while dec.left:
            if kind == "tree":
                op = dec.weighted([("new", 1), ("child", 5), ("children", 4),
                                   ("swap", 3), ("bad", 4), ("badnew", 1)])
            elif kind == "bin":
                op = dec.weighted([("new", 1), ("left", 4), ("right", 4),
                                   ("swap", 2), ("bad", 4), ("badnew", 1)])
            else:
                op = dec.weighted([("new", 1), ("key", 6), ("bad", 3),
                                   ("badnew", 1)])
            if op == "new":
                ops.append((op, val()))
            elif op == "badnew":
                ops.append((op, dec.below(256)))
            elif op == "children":
                ops.append((op, dec.below(256), dec.below(5),
                            [dec.below(256) for _ in range(dec.below(5))]))
            elif op == "key":
                ops.append((op, dec.below(256), dec.below(256),
                            text(dec, 2, False, "abé")))
            elif op == "bad":
                ops.append((op, dec.below(256), dec.below(8), dec.below(256),
                            dec.below(4)))
            else:
                ops.append((op, dec.below(256), dec.below(256)))
        return {"kind": kind, "ops": ops}

    def run(self, case, ctx):
        from extra.trees._heap import HeapNode
        from extra.trees.binary_tree import BinaryTreeNode
        from extra.trees.tree import TreeNode
        from extra.trees.trie import TrieNode
        kind = case["kind"]
        ctx.tag("kind:" + kind)
        main = {"tree": TreeNode, "bin": BinaryTreeNode,
                "trie": TrieNode}[kind]
        nodes, data, kids, parent, cname = [], [], [], [], []
        done = refused = 0

        def new(v):
            if type(v) is tuple and len(v) == 2 and v[0] == "heap":
                c, v = HeapNode, v[1]
            else:
                c = main
            nodes.append(ctx.sut(c, v))
            data.append(v if kind == "trie" else esc(v))
            kids.append([] if kind == "tree" else [None, None]
                        if kind == "bin" else {})
            parent.append(None)
            cname.append(c.__name__)

        for op in case["ops"]:
            name = op[0]
            ctx.at(op)
            ctx.tag("op:" + name)
            n = len(nodes)
            if name == "new":
                new(op[1])
            elif name == "badnew":
                mk = bad_items()
                bad = mk[op[1] % len(mk)]()
                if kind == "trie":
                    ctx.raises((TypeError, ValueError), TrieNode, bad)
                    ctx.raises(TypeError, TrieNode, 5)
                else:
                    ctx.raises(ValueError if bad is None else TypeError,
                               main, bad)
                    ctx.raises((TypeError, ValueError), HeapNode, bad)
                    ctx.raises(TypeError, HeapNode, not_a_number(op[1]))
                refused += 1
            else:
                i = op[1] % n
                a = nodes[i]
                if name == "child":
                    j = op[2] % n
                    ctx.sut(a.set_child, nodes[j])
                    kids[i].append(j)
                    done += 1
                elif name == "children":
                    js = [j % n for j in op[3]]
                    src = [nodes[j] for j in js]
                    arg = [src, tuple(src), iter(src),
                           (x for x in src), None][op[2]]
                    if arg is None:            # another node's own children
                        k = (i + 1) % n
                        js = list(kids[k])
                        arg = ctx.sut(nodes[k].get_children)
                    ctx.sut(a.set_children, arg)
                    src.append(nodes[0])       # no longer the node's business
                    kids[i] = js
                    done += 1
                elif name in ("left", "right"):
                    j = op[2] % n
                    ctx.sut(getattr(a, "set_" + name), nodes[j])
                    kids[i][name == "right"] = j
                    done += 1
                elif name == "key":
                    j = op[2] % n
                    ctx.sut(a.set_child, op[3], nodes[j])
                    if op[3] in kids[i]:
                        ctx.tag("key replaced")
                    kids[i][op[3]] = j
                    parent[j] = i
                    done += 1
                elif name == "swap":
                    j = op[2] % n
                    ctx.sut(TreeNode.swap, a, nodes[j])
                    data[i], data[j] = data[j], data[i]
                    done += 1
                elif name == "bad":
                    self.bad(ctx, kind, a, nodes, op)
                    refused += 1
            self.check(ctx, kind, nodes, data, kids, parent, cname)
        ctx.nontrivial = done >= 2 and refused >= 1

    def bad(self, ctx, kind, a, nodes, op):
        from extra.trees.tree import TreeNode
        _, _, how, k, pos = op
        fs = foreign("tree")
        bad = fs[k % len(fs)]()
        if kind == "tree":
            if how == 0:
                ctx.raises(TypeError, a.set_child, bad)
            elif how == 1:
                ctx.raises(TypeError, a.set_child, None)
            elif how == 2:
                ctx.raises(TypeError, a.set_children, [5, None, 2.5][k % 3])
            elif how == 3:
                ctx.raises(TypeError, TreeNode.swap, a, bad)
            elif how == 4:
                ctx.raises(TypeError, TreeNode.swap, bad, a)
            else:
                lst = list(nodes[:4])
                lst.insert(pos, bad if how != 5 else None)
                ctx.raises(TypeError, a.set_children,
                           lst if how < 7 else iter(lst))
        elif kind == "bin":
            if how == 7:
                bad = TreeNode(1)
            elif how == 6:
                bad = None
            if how == 5:
                ctx.raises(NotImplementedError, a.set_children, [])
            elif how == 4:
                ctx.raises(TypeError, TreeNode.swap, a, bad)
            elif pos % 2:
                ctx.raises(TypeError, a.set_left, bad)
            else:
                ctx.raises(TypeError, a.set_right, bad)
        else:
            if how < 3:
                ctx.raises(TypeError, a.set_child, "a", bad)
            elif how < 5:
                ctx.raises(TypeError, a.set_child, "a", TreeNode("a"))
            else:
                ctx.raises(TypeError, a.set_child,
                           [1, None, b"a", ["a"], ("a",)][k % 5], nodes[0])

    def check(self, ctx, kind, nodes, data, kids, parent, cname):
        for i, a in enumerate(nodes):
            ctx.eq(f"data of node {i}", ctx.sut(a.get_data), data[i])
            ctx.eq("repr", ctx.sut(repr, a), f"{cname[i]}({data[i]})")
            ks = kids[i]
            if kind == "trie":
                ctx.eq("characters", list(ctx.sut(a.get_characters)),
                       list(ks))
                for ch in list(ks) + ["zz", "q"]:
                    w = nodes[ks[ch]] if ch in ks else None
                    ctx.ok(f"child {ch!r} of node {i}",
                           ctx.sut(a.get_child, ch) is w)
                w = None if parent[i] is None else nodes[parent[i]]
                ctx.ok(f"parent of node {i}", ctx.sut(a.get_parent) is w)
                ks = list(ks.values())
            elif kind == "bin":
                for side, j in (("left", ks[0]), ("right", ks[1])):
                    got = ctx.sut(getattr(a, "get_" + side))
                    ctx.ok(f"{side} of node {i} is {got!r}",
                           got is (None if j is None else nodes[j]))
                ctx.eq("has_one_child", ctx.sut(a.has_one_child),
                       (ks[0] is None) != (ks[1] is None))
                ks = [j for j in ks if j is not None]
            got = ctx.sut(a.get_children)
            ctx.ok(f"children of node {i}: {got!r}",
                   len(got) == len(ks) and
                   all(g is nodes[j] for g, j in zip(got, ks)))
            ctx.eq("is_leaf", ctx.sut(a.is_leaf), not ks)


FAM = ("BSTNode", "AVLNode", "RedBlackNode", "TreapNode")


def fam_classes():
    from extra.trees.avl import AVLNode
    from extra.trees.bst import BSTNode
    from extra.trees.red_black_tree import RedBlackNode
    from extra.trees.treap import TreapNode
    return {"BSTNode": BSTNode, "AVLNode": AVLNode,
            "RedBlackNode": RedBlackNode, "TreapNode": TreapNode}


class SearchNodes(Target):
    """Free-standing trees of BST nodes, their relatives, their extras."""
    name = "search-nodes"

    def gen(self, dec):
        prof = dec.below(8)
        xs = [number(dec, prof) for _ in range(dec.pick([1, 2, 3, 5, 8, 12]))]
        ops = []
        for _ in range(dec.below(14)):
            op = dec.weighted([("swap", 3), ("badlink", 3), ("unlink", 2),
                               ("extra", 4), ("badextra", 3), ("badnew", 2),
                               ("badswap", 2), ("detach", 1)])
            ops.append((op, dec.below(256), dec.below(256), dec.below(256)))
        return {"kind": dec.pick(FAM), "xs": xs, "ops": ops,
                "marks": [dec.below(256) for _ in xs]}

    def run(self, case, ctx):
        from extra.trees.red_black_tree import Color
        from extra.trees.tree import TreeNode
        cls = fam_classes()
        kind = case["kind"]
        C = cls[kind]
        ctx.tag("kind:" + kind)
        xs, marks = [], []
        for x, k in zip(case["xs"], case["marks"]):
            if x not in xs:
                xs.append(x)
                marks.append(k)
        n = len(xs)
        # the reference tree: plain insertion order
        L, R, P = [None] * n, [None] * n, [None] * n
        for i in range(1, n):
            j = 0
            while True:
                side = L if xs[i] < xs[j] else R
                if side[j] is None:
                    side[j], P[i] = i, j
                    break
                j = side[j]
        extra = [None] * n
        nodes = []
        cols = [Color.RED, Color.BLACK]
        for i in range(n):
            ctx.at("making node", i)
            if kind == "RedBlackNode":
                if marks[i] % 3 == 2:
                    nodes.append(ctx.sut(C, xs[i]))
                    extra[i] = Color.RED
                else:
                    extra[i] = cols[marks[i] % 3]
                    nodes.append(ctx.sut(C, xs[i], extra[i]))
            elif kind == "TreapNode":
                if marks[i] % 4 == 0:
                    nodes.append(ctx.sut(C, xs[i]))
                    extra[i] = ctx.sut(nodes[-1].get_priority)
                    ctx.ok(f"automatic priority {extra[i]!r}",
                           type(extra[i]) is int and 0 <= extra[i] <= 100)
                else:
                    extra[i] = marks[i] - 128
                    nodes.append(ctx.sut(C, xs[i], extra[i]))
            else:
                nodes.append(ctx.sut(C, xs[i]))
        # assemble bottom-up so that stored heights are right at once
        order = sorted(range(n), key=lambda i: -self.depth(P, i))
        for i in order:
            ctx.at("linking node", i)
            if L[i] is not None:
                ctx.sut(nodes[i].set_left, nodes[L[i]])
            if R[i] is not None:
                ctx.sut(nodes[i].set_right, nodes[R[i]])
        if kind == "AVLNode":
            H = [0] * n
            for i in order:
                H[i] = max([0] + [H[j] + 1 for j in (L[i], R[i])
                                  if j is not None])
            extra = H
        self.check(ctx, kind, nodes, xs, L, R, P, extra, True)
        refused = ctx.tags.get("relatives", 0)
        data = list(xs)
        ordered = True
        for op, a, b, c in case["ops"]:
            i, j = a % n, b % n
            ctx.at((op, i, j, c))
            ctx.tag("op:" + op)
            if op == "swap":
                ctx.sut(C.swap, nodes[i], nodes[j])
                data[i], data[j] = data[j], data[i]
                if kind == "RedBlackNode":
                    extra[i], extra[j] = extra[j], extra[i]
                ordered = data == xs
            elif op == "badswap":
                fs = foreign("tree")
                bad = fs[c % len(fs)]() if c % 3 else None
                if kind == "RedBlackNode" and c % 5 == 0:
                    bad = TreeNode("x") if c % 2 else cls["BSTNode"](4)
                ctx.raises(TypeError, C.swap, *(
                    (nodes[i], bad) if b % 2 else (bad, nodes[i])))
            elif op == "badlink":
                fs = foreign("tree") + [lambda: TreeNode(1)]
                bad = fs[c % len(fs)]()
                f = ["set_left", "set_right", "set_parent"][b % 3]
                ctx.raises(TypeError, getattr(nodes[i], f), bad)
            elif op == "badnew":
                if c % 2:
                    ctx.raises((TypeError, ValueError), C, not_a_number(b))
                else:
                    mk = bad_items()
                    ctx.raises((TypeError, ValueError), C, mk[b % len(mk)]())
                if kind == "RedBlackNode":
                    ctx.raises(ValueError, C, 1, ["red", 0, None, "RED"]
                               [b % 4])
                elif kind == "TreapNode":
                    ctx.raises(TypeError, C, 1, not_a_number(b))
            elif op == "extra":
                if kind == "AVLNode":
                    ctx.sut(nodes[i].set_height, c)
                    extra[i] = c
                elif kind == "TreapNode":
                    extra[i] = [c, -c, c / 4, INF][b % 4]
                    ctx.sut(nodes[i].set_priority, extra[i])
                elif kind == "RedBlackNode":
                    extra[i] = cols[c % 2]
                    ctx.sut(nodes[i].set_color, extra[i])
            elif op == "badextra":
                if kind == "AVLNode":
                    ctx.raises(TypeError, nodes[i].set_height,
                               [1.0, "1", None, [1]][c % 4])
                    ctx.raises(ValueError, nodes[i].set_height, -1 - c)
                elif kind == "TreapNode":
                    ctx.raises(TypeError, nodes[i].set_priority,
                               not_a_number(c) if c % 9 else None)
                elif kind == "RedBlackNode":
                    ctx.raises(ValueError, nodes[i].set_color,
                               ["red", 0, None, 1, "BLACK"][c % 5])
            elif op in ("unlink", "detach"):
                # cut a leaf off; it is not asked for its parent again until
                # it is linked once more
                leaves = [k for k in range(n) if L[k] is None and
                          R[k] is None and P[k] is not None]
                if not leaves:
                    continue
                k = leaves[a % len(leaves)]
                p = P[k]
                left = L[p] == k
                f = nodes[p].set_left if left else nodes[p].set_right
                ctx.sut(f, None)
                (L if left else R)[p] = None
                P[k] = None
                ctx.sut(nodes[k].set_parent, None)
                if kind == "AVLNode":
                    self.adopt_heights(ctx, nodes, extra, L, R, p)
                self.check(ctx, kind, nodes, data, L, R, P, extra, ordered)
                if op == "unlink":
                    ctx.sut(f, nodes[k])
                    (L if left else R)[p] = k
                    P[k] = p
                    if kind == "AVLNode":
                        self.adopt_heights(ctx, nodes, extra, L, R, p)
            self.check(ctx, kind, nodes, data, L, R, P, extra, ordered)
        ctx.nontrivial = n >= 3 and refused >= 1 and len(case["ops"]) >= 1

    def adopt_heights(self, ctx, nodes, H, L, R, p):
        """Linking a child recomputes the height of that one node."""
        H[p] = max([0] + [H[j] + 1 for j in (L[p], R[p]) if j is not None])

    @staticmethod
    def depth(P, i):
        d = 0
        while P[i] is not None:
            i, d = P[i], d + 1
        return d

    def check(self, ctx, kind, nodes, data, L, R, P, extra, ordered):
        from extra.trees.red_black_tree import Color

        def at(j):
            return None if j is None else nodes[j]
        for i, a in enumerate(nodes):
            ctx.eq(f"data of node {i}", ctx.sut(a.get_data), data[i])
            p = P[i]
            g = None if p is None else P[p]
            ctx.ok(f"left of node {i}", ctx.sut(a.get_left) is at(L[i]))
            ctx.ok(f"right of node {i}", ctx.sut(a.get_right) is at(R[i]))
            ctx.ok(f"parent of node {i}", ctx.sut(a.get_parent) is at(p))
            ctx.ok(f"grand-parent of node {i}",
                   ctx.sut(a.get_grand_parent) is at(g))
            ctx.eq("is_leaf", ctx.sut(a.is_leaf),
                   L[i] is None and R[i] is None)
            ctx.eq("has_one_child", ctx.sut(a.has_one_child),
                   (L[i] is None) != (R[i] is None))
            got = ctx.sut(a.get_children)
            want = [nodes[j] for j in (L[i], R[i]) if j is not None]
            ctx.ok(f"children of node {i}", len(got) == len(want) and
                   all(x is y for x, y in zip(got, want)))
            if ordered:
                sib = None if p is None else R[p] if L[p] == i else L[p]
                unc = None if g is None else R[g] if L[g] == p else L[g]
                ctx.eq(f"is_left_child of node {i}",
                       ctx.sut(a.is_left_child), p is not None and L[p] == i)
                ctx.ok(f"sibling of node {i}",
                       ctx.sut(a.get_sibling) is at(sib))
                ctx.ok(f"uncle of node {i}", ctx.sut(a.get_uncle) is at(unc))
                if unc is not None and sib is not None:
                    ctx.tag("relatives")
                elif sib is not None or g is not None:
                    ctx.tag("relatives")
            if kind == "AVLNode":
                ctx.eq(f"height of node {i}", ctx.sut(a.get_height), extra[i])
                hs = [0 if j is None else 1 + extra[j] for j in (L[i], R[i])]
                ctx.eq("heights of the children",
                       list(ctx.sut(a.get_children_heights)), hs)
                ctx.eq("left height", ctx.sut(a.get_left_height), hs[0])
                ctx.eq("right height", ctx.sut(a.get_right_height), hs[1])
                ctx.eq("is_balanced", ctx.sut(a.is_balanced),
                       abs(hs[0] - hs[1]) <= 1)
                r = f"AVLNode({data[i]})"
            elif kind == "RedBlackNode":
                ctx.ok(f"colour of node {i}",
                       ctx.sut(a.get_color) is extra[i])
                r = ("RedNode" if extra[i] is Color.RED else "BlackNode") + \
                    f"({data[i]})"
            elif kind == "TreapNode":
                ctx.eq(f"priority of node {i}", ctx.sut(a.get_priority),
                       extra[i])
                r = f"TreapNode(data: {data[i]}, Priority: {extra[i]})"
            else:
                r = f"BSTNode({data[i]})"
            ctx.eq("repr", ctx.sut(repr, a), r)


class LiveNodes(Target):
    """Relatives as answered by the nodes of live search trees."""
    name = "live-nodes"

    def gen(self, dec):
        kind = dec.pick(["BST", "AVL", "RedBlackTree", "SplayTree", "Treap"])
        prof = dec.below(8)
        rs = dec.below(65536)
        ops = []
        while dec.left:
            op = dec.weighted([("ins", 6), ("rm", 4), ("has", 1)])
            ops.append((op, number(dec, prof) if op == "ins"
                        else dec.below(256)))
        return {"kind": kind, "rs": rs, "ops": ops}

    def run(self, case, ctx):
        from pbt.targets.kinds import make
        t = ctx.setup(make, case["kind"])
        ctx.tag("kind:" + case["kind"])
        m, removed, most = [], 0, 0
        for op, x in case["ops"]:
            if op == "ins":
                if x not in m:
                    m.append(x)
                ctx.setup(t.insert, x)
            elif m:
                y = m[x % len(m)]
                if op == "rm":
                    m.remove(y)
                    ctx.setup(t.remove, y)
                    removed += 1
                else:
                    ctx.setup(t.__contains__, y)
            else:
                continue
            ctx.at(op, x, "then asking every node")
            most = max(most, self.check(ctx, t))
        ctx.nontrivial = most >= 4 and removed >= 1

    def check(self, ctx, t):
        root = t._root
        if root is None:
            return 0
        ctx.ok("the root has a parent", ctx.sut(root.get_parent) is None)
        todo, k = [(root, None, None)], 0
        while todo:
            a, p, g = todo.pop()
            k += 1
            ctx.ok(f"parent of {a!r}", ctx.sut(a.get_parent) is p)
            ctx.ok(f"grand-parent of {a!r}",
                   ctx.sut(a.get_grand_parent) is g)
            left = p is not None and p.get_left() is a
            ctx.eq(f"is_left_child of {a!r}", ctx.sut(a.is_left_child), left)
            sib = None if p is None else p.get_right() if left \
                else p.get_left()
            ctx.ok(f"sibling of {a!r}", ctx.sut(a.get_sibling) is sib)
            unc = None if g is None else g.get_right() \
                if g.get_left() is p else g.get_left()
            ctx.ok(f"uncle of {a!r}", ctx.sut(a.get_uncle) is unc)
            for c in (a.get_left(), a.get_right()):
                if c is not None:
                    todo.append((c, a, p))
        return k


# ---------------------------------------------------------------- X05
class Helpers(Target):
    name = "word-helpers"

    def gen(self, dec):
        how = dec.below(4)
        alph = dec.pick(["ab", "a", "abc", "aé漢🙂", "aAbB", "a\n ", "01"])
        a = text(dec, 12, False, alph)
        if dec.chance(30):
            a = a * dec.pick([3, 8, 30])
        if how == 0:
            b = text(dec, 12, False, alph)
        elif how == 1:                        # prefix
            b = a[:dec.below(len(a) + 1)]
        elif how == 2:                        # shared stem
            b = a[:dec.below(len(a) + 1)] + text(dec, 6, False, alph) * \
                dec.pick([1, 1, 1, 9])
        else:
            b = a + text(dec, 5, False, alph)
        pal = dec.below(4)
        w = a
        if pal == 1:
            w = a + a[::-1]
        elif pal == 2:
            w = a + a[::-1][1:]
        elif pal == 3:                        # a palindrome but for one letter
            w = a + a[::-1]
            if w:
                i = dec.below(len(w))
                w = w[:i] + dec.pick(alph) + w[i + 1:]
        return {"a": a, "b": b, "w": w, "bad": dec.below(6)}

    def run(self, case, ctx):
        from extra.trees.radix_trie import get_lcp
        from extra.trees.suffix_trie import is_palindrome
        a, b, w = case["a"], case["b"], case["w"]
        k = 0
        while k < min(len(a), len(b)) and a[k] == b[k]:
            k += 1
        ctx.at("get_lcp", a, b)
        ctx.eq("common prefix", ctx.sut(get_lcp, a, b), a[:k])
        ctx.eq("common prefix, swapped", ctx.sut(get_lcp, b, a), a[:k])
        ctx.eq("common prefix with itself", ctx.sut(get_lcp, a, a), a)
        ctx.at("is_palindrome", w)
        ctx.eq("palindrome", ctx.sut(is_palindrome, w), w == w[::-1])
        ctx.eq("palindrome, reversed", ctx.sut(is_palindrome, w[::-1]),
               w == w[::-1])
        bad = [None, 5, b"ab", ["a"], ("a",), 1.5][case["bad"]]
        ctx.raises(AssertionError, is_palindrome, bad)
        ctx.raises(AssertionError, get_lcp, bad, a)
        ctx.raises(AssertionError, get_lcp, a, bad)
        ctx.tag("palindrome" if w == w[::-1] else "no palindrome")
        if k and k < min(len(a), len(b)):
            ctx.tag("split inside")
        elif k:
            ctx.tag("one is a prefix")
        ctx.nontrivial = k >= 1 and len(w) >= 2


register("N01", "pools of list nodes of mixed kinds, linked, relinked, "
         "unlinked, renamed and offered wrong neighbours and values; every "
         "node is read back after every step. Non-trivial: two links made "
         "and one of them displaced another or was refused.",
         [(ListNodes(), 8000, 200000)])
register("N02", "pools of tree nodes under the same regime, free-standing "
         "search trees whose nodes answer for their relatives, and the nodes "
         "of live search trees after every operation. Non-trivial: two "
         "children set and one refusal; three nodes with relatives and an "
         "operation; four nodes and a removal.",
         [(GeneralNodes(), 5000, 120000), (SearchNodes(), 5000, 120000),
          (LiveNodes(), 3000, 80000)])
register("X05", "pairs of words sharing stems, and words made palindromes or "
         "palindromes but for one letter. Non-trivial: the pair shares a "
         "letter and the other word has two.",
         [(Helpers(), 10000, 300000)])
