"""T01-T05: binary trees, general trees, drawings."""
import os
import shutil
import tempfile

from pbt.core import Discard, esc, number, size, text, value
from pbt.targets import Target, register
from pbt.targets import shapes as S
from pbt.targets.lists import bad_item


def V(prof):
    """Value generator for tree nodes."""
    def one(dec):
        if prof == 8:
            return dec.below(100000)
        return value(dec, prof)
    return one


def tree_value(dec, prof):
    v = V(prof)(dec)
    return v if type(v) not in (list, tuple) else str(v)


def build(ctx, root):
    """The shape made of the package's own nodes."""
    from extra import BinaryTree, BinaryTreeNode
    t = BinaryTree()
    if root is None:
        return t

    def go():
        top = BinaryTreeNode(root.v)
        st = [(root, top)]
        while st:
            a, b = st.pop()
            if a.l:
                k = BinaryTreeNode(a.l.v)
                b.set_left(k)
                st.append((a.l, k))
            if a.r:
                k = BinaryTreeNode(a.r.v)
                b.set_right(k)
                st.append((a.r, k))
        t._root = top
    ctx.sut(go)
    return t


def escaped(root):
    for n in S.pre(root):
        n.v = esc(n.v)
    return root


def check_shape(ctx, t, root):
    """Shape seen through node getters, and again through traversals."""
    top = getattr(t, "_root", None)
    if top is not None and hasattr(top, "get_left"):
        got = ctx.sut(S.read, top)
        ctx.eq("shape", S.key(got), S.key(root))
    elif root is None:
        ctx.eq("is_empty", ctx.sut(t.is_empty), True)
    ctx.eq("pre-order", ctx.sut(t.preorder_traverse), S.vals(S.pre(root)))
    ctx.eq("in-order", ctx.sut(t.inorder_traverse), S.vals(S.inorder(root)))
    ctx.eq("levels", ctx.sut(t.get_nodes_per_level),
           [S.vals(x) for x in S.levels(root)])


# --------------------------------------------------------------------- T01
def literal(root, flags):
    """Nested literal for a shape; a lone right child becomes the left."""
    out = {}
    k = 0
    for n in S.post(root):
        f = flags[k % len(flags)] if flags else 0
        k += 1
        kids = [out[id(c)] for c in (n.l, n.r) if c]
        if not kids and f % 3 == 0 and n is not root:
            out[id(n)] = n.v
        else:
            lst = [n.v] + kids
            out[id(n)] = tuple(lst) if f % 2 else lst
    for n in S.pre(root):
        if n.r and not n.l:
            n.l, n.r = n.r, None
    return out[id(root)]


class ParseTarget(Target):
    name = "parse"

    def gen(self, dec):
        prof = dec.pick([0, 1, 2, 3, 4, 5, 6, 7, 8])
        flags = [dec.below(6) for _ in range(dec.rng(1, 7))]
        most = dec.pick([1, 3, 7, 20, 60, size(dec, 90)])
        return {"nodes": S.gen_entries(dec, lambda d: tree_value(d, prof),
                                       most), "flags": flags}

    def run(self, case, ctx):
        from extra import BinaryTree
        root = S.from_entries(case["nodes"])
        if root is None or not case["flags"]:
            raise Discard
        if any(type(n.v) in (list, tuple) for n in S.pre(root)):
            raise Discard
        lv = S.levels(root)
        if len(lv) > 150:
            raise Discard
        lit = literal(root, case["flags"])
        ctx.at("parsing", lit)
        t = ctx.sut(BinaryTree.parse, lit)
        ctx.ok("not a BinaryTree", isinstance(t, BinaryTree))
        check_shape(ctx, t, escaped(root))
        ctx.eq("len", ctx.sut(len, t), len(S.pre(root)))
        # the source is not kept: a second parse gives the same
        check_shape(ctx, ctx.sut(BinaryTree.parse, lit), root)
        ctx.tag("levels", len(S.levels(root)))
        ctx.nontrivial = len(S.pre(root)) >= 4


class ParseReject(Target):
    name = "parse-reject"

    def gen(self, dec):
        prof = dec.below(5)
        nodes = S.gen_entries(dec, lambda d: tree_value(d, prof), 12)
        return {"nodes": nodes, "flags": [0, 1, 3],
                "at": dec.below(256), "bad": dec.below(10)}

    def run(self, case, ctx):
        from extra import BinaryTree
        root = S.from_entries(case["nodes"])
        if root is None or not case["flags"]:
            raise Discard
        if any(type(n.v) in (list, tuple) for n in S.pre(root)):
            raise Discard
        at, bad = case["at"], case["bad"] % 10
        if bad == 0:
            for x in (5, "ab", None, 1.5, {1, 2}, {1: 2}, iter([1])):
                ctx.raises(TypeError, BinaryTree.parse, x)
            ctx.raises(ValueError, BinaryTree.parse, [])
            ctx.raises(ValueError, BinaryTree.parse, ())
            ctx.nontrivial = True
            return
        lit = literal(root, [1, 2])          # every node is a list or tuple
        # walk to a nested list and spoil it
        path = [lit]
        cur = lit
        while len(cur) > 1 and type(cur) in (list, tuple):
            nxt = [x for x in cur[1:] if type(x) in (list, tuple)]
            if not nxt or at % 4 == 0:
                break
            cur = nxt[at % len(nxt)]
            path.append(cur)
            at //= 2
        item, err = bad_item(at)
        if bad <= 3:
            new, err = ([] if bad % 2 else ()), ValueError
        elif bad <= 6:
            new = list(cur) + [9] * (4 - len(cur) + bad % 2)
            err = ValueError
            if bad == 6:
                new = tuple(new)
        else:
            new = [item] + list(cur[1:])
        for outer in reversed(path[:-1]):
            i = next(i for i, x in enumerate(outer) if x is cur)
            cur = outer
            new = type(outer)(list(outer[:i]) + [new] + list(outer[i + 1:]))
        ctx.at("parsing", new)
        ctx.raises(err, BinaryTree.parse, new)
        ctx.tag("spoilt at depth", len(path))
        ctx.nontrivial = True


register("T01", "nested list/tuple literals of random shapes (bare and "
         "wrapped leaves, mixed value types) parsed and compared node by "
         "node; and the same literals spoilt at a random depth, which must be "
         "rejected. Non-trivial: four or more nodes, or a spoilt literal.",
         [(ParseTarget(), 6000, 150000), (ParseReject(), 3000, 60000)])


# --------------------------------------------------------------------- T02
NAMES = {"inorder": "inorder_traverse", "postorder": "postorder_traverse",
         "preorder": "preorder_traverse",
         "depth-first": "depth_first_traverse",
         "breadth-first": "breadth_first_traverse"}


def spell(name, bits):
    return "".join(c.upper() if bits >> i & 1 else c
                   for i, c in enumerate(name))


def check_traversals(ctx, t, root, bits=0, whole=True):
    want = {"inorder": S.vals(S.inorder(root)),
            "postorder": S.vals(S.post(root)),
            "preorder": S.vals(S.pre(root)),
            "depth-first": S.vals(S.pre(root)),
            "breadth-first": [v for lv in S.levels(root)
                              for v in S.vals(lv)]}
    lv = S.levels(root)

    def same(what, f, w, *a):
        return lambda: ctx.eq(what, ctx.sut(f, *a), w)
    checks = [same("traverse()", t.traverse, want["inorder"])]
    for name, meth in NAMES.items():
        w, spelt = want[name], spell(name, bits)
        checks += [same(meth, getattr(t, meth), w),
                   same(f"traverse({spelt!r})", t.traverse, w, spelt)]
    ctx.ask(*checks,
            same("traverse()", t.traverse, want["inorder"]),
            same("to_list", t.to_list, want["breadth-first"]),
            same("iteration", list, want["breadth-first"], t),
            same("levels", t.get_nodes_per_level, [S.vals(x) for x in lv]),
            same("left view", t.get_leftside_view, [x[0].v for x in lv]),
            same("right view", t.get_rightside_view, [x[-1].v for x in lv]),
            whole=whole)


class TraverseTarget(Target):
    name = "traverse"
    sparse = True

    def gen(self, dec):
        prof = dec.below(9)
        bits = dec.below(65536)
        most = dec.pick([0, 1, 3, 7, 15, 40, size(dec, 140)])
        if dec.chance(14):
            most = dec.rng(70, 300)
        return {"nodes": S.gen_entries(dec, lambda d: tree_value(d, prof),
                                       most), "bits": bits}

    def run(self, case, ctx):
        root = escaped(S.from_entries(case["nodes"]))
        if len(S.levels(root)) > 150:
            raise Discard
        t = build(ctx, root)
        ctx.at("shape", S.key(root))
        check_traversals(ctx, t, root, case["bits"], ctx.view % 2 == 0)
        for bad in ("in-order", "", "level", "pre order", "dfs"):
            ctx.raises(ValueError, t.traverse, bad)
        for bad in (None, 1, ["inorder"], b"inorder"):
            ctx.raises(TypeError, t.traverse, bad)
        ctx.sut(t.invert)
        ctx.at("inverted shape", S.key(root))
        check_traversals(ctx, t, S.mirror(root), 0, ctx.view % 2 == 0)
        ctx.sut(t.invert)
        ctx.at("twice inverted shape")
        check_shape(ctx, t, S.mirror(root))
        n = len(S.pre(root))
        ctx.tag("nodes>=%d" % (0 if n < 4 else 4 if n < 30 else 30))
        ctx.nontrivial = n >= 4


def search_tree(ctx, kind, keys, removals, seed=1, pre=(), drain=False):
    """A search tree with keys inserted, then some removed; any order. It may
    have held others before it was cleared."""
    import extra
    cls = getattr(extra, kind)
    t = ctx.setup(cls, seed=seed) if kind == "Treap" else ctx.setup(cls)
    m = []
    for k in pre:
        ctx.setup(t.insert, k)
    if pre and drain:
        for k in pre[1:] + pre[:1]:       # emptied one by one
            ctx.setup(t.remove, k)
    elif pre:
        ctx.setup(t.clear)
    ctx.drain()
    for k in keys:
        if k not in m:
            ctx.setup(t.insert, k)
            m.append(k)
            yield t, m
    for r in removals:
        if m:
            k = m.pop(r % len(m))
            ctx.setup(t.remove, k)
            yield t, m
    yield t, m


KINDS = ("BST", "AVL", "RedBlackTree", "SplayTree", "Treap")


def gen_search(dec, most=60):
    prof = dec.pick([0, 1, 2, 5, 7, 3, 4])
    order = dec.below(4)
    keys, rem = [], []
    kind = dec.below(5)
    seed = dec.below(1000)
    n = dec.pick([0, 2, 5, 12, 30, 60])
    big = most >= 60 and dec.chance(16)
    if big:
        n = most = size(dec, 140)
        prof = dec.pick([2, 7])
    while (dec.left or big) and len(keys) < min(n, most):
        keys.append(number(dec, prof))
    while dec.left and len(rem) < n // 2:
        rem.append(dec.below(256))
    if order == 1:
        keys.sort()
    elif order == 2:
        keys.sort(reverse=True)
    swap = [(dec.below(256), number(dec, prof))
            for _ in range(dec.pick([0, 1, 2, 3, 3, 9]))]
    pre = [number(dec, prof) for _ in range(dec.pick([0, 0, 0, 2, 5]))]
    return {"kind": kind, "keys": keys, "rem": rem, "seed": seed,
            "swap": swap, "pre": pre, "drain": dec.chance(128),
            "each": dec.chance(40 if big else 8)}


def stages(ctx, case):
    """The tree of a case, and again after each of some exchanges of a key
    for another one."""
    kind = KINDS[case["kind"] % 5]
    for t, m in search_tree(ctx, kind, case["keys"], case["rem"],
                            case["seed"], list(case.get("pre", ())),
                            case.get("drain")):
        if case.get("each"):              # at all sizes on the way
            yield kind, t, m
    yield kind, t, m
    for i, k in case.get("swap", ()):
        if i % 7 == 6:                    # to no effect
            ctx.setup(t.remove, max(m) + 1 if m else k)
            ctx.drain()
            yield kind, t, m
        elif i % 7 == 5:
            try:
                t.insert(str(k))
            except TypeError:
                ctx.tag("rejected")
            except Exception:
                raise Discard
            ctx.drain()
            yield kind, t, m
        elif m and k not in m:
            ctx.setup(t.remove, m.pop(i % len(m)))
            ctx.setup(t.insert, k)
            m.append(k)
            ctx.tag("exchanged")
            yield kind, t, m


class TraverseSearch(Target):
    name = "traverse-search"
    sparse = True

    def gen(self, dec):
        c = gen_search(dec)
        c["bits"] = dec.below(65536)
        return c

    def run(self, case, ctx):
        for kind, t, m in stages(ctx, case):
            top = getattr(t, "_root", None)
            root = ctx.sut(S.read, top) if top is not None else None
            ctx.at(kind, S.key(root))
            check_traversals(ctx, t, root, case["bits"], False)
        check_traversals(ctx, t, root, case["bits"])
        ctx.tag(kind)
        ctx.nontrivial = len(m) >= 4


class GeneralTarget(Target):
    """Trees of TreeNode: listing, levels, measurements."""
    name = "general"

    def gen(self, dec):
        prof = dec.below(9)
        nodes = []
        n = dec.pick([1, 3, 8, 25])
        big = dec.chance(12)
        if big:
            n = size(dec, 130) if dec.chance(128) else dec.rng(60, 300)
        fans = dec.chance(60)            # many children of few nodes
        while (dec.left or big) and len(nodes) < n:
            p = dec.below(256) if dec.chance(200) else -1
            for _ in range(dec.pick([1, 2, 9, 70]) if fans else 1):
                nodes.append((len(nodes) - 1 if p < 0 else p,
                              tree_value(dec, prof)))
                p = nodes[-1][0]
        return {"nodes": nodes, "how": dec.below(2)}

    def run(self, case, ctx):
        from extra import Tree, TreeNode
        gs, ns = [], []
        t = Tree()
        for p, v in case["nodes"]:
            g, n = S.G(esc(v)), ctx.sut(TreeNode, v)
            if gs:
                k = p % len(gs) if p >= 0 else len(gs) - 1
                gs[k].kids.append(g)
                if case["how"] == 0:
                    ctx.sut(ns[k].set_child, n)
            gs.append(g)
            ns.append(n)
        if case["how"]:
            at = {id(g): i for i, g in enumerate(gs)}
            for g, n in zip(gs, ns):
                ctx.sut(n.set_children, [ns[at[id(c)]] for c in g.kids])
        if not gs:
            raise Discard
        t._root = ns[0]
        ctx.at("tree", case["nodes"])
        lv = S.glevels(gs[0])
        check_general(ctx, t, gs[0], lambda g: str(g.v))
        for v in [g.v for g in gs[:8]] + ["stranger", 12345.5]:
            ctx.eq(f"{v!r} in", ctx.sut(t.__contains__, v),
                   any(g.v == v for g in gs))
        ctx.nontrivial = len(gs) >= 4 and len(lv) >= 3


def check_general(ctx, t, root, label):
    lv = S.glevels(root)
    flat = [g for x in lv for g in x]
    data = [[g.v for g in x] for x in lv]
    ctx.eq("levels", ctx.sut(t.get_nodes_per_level), data)
    ctx.eq("to_list", ctx.sut(t.to_list), [g.v for g in flat])
    ctx.eq("iteration", ctx.sut(list, t), [g.v for g in flat])
    ctx.eq("len", ctx.sut(len, t), len(flat))
    ctx.eq("height", ctx.sut(t.get_height), len(lv) - 1)
    ctx.eq("depth", ctx.sut(t.get_depth), 0)
    ctx.eq("leaves", ctx.sut(t.count_leaf_nodes),
           sum(not g.kids for g in flat))
    ctx.eq("is_empty", ctx.sut(t.is_empty), False)
    got, want = ctx.sut(repr, t), S.draw_general(root, label)
    ctx.ok(f"drawing is\n{got}\nwant\n{want}", got == want)


register("T02", "random binary shapes built node by node, search trees after "
         "insertions and removals (shape read through node getters), and "
         "general trees; every traversal, listing and view against iterative "
         "reference walks, by method and by randomly cased name; inversion. "
         "Non-trivial: four or more nodes.",
         [(TraverseTarget(), 4000, 100000), (TraverseSearch(), 3000, 80000),
          (GeneralTarget(), 2500, 60000)])


# --------------------------------------------------------------------- T03
def check_measures(ctx, t, root, whole=True):
    lv = S.levels(root)
    nodes = S.pre(root)

    def same(what, f, w, *a):
        return lambda: ctx.eq(what, ctx.sut(f, *a), w)
    checks = [same("len", len, len(nodes), t),
              same("is_empty", t.is_empty, not nodes),
              same("height", t.get_height, max(0, len(lv) - 1)),
              same("depth", t.get_depth, 0),
              same("leaves", t.count_leaf_nodes,
                   sum(not n.l and not n.r for n in nodes))]
    if root is not None:
        perfect = all(len(x) == 2 ** d for d, x in enumerate(lv))
        strict = all((n.l is None) == (n.r is None) for n in nodes)
        checks += [same("is_perfect", t.is_perfect, perfect),
                   same("is_strict", t.is_strict, strict),
                   lambda: check_balance(ctx, t, root, lv)]
        if perfect:
            ctx.tag("perfect")
        if strict:
            ctx.tag("strict")
    ctx.ask(*checks, whole=whole)
    ctx.drain()


def check_balance(ctx, t, root, lv):
    leaf = [d for d, x in enumerate(lv) for n in x if not n.l and not n.r]
    got = ctx.sut(t.is_balanced)
    ctx.ok("is_balanced is no truth value", type(got) is bool)
    hl, hr = len(S.levels(root.l)), len(S.levels(root.r))
    kids = [c for c in (root.l, root.r) if c]
    if max(leaf) - min(leaf) <= 1 and (len(kids) != 1 or not
                                       (kids[0].l or kids[0].r)):
        ctx.ok("not reported balanced though leaf depths differ by at most "
               "one", got)
        ctx.tag("balanced")
    if abs(hl - hr) > 1:
        ctx.ok("reported balanced though the root's subtrees' heights are "
               f"{hl} and {hr}", not got)
        ctx.tag("unbalanced")


class MeasureTarget(Target):
    name = "measure"

    def gen(self, dec):
        prof = dec.below(9)
        most = dec.pick([1, 2, 3, 7, 15, 31, 60, size(dec, 140)])
        if dec.chance(14):
            most = dec.rng(70, 300)
        return {"nodes": S.gen_entries(dec, lambda d: tree_value(d, prof),
                                       most),
                "ask": [value(dec, prof) for _ in range(3)]}

    def run(self, case, ctx):
        root = escaped(S.from_entries(case["nodes"]))
        if len(S.levels(root)) > 150:
            raise Discard
        t = build(ctx, root)
        ctx.at("shape", S.key(root))
        check_measures(ctx, t, root)
        vs = S.vals(S.pre(root))
        for v in vs[:10] + vs[-5:] + list(case["ask"]) + [None, "stranger"]:
            ctx.eq(f"{v!r} in", ctx.sut(t.__contains__, v),
                   any(x == v for x in vs))
        ctx.nontrivial = len(vs) >= 4


class MeasureSearch(Target):
    name = "measure-search"
    sparse = True

    def gen(self, dec):
        return gen_search(dec)

    def run(self, case, ctx):
        for kind, t, m in stages(ctx, case):
            top = getattr(t, "_root", None)
            root = ctx.sut(S.read, top) if top is not None else None
            ctx.at(kind, S.key(root))
            ctx.drain()
            check_measures(ctx, t, root, False)
        check_measures(ctx, t, root)
        ctx.tag(kind)
        ctx.nontrivial = len(m) >= 4


register("T03", "random, complete, strict, one-sided and deep shapes, and "
         "search trees after removals; counts taken over the shape itself. "
         "Non-trivial: four or more nodes.",
         [(MeasureTarget(), 6000, 150000), (MeasureSearch(), 4000, 100000),
          (GeneralTarget(), 1500, 40000)])


# --------------------------------------------------------------------- T04
NAMEALPH = ["abc", "abAB01", "aé漢_-. ", "ab.txt", "01 -(~"]


class PathTarget(Target):
    name = "from-path"

    def gen(self, dec):
        entries = []
        alph = dec.pick(NAMEALPH)
        n = dec.pick([0, 1, 3, 8, 20])
        big = dec.chance(6)
        if big:
            n = dec.pick([45, 90])
        while (dec.left or big) and len(entries) < n:
            entries.append((dec.below(256), dec.chance(140),
                            "".join(dec.pick(alph)
                                    for _ in range(dec.rng(1, 5)))))
        return {"entries": entries, "rootfile": dec.chance(20),
                "spell": dec.below(8), "root": "".join(
                    dec.pick(alph) for _ in range(dec.rng(1, 4)))}

    def run(self, case, ctx):
        from extra import Tree
        rootname = case["root"]
        bad = {"", ".", ".."}
        if rootname in bad or "/" in rootname or "\n" in rootname:
            raise Discard
        base = tempfile.mkdtemp(prefix="verif-path-")
        old = os.getcwd()
        try:
            top = S.G(rootname)
            full = os.path.join(base, rootname)
            depth = 1
            if case["rootfile"]:
                open(full, "w").close()
            else:
                os.mkdir(full)
                folders = [(top, full, 1)]
                for p, isdir, name in case["entries"]:
                    g, path, d = folders[p % len(folders)]
                    if name in bad or "/" in name or "\n" in name \
                            or name in [k.v for k in g.kids] or d > 60:
                        continue
                    k = S.G(name)
                    q = os.path.join(path, name)
                    if isdir:
                        os.mkdir(q)
                        folders.append((k, q, d + 1))
                    else:
                        open(q, "w").close()
                    g.kids.append(k)
                    depth = max(depth, d + 1)
                for g, _, _ in folders:
                    g.kids.sort(key=lambda k: k.v)
            sp = case["spell"] % 8
            arg = full
            if sp == 1 and not case["rootfile"]:
                arg = full + "/"
            elif sp == 2:
                arg = os.path.join(base, ".", rootname)
            elif sp == 3:
                arg = os.path.join(base, "..", os.path.basename(base),
                                   rootname)
            elif sp == 4:
                os.chdir(base)
                arg = rootname
            elif sp == 5:
                os.chdir(base)
                arg = "./" + rootname
            elif sp == 6 and not case["rootfile"]:
                os.chdir(full)
                arg = "."
            elif sp == 7 and not case["rootfile"]:
                arg = full + "//./"
            ctx.at("path", arg[len(base):] if arg.startswith(base) else arg,
                   case["entries"])
            t = ctx.sut(Tree.from_path, arg)
            ctx.ok("not a Tree", isinstance(t, Tree))
            check_general(ctx, t, top, lambda g: g.v)
            for bad_arg in (None, 5, b"/tmp", [full], True):
                ctx.raises(TypeError, Tree.from_path, bad_arg)
            for bad_arg in ("", full + "-missing", os.path.join(full, "no",
                                                                "no")):
                ctx.raises(ValueError, Tree.from_path, bad_arg)
            n = len([g for x in S.glevels(top) for g in x])
            ctx.tag("entries", n)
            ctx.tag("spelling %d" % sp)
            ctx.nontrivial = n >= 3 and depth >= 2
        finally:
            os.chdir(old)
            shutil.rmtree(base, ignore_errors=True)


register("T04", "directory trees created in a scratch folder under names "
         "with blanks, dots, unicode and mixed case; the path spelt eight "
         "ways; nodes, order, drawing compared, non-paths rejected. "
         "Non-trivial: three or more entries on two or more levels.",
         [(PathTarget(), 2500, 40000)])


# --------------------------------------------------------------------- T05
class DrawBinary(Target):
    name = "draw-binary"

    def gen(self, dec):
        prof = dec.below(4)

        def label(d):
            if prof == 0:
                return d.below(10)
            if prof == 1:
                return d.rng(-500, 50000)
            if prof == 2:
                return text(d, 8, False, "abcXYZ019") or "q"
            return d.pick(["w" * 12, "x", 7, "mm", -3.5, True, "é漢"])
        most = dec.pick([0, 1, 2, 3, 7, 15, 40, 40, size(dec, 140)])
        return {"nodes": S.gen_entries(dec, label, most)}

    def run(self, case, ctx):
        root = S.from_entries(case["nodes"])
        if len(S.levels(root)) > 60:
            raise Discard
        for n in S.pre(root):
            s = str(n.v)
            if not s or any(c in " _/\\\n" for c in s):
                raise Discard
        t = build(ctx, root)
        ctx.at("shape", S.key(root))
        text_ = ctx.sut(repr, t)
        if root is None:
            ctx.eq("empty drawing", text_, "/ \\")
            return
        S.parse_levels(ctx, text_, root, lambda n: str(n.v))
        ctx.eq("drawing again", ctx.sut(str, t), text_)
        check_shape(ctx, t, root)
        ctx.setup(t.invert)
        S.mirror(root)
        ctx.at("inverted shape", S.key(root))
        S.parse_levels(ctx, ctx.sut(repr, t), root, lambda n: str(n.v))
        ctx.nontrivial = len(S.pre(root)) >= 4


class DrawSearch(Target):
    name = "draw-search"

    def gen(self, dec):
        c = gen_search(dec)
        c["show"] = dec.chance(128)
        return c

    def run(self, case, ctx):
        import extra
        for kind, t, m in stages(ctx, case):
            top = getattr(t, "_root", None)
            if top is None:
                ctx.eq("empty drawing", ctx.sut(repr, t), "/ \\")
                continue

            def mark(n):
                if kind == "RedBlackTree":
                    return "|" + n.get_color().name[0]
                if kind == "Treap" and case["show"]:
                    return f"|P:{n.get_priority()}"
                return ""
            root = ctx.sut(S.read, top, mark)
            ctx.at(kind, S.key(root))
            if kind == "Treap" and case["show"]:
                extra.Treap.SHOW_PRIORITY = True
            S.parse_levels(ctx, ctx.sut(repr, t), root,
                           lambda n: str(n.v) + n.x)
        ctx.tag(kind)
        ctx.nontrivial = len(m) >= 4


class DrawHeap(Target):
    name = "draw-heap"
    sparse = True

    def gen(self, dec):
        prof = dec.below(6)
        ops = []
        big = dec.chance(8)
        while (dec.left or big) and len(ops) < (125 if big else 40):
            ops.append((dec.chance(60), number(dec, prof)))
        return {"ops": ops, "max": dec.chance(128)}

    def run(self, case, ctx):
        import extra
        h = extra.MaxHeap() if case["max"] else extra.MinHeap()
        m = []
        for i, (rem, k) in enumerate(case["ops"]):
            if rem:
                if not h.is_empty():
                    ctx.setup(h.remove_max if case["max"] else h.remove_min)
            else:
                ctx.setup(h.insert, k)
            if not ctx.due() and i < len(case["ops"]) - 1:
                continue
            m = list(ctx.setup(h.to_list))
            ctx.at("heap", m)
            got = ctx.sut(repr, h)
            if not m:
                ctx.eq("empty drawing", got, "/ \\")
                continue
            S.parse_levels(ctx, got, S.from_entries(
                [(max(0, (i - 1) // 2), i % 2 == 0, v)
                 for i, v in enumerate(m)]), lambda n: str(n.v))
        ctx.nontrivial = len(m) >= 4


class DrawTrie(Target):
    name = "draw-trie"
    sparse = True

    def gen(self, dec):
        alph = dec.pick(["ab", "abc", "aé漢", "ab c"])
        words = []
        big = dec.chance(10)
        while (dec.left or big) and len(words) < (70 if big else 20):
            words.append("".join(dec.pick(alph)
                                 for _ in range(dec.rng(1, 6))))
        if dec.chance(16):
            words.append("".join(dec.pick(alph)
                                 for _ in range(dec.rng(20, 90))))
        gone = [dec.below(256) for _ in range(dec.below(5))]
        return {"words": words, "radix": dec.chance(128), "gone": gone}

    def run(self, case, ctx):
        import extra
        radix = bool(case["radix"])
        t = extra.RadixTrie() if radix else extra.Trie()
        ws = []
        for w in case["words"]:
            if not w.strip():
                continue
            ctx.setup(t.insert, w)
            if w not in ws:
                ws.append(w)
            if ctx.due():
                ctx.at("words", ws)
                self.check(ctx, ctx.sut(repr, t), set(ws), radix)
        ctx.at("words", ws)
        self.check(ctx, ctx.sut(repr, t), set(ws), radix)
        most = len(ws)
        for i in case.get("gone", ()):
            if ws:
                w = ws.pop(i % len(ws))
                ctx.setup(t.remove, w)
                if i % 3:                     # exchanged for a new word
                    w = w[::-1] + w[:1]
                    ctx.setup(t.insert, w)
                    if w not in ws:
                        ws.append(w)
                ctx.at("words", ws, "some removed")
                self.check(ctx, ctx.sut(repr, t), set(ws), radix, False)
        ctx.nontrivial = most >= 3

    def check(self, ctx, got, ws, radix, exact=True):
        """Parse the drawing back into a tree of edge labels."""
        if not ws:                        # judged by C04
            return
        lines = got.split("\n")
        ctx.ok(f"drawing starts with {lines[0]!r}", lines[0] == "ROOT")
        stack = [("", S.G(""))]
        root = stack[0][1]
        for ln in lines[1:]:
            d = 0
            while ln[2 * d:2 * d + 2] in ("  ", "│ "):
                d += 1
            head = ln[2 * d:2 * d + 2]
            ctx.ok(f"bad connector in\n{got}", head in ("└─", "├─")
                   and ln[2 * d + 2:2 * d + 4] in ("┬ ", "─ ")
                   and d < len(stack))
            g = S.G(ln[2 * d + 4:])
            del stack[d + 1:]
            stack[d][1].kids.append(g)
            stack.append((ln, g))
        want = S.draw_general(root, lambda g: g.v if g is not root
                              else "ROOT")
        ctx.ok(f"drawing is inconsistent:\n{got}\nwant\n{want}", got == want)
        found, nodes = set(), 0
        st = [(root, "")]
        while st:
            g, prefix = st.pop()
            firsts = [k.v[:1] for k in g.kids]
            ctx.ok(f"two branches start alike below {prefix!r}:\n{got}",
                   len(set(firsts)) == len(firsts))
            for k in g.kids:
                nodes += 1
                v = k.v
                marked = v.endswith(" ✓")
                v = v[:-2] if marked else v
                ctx.ok(f"edge {v!r} in a trie:\n{got}",
                       len(v) == 1 if not radix else len(v) >= 1)
                if marked:
                    found.add(prefix + v)
                st.append((k, prefix + v))
        ctx.ok(f"marked words {sorted(found)}, want {sorted(ws)}:\n{got}",
               found == ws)
        pref = {w[:i] for w in ws for i in range(1, len(w) + 1)}
        if not radix:
            ctx.ok(f"{nodes} nodes drawn, want {len(pref)}:\n{got}",
                   nodes == len(pref))
        else:
            need = sum(1 for p in pref if p in ws or len(
                {w[len(p)] for w in ws
                 if w.startswith(p) and len(w) > len(p)}) > 1)
            # removals may leave nodes that neither end a word nor branch
            ctx.ok(f"{nodes} nodes drawn, want {need}:\n{got}",
                   nodes == need if exact else nodes >= need)


register("T05", "drawings of random binary shapes, search trees (with colour "
         "and priority marks), heaps, general trees, tries and radix tries, "
         "parsed back or compared with an independent renderer. Non-trivial: "
         "four or more nodes (tries: three or more words).",
         [(DrawBinary(), 4000, 80000), (DrawSearch(), 2500, 60000),
          (DrawHeap(), 1500, 30000), (GeneralTarget(), 1500, 30000),
          (DrawTrie(), 2000, 40000)])
