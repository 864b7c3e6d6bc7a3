"""B01-B09: search trees as ordered sets, and their structural rules."""
import math

from pbt.core import Discard, number, numbers, size
from pbt.targets import Target, register
from pbt.targets import shapes as S

KINDS = ("BST", "AVL", "RedBlackTree", "SplayTree", "Treap")
INF = float("inf")

MIXES = [
    [("ins", 6), ("rmat", 2), ("rmpre", 2), ("rm", 1), ("has", 2)],
    [("ins", 4), ("rmat", 2), ("rmpre", 3), ("has", 1)],
    [("ins", 8), ("rmpre", 1), ("has", 1)],
    [("ins", 3), ("rmat", 3), ("rmpre", 3)],
    [("ins", 5), ("has", 5), ("rmat", 2)],
    [("ins", 5), ("rmpre", 3), ("dup", 2), ("rm", 2), ("clear", 1)],
]


def num(dec, prof):
    if prof == 8:
        return dec.pick([INF, -INF, 0, 1, -1, 2.5, dec.rng(-3, 3)])
    return number(dec, prof)


def gen_run(dec, prio=None):
    """Many alike operations: an ascending or descending run of insertions,
    or of removals at one end, at one rank or of the root."""
    k = dec.pick([3, 6, 14, 30])
    if dec.chance(128):
        a, d = dec.rng(-60, 60), dec.pick([1, -1, 2, -3, 0.5])
        return [("ins", a + i * d) + ((prio(dec),) if prio else ())
                for i in range(k)]
    op = (dec.pick(["rmat", "rmpre"]), dec.pick([0, -1, 0, dec.below(256)]))
    return [op] * k


def gen_ops(dec, prof, mix, prio=None):
    ops = []
    while dec.left:
        if dec.chance(7):
            ops += gen_run(dec, prio)
        op = dec.weighted(mix)
        if op == "ins":
            ops.append((op, num(dec, prof)) + (
                (prio(dec),) if prio else ()))
        elif op in ("rm", "has"):
            ops.append((op, num(dec, prof)))
        elif op == "clear":
            ops.append((op,) if dec.chance(30) else ("has", 0))
        elif op == "dup":
            ops.append((op, dec.below(256)) + (
                (prio(dec),) if prio else ()))
        else:
            ops.append((op, dec.below(256)))
    return ops


def gen_case(dec, prio=None):
    prof = dec.pick([0, 1, 2, 3, 4, 5, 6, 7, 7, 8])
    rs = dec.below(65536)
    n0 = dec.pick([0, 0, 3, 8, 16, 40, 100]) if dec.left > 50 else \
        dec.below(5)
    if dec.chance(5):
        n0, prof = dec.pick([150, 400, size(dec, 300)]), dec.pick([2, 7])
    init = numbers(dec, min(prof, 7), n0)
    mix = dec.pick(MIXES)
    how = dec.below(4)
    return {"rs": rs, "how": how, "init": init,
            "ops": gen_ops(dec, prof, mix, prio)}


def create(ctx, kind, how, init, rs):
    import extra
    cls = getattr(extra, kind)
    kw = {"seed": rs} if kind == "Treap" else {}
    if how == 0 or not init:
        t = ctx.sut(cls, **kw)
        for x in init:
            ctx.sut(t.insert, x)
        return t
    src = [None, list, tuple, iter][how % 4](init)
    return ctx.sut(cls, src, **kw)


def isnum(x):
    return type(x) in (int, float) and x == x


class SetSim:
    def __init__(self, ctx, kind, how, init, rs):
        if not all(map(isnum, init)):
            raise Discard
        self.ctx, self.kind = ctx, kind
        ctx.at("construction from", init if len(init) < 30 else len(init))
        self.t = create(ctx, kind, how, list(init), rs)
        self.m = []
        dup = 0
        for x in init:
            if x in self.m:
                dup += 1
            else:
                self.m.append(x)
        self.m.sort()
        ctx.expect_warning(dup > 0, "construction with"
                           + ("" if dup else "out") + " repetitions")
        self.gone = []

    def check(self, whole=False):
        c, t, m = self.ctx, self.t, self.m

        def end(name, f, i):
            if m:
                c.eq(name, c.sut(f), m[i])
            else:
                c.raises(IndexError, f)
        c.ask(lambda: c.eq("in-order", c.sut(t.inorder_traverse), m),
              lambda: c.eq("len", c.sut(len, t), len(m)),
              lambda: c.eq("is_empty", c.sut(t.is_empty), not m),
              lambda: end("min", t.get_min, 0),
              lambda: end("max", t.get_max, -1),
              lambda: self.member(m[:2] + m[-2:] + self.gone[-3:]),
              whole=whole)
        c.expect_warning(False, "reading")

    def member(self, xs):
        c, t, m = self.ctx, self.t, self.m
        for x in xs:
            c.eq(f"{x} in", c.sut(t.__contains__, x), x in m)
        c.expect_warning(False, "looking up")

    def resolve(self, op):
        """Turn positional operations into ones on a value."""
        name = op[0]
        if name == "rmat":
            return ("rm", self.m[op[1] % len(self.m)]) if self.m else None
        if name == "rmpre":
            if not self.m:
                return None
            p = self.ctx.sut(self.t.preorder_traverse)
            return ("rm", p[op[1] % len(p)]) if p else None
        if name == "dup":
            if not self.m:
                return None
            return ("ins", self.m[op[1] % len(self.m)]) + op[2:]
        if name in ("ins", "rm", "has") and not isnum(op[1]):
            raise Discard
        return op

    def apply(self, op):
        c, t, m = self.ctx, self.t, self.m
        op = self.resolve(op)
        if op is None:
            return None
        name = op[0]
        c.at(op, "on", m if len(m) < 25 else len(m))
        c.tag("op:" + name)
        if name == "ins":
            new = op[1] not in m
            if len(op) > 2 and op[2] is not None:
                c.sut(t.insert, op[1], op[2])
            else:
                c.sut(t.insert, op[1])
            if new:
                m.append(op[1])
                m.sort()
            else:
                c.tag("duplicate")
            c.expect_warning(not new, "inserting a "
                             + ("new" if new else "present") + " number")
        elif name == "rm":
            c.sut(t.remove, op[1])
            there = op[1] in m
            if there:
                m.remove(op[1])
                self.gone.append(op[1])
                c.tag("removed")
                if not m:
                    c.tag("emptied")
            else:
                c.tag("absent")
            c.expect_warning(not there, "removing a "
                             + ("present" if there else "absent")
                             + " number")
        elif name == "has":
            self.member([op[1]])
        elif name == "clear":
            c.sut(t.clear)
            del m[:]
        return op


class SetTarget(Target):
    """Ordered-set behaviour; `extra_check(sim)` adds structure rules."""
    sparse = True

    def __init__(self, kind, name=None, structure=None, prio=None):
        self.kind = kind
        self.name = name or "set-" + kind
        self.structure = structure
        self.prio = prio

    def gen(self, dec):
        prio = None
        if self.prio:
            p = dec.below(5)
            prio = lambda d: gen_prio(d, p)                    # noqa: E731
        c = gen_case(dec, prio)
        if self.kind == "Treap" and self.prio is None:
            pass
        return c

    def run(self, case, ctx):
        sim = SetSim(ctx, self.kind, case["how"], list(case["init"]),
                     case["rs"])
        sim.check()
        big = len(sim.m)
        for i, op in enumerate(case["ops"]):
            done = sim.apply(op)
            if ctx.due():
                sim.check()
            if i % 10 == 9 and ctx.view <= 0:
                sim.member(sim.m[:4] + sim.gone[-4:])
            big = max(big, len(sim.m))
            del done
        ctx.at("end")
        sim.member(sim.m[:40] + sim.m[-10:] + sim.gone[-15:]
                   + [0.123, INF, -INF])
        sim.check(True)
        ctx.tag("size>=%d" % (0 if big < 4 else 4 if big < 20 else 20
                              if big < 60 else 60))
        ctx.nontrivial = big >= 4 and ctx.tags.get("removed", 0) >= 1


_SET = ("construction (empty or from an iterable) and a history of "
        "insertions, duplicate insertions, removals by value, rank and tree "
        "position, lookups, over nine key distributions (dense, sparse, "
        "float/int mixes, huge, infinite); in-order, length, extremes, "
        "warnings checked after every step. Non-trivial: four or more "
        "numbers stored and one removed.")


# ------------------------------------------------------- B03: AVL balance
def shape(ctx, t, mark=None):
    top = getattr(t, "_root", None)
    if top is not None and hasattr(top, "get_left"):
        return ctx.sut(S.read, top, mark)
    # rebuild from the pre-order of a search tree
    root = None
    for v in ctx.sut(t.preorder_traverse):
        root = bst_insert(root, v)
    return root


def bst_insert(root, v):
    new = S.N(v)
    if root is None:
        return new
    n = root
    while True:
        if v < n.v:
            if n.l is None:
                n.l = new
                return root
            n = n.l
        else:
            if n.r is None:
                n.r = new
                return root
            n = n.r


def heights(root):
    """height in edges per node id; absent = -1"""
    h = {}
    for n in S.post(root):
        h[id(n)] = 1 + max(h[id(n.l)] if n.l else -1,
                           h[id(n.r)] if n.r else -1)
    return h


def avl_rules(sim):
    c, t = sim.ctx, sim.t
    root = shape(c, t)
    h = heights(root)
    for n in S.pre(root):
        hl = h[id(n.l)] if n.l else -1
        hr = h[id(n.r)] if n.r else -1
        if abs(hl - hr) > 1:
            c.ok(f"subtrees of {n.v} have heights {hl} and {hr}; shape "
                 f"(pre-order) {S.vals(S.pre(root))}", False)
    true = h[id(root)] if root else 0
    c.eq("reported height", c.sut(t.get_height), true)
    if root:
        c.eq("is_balanced", c.sut(t.is_balanced), True)
        n = len(h)
        c.ok(f"height {true} for {n} numbers",
             true + 1 <= 1.4405 * math.log2(n + 2))
    if true >= 3:
        c.tag("height>=3")
    c.drain()


class StructTarget(SetTarget):
    """Structure rules alone: failures of set behaviour are out of domain
    (other properties answer for them)."""

    def run(self, case, ctx):
        sim = SetSim.__new__(SetSim)
        if not all(map(isnum, case["init"])):
            raise Discard
        sim.ctx, sim.kind, sim.m, sim.gone = ctx, self.kind, [], []
        sim.t = create(_Setup(ctx), self.kind, case["how"],
                       list(case["init"]), case["rs"])
        ctx.at("construction from", case["init"])
        self.structure(sim)
        big = size = ctx.setup(len, sim.t)
        for op in case["ops"]:
            name = op[0]
            if name in ("ins", "rm", "has") and not isnum(op[1]):
                raise Discard
            pre = ctx.setup(sim.t.preorder_traverse)
            if name in ("rmat", "rmpre", "dup"):
                if not pre:
                    continue
                src = pre if name == "rmpre" else sorted(pre)
                v = src[op[1] % len(src)]
                name = "ins" if name == "dup" else "rm"
            elif name == "clear":
                v = None
            else:
                v = op[1]
            ctx.at(name, v, "on", pre if len(pre) < 30 else len(pre))
            if name == "ins":
                ctx.setup(sim.t.insert, v)
            elif name == "rm":
                ctx.setup(sim.t.remove, v)
                if v in pre:
                    ctx.tag("removed")
            elif name == "has":
                ctx.setup(sim.t.__contains__, v)
            else:
                ctx.setup(sim.t.clear)
            ctx.drain()
            if ctx.due():
                self.structure(sim)
            size = ctx.setup(len, sim.t)
            big = max(big, size)
        self.structure(sim)
        ctx.nontrivial = big >= 5 and ctx.tags.get("removed", 0) >= 1


class _Setup:
    """A context whose calls are preparation."""

    def __init__(self, ctx):
        self.sut = ctx.setup


# ------------------------------------------------------- B05: colours
def rb_rules(sim):
    c, t = sim.ctx, sim.t

    def mark(n):
        col = n.get_color()
        return getattr(col, "name", str(col)).upper()[0]
    top = getattr(t, "_root", None)
    if top is None:
        return
    root = c.sut(S.read, top, mark)
    pre = [(n.v, n.x) for n in S.pre(root)]
    c.ok(f"colours {pre}", all(x in "RB" for _, x in pre))
    c.ok(f"red root: {pre}", root.x == "B")
    bh = {}
    for n in S.post(root):
        for k in (n.l, n.r):
            if k and n.x == "R" and k.x == "R":
                c.ok(f"red {n.v} has red child {k.v}: {pre}", False)
        a = bh[id(n.l)] if n.l else 1
        b = bh[id(n.r)] if n.r else 1
        if a != b:
            c.ok(f"below {n.v} paths pass {a} and {b} black nodes: {pre}",
                 False)
        bh[id(n)] = a + (n.x == "B")
    c.eq("black height", c.sut(t.get_black_height), bh[id(root)] - 1)
    n = len(bh)
    hh = len(S.levels(root))
    c.ok(f"height {hh} for {n} numbers", hh <= 2 * math.log2(n + 1))
    if n >= 8:
        c.tag("eight nodes")
    c.drain()


# ------------------------------------------------------- B07: splaying
class Ref:
    """Bottom-up splay tree on S.N nodes."""

    def __init__(self, root=None):
        self.root = root

    def path(self, v):
        out, n = [], self.root
        while n:
            out.append(n)
            if v == n.v:
                break
            n = n.l if v < n.v else n.r
        return out

    def splay(self, path):
        x = path.pop()
        while path:
            p = path.pop()
            if not path:
                self.up(p, x)
                break
            g = path.pop()
            if (g.l is p) == (p.l is x):
                self.up(g, p)
                self.up(p, x)
            else:
                if p.l is x:
                    g.r = x
                else:
                    g.l = x
                self.up(p, x)
                self.up(g, x)
            if path:
                gg = path[-1]
                if gg.l is g:
                    gg.l = x
                else:
                    gg.r = x
        self.root = x

    @staticmethod
    def up(p, x):
        """Rotate x above its parent p (links of p's parent aside)."""
        if p.l is x:
            p.l, x.r = x.r, p
        else:
            p.r, x.l = x.l, p

    def touch(self, v):
        path = self.path(v)
        if path:
            self.splay(path)

    def insert(self, v):
        path = self.path(v)
        if path and path[-1].v == v:
            self.splay(path)
            return
        new = S.N(v)
        if path:
            if v < path[-1].v:
                path[-1].l = new
            else:
                path[-1].r = new
        self.splay(path + [new])


class SplayTarget(Target):
    name = "splaying"

    def gen(self, dec):
        prof = dec.pick([0, 1, 2, 5, 7, 7])
        n0 = dec.pick([0, 3, 8, 20, 60])
        init = numbers(dec, prof, n0)
        mix = dec.pick([
            [("ins", 5), ("has", 5)],
            [("ins", 3), ("has", 6), ("hasin", 4), ("rmat", 1)],
            [("ins", 4), ("hasin", 4), ("dup", 2)],
            [("ins", 5), ("hasin", 3), ("has", 2), ("rmat", 2)]])
        ops = []
        while dec.left:
            if dec.chance(7):
                a, d = dec.rng(-60, 60), dec.pick([1, -1, 2, -3, 0.5])
                ops += [(dec.pick(["ins", "has"]), a + i * d)
                        for i in range(dec.pick([3, 6, 14, 30]))]
            op = dec.weighted(mix)
            ops.append((op, num(dec, prof)) if op in ("ins", "has")
                       else (op, dec.below(256)))
        return {"init": init, "ops": ops}

    def run(self, case, ctx):
        from extra import SplayTree
        if not all(map(isnum, case["init"])):
            raise Discard
        t, ref = SplayTree(), Ref()
        keys = set()
        restructured = 0
        for op in [("ins", x) for x in case["init"]] + list(case["ops"]):
            name, v = op
            before = S.key(ref.root)
            ks = sorted(keys)
            if name in ("hasin", "dup", "rmat"):
                if not ks:
                    continue
                v = ks[v % len(ks)]
            elif not isnum(v):
                raise Discard
            ctx.at(name, v, "on", [k[0] for k in before]
                   if len(before) < 30 else len(before))
            if name in ("ins", "dup"):
                ctx.sut(t.insert, v)
                ref.insert(v)
                keys.add(v)
                root = v
            elif name in ("has", "hasin"):
                if not ks:
                    continue
                path = ref.path(v)
                root = path[-1].v
                ctx.eq("found", ctx.sut(t.__contains__, v), v in keys)
                ref.touch(v)
                ctx.tag("lookup of present" if v in keys
                        else "lookup of absent")
            else:
                ctx.setup(t.remove, v)
                keys.discard(v)
                pre = ctx.setup(t.preorder_traverse)
                if ctx.setup(t.inorder_traverse) != sorted(keys):
                    raise Discard
                r = None
                for x in pre:
                    r = bst_insert(r, x)
                if S.vals(S.pre(r)) != pre:
                    raise Discard
                ref = Ref(r)
                ctx.tag("removed")
                continue
            got = ctx.sut(t.preorder_traverse)
            ctx.ok(f"root is {got[:1]}, want {root}",
                   bool(got) and got[0] == root)
            ctx.eqv("pre-order after splaying", got,
                    S.vals(S.pre(ref.root)))
            # reads other than lookups do not re-shape
            if len(before) > 2 and S.key(ref.root) != before:
                restructured += 1
        ctx.tag("depth", len(S.levels(ref.root)))
        ctx.nontrivial = len(keys) >= 4 and restructured >= 2 and any(
            k.startswith("lookup") for k in ctx.tags)


# ------------------------------------------------------- B08: treaps
def gen_prio(dec, p):
    if p == 0:
        return dec.below(4)
    if p == 1:
        return dec.rng(-50, 50)
    if p == 2:
        return dec.pick([None, dec.below(101)])
    if p == 3:
        return dec.below(65536) - 1000 + dec.below(65536) / 65536
    if dec.chance(110):                   # close to one another
        k = dec.below(24)
        return dec.pick([2 ** 53 + k, 10 ** 20 + k, 1 + k * 2.0 ** -52])
    return dec.pick([INF, -INF, -1, -1.0, 0, 0.0, 5, 10 ** 25, -10 ** 25,
                     2.5])


class TreapTarget(Target):
    name = "treap"
    sparse = True

    def gen(self, dec):
        p = dec.below(5)
        c = gen_case(dec, lambda d: gen_prio(d, p))
        c["how"] = 0
        c["init"] = [(x, gen_prio(dec, p)) for x in c["init"]]
        return c

    def run(self, case, ctx):
        prio = {}
        sim = SetSim(ctx, "Treap", 0, [], case["rs"])

        def step(op):
            op = sim.apply(op)
            if op is None:
                return
            if op[0] == "rm":
                prio.pop(op[1], None)
            elif op[0] == "clear":
                prio.clear()
            elif op[0] == "ins" and op[1] not in prio:
                prio[op[1]] = op[2]
            if ctx.due():
                sim.check()
                self.rules(sim, prio)

        for x, p in case["init"]:
            step(("ins", x, p))
        big = len(sim.m)
        for op in case["ops"]:
            if op[0] in ("ins", "dup"):
                if len(op) < 3:
                    raise Discard
                if op[2] is not None and not isnum(op[2]):
                    raise Discard
            step(op)
            big = max(big, len(sim.m))
        ctx.at("end")
        sim.member(sim.m[:20] + sim.gone[-10:] + [0.123])
        sim.check(True)
        self.rules(sim, prio)
        ctx.nontrivial = big >= 4 and ctx.tags.get("removed", 0) >= 1

    def rules(self, sim, prio):
        c = sim.ctx
        top = getattr(sim.t, "_root", None)
        if top is None or not hasattr(top, "get_priority"):
            return
        root = c.sut(S.read, top, lambda n: n.get_priority())
        pre = [(n.v, n.x) for n in S.pre(root)]
        for n in S.pre(root):
            for k in (n.l, n.r):
                if k and k.x > n.x:
                    c.ok(f"{k.v} of priority {k.x} below {n.v} of priority "
                         f"{n.x}: {pre}", False)
            want = prio.get(n.v)
            if want is None:
                c.ok(f"default priority {n.x!r}", type(n.x) is int
                     and 0 <= n.x <= 100)
                prio[n.v] = n.x
                c.tag("default priority")
            elif want != n.x:
                c.ok(f"{n.v} has priority {n.x}, was inserted with {want}",
                     False)
        if len(set(prio.values())) == len(prio):
            if len(prio) >= 3:
                c.tag("distinct priorities")
            want = cartesian([(k, prio[k]) for k in sim.m])
            c.eq("shape (pre-order) for distinct priorities",
                 [v for v, _ in pre], want)


def cartesian(items):
    """Pre-order of the unique treap of sorted (key, distinct priority)."""
    st = []
    for k, p in items:
        n = S.N(k, x=p)
        last = None
        while st and st[-1].x < p:
            last = st.pop()
        n.l = last
        if st:
            st[-1].r = n
        st.append(n)
    return S.vals(S.pre(st[0])) if st else []


# ------------------------------------------------------- B09: agreement
class AgreeTarget(Target):
    name = "agree"
    sparse = True

    def gen(self, dec):
        return gen_case(dec)

    def run(self, case, ctx):
        import extra
        init = list(case["init"])
        if not all(map(isnum, init)):
            raise Discard
        ts = {}
        for k in KINDS + ("SkipList",):
            ctx.at("building", k, "from", init if len(init) < 30 else
                   len(init))
            if k == "SkipList":
                t = ctx.sut(extra.SkipList)
                for x in init:
                    ctx.sut(t.insert, x)
            else:
                t = create(ctx, k, case["how"], init, case["rs"])
            ts[k] = t
        self.compare(ctx, ts, [])
        big = removed = 0
        cur = sorted(set(init))
        for op in case["ops"]:
            big = max(big, len(cur))
            name, v = op[0], op[1] if len(op) > 1 else None
            if name in ("rmat", "rmpre", "dup"):
                if not cur:
                    continue
                src = cur if name == "rmat" else ctx.sut(
                    ts[KINDS[v % 5]].preorder_traverse)
                v = src[v % len(src)]
                name = "ins" if name == "dup" else "rm"
            elif name != "clear" and not isnum(v):
                raise Discard
            ctx.at(name, v, "on", cur if len(cur) < 25 else len(cur))
            ctx.drain()
            for k, t in ts.items():
                ctx.at(name, v, "in", k, "on",
                       cur if len(cur) < 25 else len(cur))
                if name == "ins":
                    ctx.sut(t.insert, v)
                elif name == "rm":
                    ctx.sut(t.remove, v)
                elif name == "clear":
                    ctx.sut(t.clear)
            removed += name == "rm" and v in cur
            if name == "ins" and v not in cur:
                cur = sorted(cur + [v])
            elif name == "rm" and v in cur:
                cur.remove(v)
            elif name == "clear":
                cur = []
            if ctx.due():
                self.compare(ctx, ts, [v] if v is not None else [], ctx.view)
        ctx.at("end")
        self.compare(ctx, ts, cur[:20] + [0.123])
        ctx.nontrivial = big >= 4 and removed >= 1

    def compare(self, ctx, ts, ask, view=0):
        seen = None
        for k, t in ts.items():
            ans = {}
            skip = k == "SkipList"
            reads = [
                ("contents", t.to_list if skip else t.inorder_traverse),
                ("len", lambda: len(t)),
                ("is_empty", t.is_empty),
                ("in", lambda: [t.__contains__(x) for x in ask])]
            if not skip:
                def end(f):
                    try:
                        return f()
                    except IndexError:
                        return None
                reads += [("min", lambda: end(t.get_min)),
                          ("max", lambda: end(t.get_max))]
            if view > 0:
                reads = reads[view % 6:view % 6 + 1]
            elif view < 0:
                reads.reverse()
            for name, f in reads:
                ans[name] = ctx.sut(f)
            if "len" in ans and "min" in ans:
                ctx.ok(f"{ans['len']} numbers, extremes {ans['min']} and "
                       f"{ans['max']}", (ans["len"] == 0)
                       == (ans["min"] is None) == (ans["max"] is None))
            if seen is None:
                seen = ans
                c = ans.get("contents", ())
                ctx.ok(f"contents not ascending: {c[:40]}",
                       all(a < b for a, b in zip(c, c[1:])))
            for name, a in ans.items():
                ctx.eq(f"{name} of {k} against BST", a, seen[name])
        ctx.drain()


_SH = ("as for the set property, with the structure read node by node after "
       "every operation. Non-trivial: five or more numbers stored and one "
       "removed.")
register("B01", _SET, [(SetTarget("BST"), 7000, 180000)])
register("B02", _SET, [(SetTarget("AVL"), 7000, 180000)])
register("B03", _SH, [(StructTarget("AVL", "avl-balance", avl_rules),
                       7000, 180000)])
register("B04", _SET, [(SetTarget("RedBlackTree"), 7000, 180000)])
register("B05", _SH, [(StructTarget("RedBlackTree", "rb-colours", rb_rules),
                       7000, 180000)])
register("B06", _SET, [(SetTarget("SplayTree"), 7000, 180000)])
register("B07", "insertions, repeated insertions and lookups of present and "
         "absent numbers against a reference bottom-up splay tree, shape "
         "compared by pre-order after each; removals re-synchronise the "
         "reference. Non-trivial: four or more numbers, a lookup, and at "
         "least two operations that changed the shape.",
         [(SplayTarget(), 8000, 200000)])
register("B08", _SET.replace("lookups,", "lookups, explicit and default "
                             "priorities (ties, negative, infinite),")
         + " Heap order, kept priorities and, for distinct priorities, the "
         "unique shape are checked after every step.",
         [(TreapTarget(), 6000, 150000)])
register("B09", "one history applied to BST, AVL, red-black, splay, treap "
         "and skip list, all answers compared with each other after every "
         "step. Non-trivial: four or more numbers stored and one removed.",
         [(AgreeTarget(), 3000, 70000)])
