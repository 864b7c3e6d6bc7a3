"""L01-L07: linked lists against a plain-sequence model."""
import operator

from pbt.core import Discard, esc, same, short, size, text, value, values
from pbt.targets import Target, register

MAXLEN = 700


def classes():
    from extra.lists.linked_list import LinkedList
    from extra.lists.doubly_linked_list import DoublyLinkedList
    from extra.lists.circular_linked_list import CircularLinkedList
    return {"LL": LinkedList, "DLL": DoublyLinkedList,
            "CLL": CircularLinkedList}


def make(kind, how, items):
    """Construct a list in one of the documented ways."""
    cls = classes()[kind]
    if how == 0:
        out = cls()
        for x in items:
            out.add_end(x)
        return out
    if how == 1:
        return cls(list(items))
    if how == 2:
        return cls(tuple(items))
    if how == 3:
        return cls(x for x in items)
    out = cls()
    for x in reversed(items):
        out.add_front(x)
    return out


# ------------------------------------------------------------- op encoding
def gen_pos(dec):
    k = dec.below(8)
    if k < 4:
        return dec.below(12)
    if k == 4:
        return -1                     # last
    if k == 5:
        return -2                     # middle
    if k == 6:
        return -3                     # just above the middle
    v = dec.below(256)                # far beyond the end of most lists
    return v if v < 160 else 160 + (v - 160) * 9


def pos(k, n):
    """Resolve an encoded position to 0..n-1 (n >= 1)."""
    if k >= 0:
        return k % n
    if k == -1:
        return n - 1
    if k == -2:
        return n // 2
    return min(n - 1, n // 2 + 1)


def gen_bound(dec):
    k = dec.below(10)
    if k == 0:
        return None
    if k < 8:
        return dec.rng(-8, 8)
    if k == 8:
        return dec.pick([-100, 100, -1, 0])
    return dec.rng(-30, 30)


def gen_dist(dec):
    return dec.pick([0, 1, 2, 3, dec.below(16), dec.below(300),
                     dec.below(70000)])


MUT = [("front", 4), ("end", 6), ("ins", 5), ("set", 3), ("del", 4),
       ("rmat", 4), ("rm", 2), ("rmf", 3), ("rme", 3), ("ext", 3),
       ("exts", 1), ("rotl", 2), ("rotr", 2), ("clear", 1)]
READ = [("rev", 1), ("copy", 1), ("ctor", 1), ("rotlo", 1), ("rotro", 1),
        ("slice", 3), ("split", 2), ("get", 2), ("cnt", 1), ("has", 2)]
GROW = [("front", 5), ("end", 5), ("ins", 6), ("ext", 3)]
SHRINK = [("del", 5), ("rmat", 5), ("rm", 2), ("rmf", 4), ("rme", 4)]


def gen_op(dec, prof, mix):
    op = dec.weighted(mix)
    if op in ("front", "end", "rm", "cnt", "has"):
        v = value(dec, prof)
        if op == "rm":
            return (op, v, dec.chance(128))
        return (op, v)
    if op in ("ins", "set"):
        return (op, gen_pos(dec), value(dec, prof))
    if op in ("del", "get"):
        return (op, gen_pos(dec))
    if op == "rmat":
        return (op, gen_pos(dec), dec.chance(128))
    if op in ("rmf", "rme", "clear", "exts"):
        return (op,)
    if op == "ext":
        return (op, values(dec, prof, dec.below(5)))
    if op in ("rotl", "rotr"):
        return (op, gen_dist(dec))
    if op in ("rotlo", "rotro"):
        return (op, gen_dist(dec), dec.chance(100))
    if op in ("rev", "copy", "ctor"):
        return (op, dec.chance(100))
    if op == "slice":
        c = dec.pick([None, 1, 1, 2, 3, -1, -1, -2, -3, 7, -7])
        return (op, gen_bound(dec), gen_bound(dec), c, dec.chance(60))
    if op == "split":
        return (op, gen_pos(dec), dec.below(4))
    raise AssertionError(op)


def gen_mix(dec):
    return dec.pick([MUT + READ, MUT + READ, MUT, GROW + SHRINK + READ,
                     SHRINK + SHRINK + GROW, GROW + READ])


class SeqSim:
    """One list under test with its model."""

    def __init__(self, ctx, kind, how, items):
        self.ctx, self.kind = ctx, kind
        self.obj = ctx.sut(make, kind, how, items)
        self.m = [esc(x) for x in items]

    def adopt(self, obj, model):
        self.obj, self.m = obj, model

    # -- observation
    lost = []

    def check(self, what="contents", whole=False):
        c, n, o, m = self.ctx, len(self.m), self.obj, self.m

        def places():
            for i in {0, n // 2, n - 1} if n else ():
                c.eq(f"[{i}]", c.sut(o.__getitem__, i), m[i])

        def has():
            for v in m[:2] + m[-1:] + self.lost:
                c.eq(f"{short(v)} in", c.sut(o.__contains__, v),
                     any(x == v for x in m))

        def count():
            for v in m[:2] + m[-1:] + self.lost:
                c.eq(f"count of {short(v)}", c.sut(o.count, v),
                     sum(1 for x in m if x == v))
        checks = [lambda: c.eq("len", c.sut(len, o), n),
                  lambda: c.eq("is_empty", c.sut(o.is_empty), n == 0),
                  lambda: c.eq(what, c.sut(o.to_list), m)]
        if c.view:
            checks += [lambda: c.eq(what, c.sut(list, o), m),
                       places, has, count]
        c.ask(*checks, whole=whole)

    def check_derived(self, what, obj, want):
        c = self.ctx
        cls = classes()[self.kind]
        c.ok(f"{what} is not a {cls.__name__}", type(obj) is cls)
        c.eq(f"len of {what}", c.sut(len, obj), len(want))
        c.eq(what, c.sut(list, obj), want)
        if self.kind == "DLL":
            self.backward(obj, want, what)
        if self.kind == "CLL":
            self.ring(obj, want, what)

    def backward(self, obj, want, what="list"):
        tail = getattr(obj, "_tail", None)
        if not want or tail is None or not hasattr(tail, "get_prev"):
            return

        def walk():
            out, node = [], tail
            while node is not None and len(out) < len(want) + 3:
                out.append(node.get_data())
                node = node.get_prev()
            return out
        self.ctx.eq(f"backward walk of {what}", self.ctx.sut(walk),
                    want[::-1])

    def ring(self, obj, want, what="list"):
        head = getattr(obj, "_head", None)
        if not want or head is None or not hasattr(head, "get_next"):
            return

        def walk():
            node, out = head, []
            for _ in range(len(want)):
                out.append(node.get_data())
                node = node.get_next()
            return out, node is head
        out, closed = self.ctx.sut(walk)
        self.ctx.eq(f"ring of {what}", out, want)
        self.ctx.ok(f"ring of {what} is not closed", closed)

    def deep(self):
        """Every read, against the model."""
        c, o, m = self.ctx, self.obj, self.m
        n = len(m)
        self.check(whole=True)
        c.eq("iteration", c.sut(list, o), m)
        idxs = range(n) if n <= 40 else list(range(0, n, n // 20)) + [n - 1]
        for i in idxs:
            c.eq(f"[{i}]", c.sut(o.__getitem__, i), m[i])
            if self.kind == "CLL":
                c.eq(f"[{i}+{n}]", c.sut(o.__getitem__, i + n), m[i])
                c.eq(f"[{i}+3*{n}]", c.sut(o.__getitem__, i + 3 * n), m[i])
            else:
                c.eq(f"[{i - n}]", c.sut(o.__getitem__, i - n), m[i])
        for v in m[:6] + m[-3:]:
            c.eq("count", c.sut(o.count, v), sum(1 for x in m if x == v))
            c.eq("membership", c.sut(o.__contains__, v), True)
        c.eq("membership of a stranger",
             c.sut(o.__contains__, ("stranger", 1)), False)
        c.eq("count of a stranger", c.sut(o.count, ("stranger", 1)), 0)
        c.eq("membership of None", c.sut(o.__contains__, None), False)
        if self.kind == "DLL":
            self.backward(o, m)
        if self.kind == "CLL":
            self.ring(o, m)

    # -- operations
    def apply(self, op):
        c, o, m, kind = self.ctx, self.obj, self.m, self.kind
        n = len(m)
        name = op[0]
        c.at(name, op[1:], "on", m if n <= 12 else f"{n} items")
        c.tag("op:" + name)
        if name == "front":
            if n < MAXLEN:
                c.sut(o.add_front, op[1])
                m.insert(0, esc(op[1]))
        elif name == "end":
            if n < MAXLEN:
                c.sut(o.add_end, op[1])
                m.append(esc(op[1]))
        elif name == "ins":
            if n < MAXLEN:
                if kind == "CLL" and op[1] >= 0:
                    c.sut(o.insert, op[1], op[2])
                    m.insert(op[1] % (n + 1), esc(op[2]))
                else:
                    i = pos(op[1], n + 1)
                    c.sut(o.insert, i, op[2])
                    m.insert(i, esc(op[2]))
        elif name == "set":
            if n:
                i = pos(op[1], n)
                raw = op[1] if kind == "CLL" and op[1] >= 0 else i
                c.sut(o.__setitem__, raw, op[2])
                m[i] = esc(op[2])
        elif name == "del":
            if n:
                i = pos(op[1], n)
                raw = op[1] if kind == "CLL" and op[1] >= 0 else i
                c.sut(o.__delitem__, raw)
                del m[i]
                c.tag("removed")
        elif name in ("rm", "rmat"):
            if name == "rmat":
                if not n:
                    return
                v = m[pos(op[1], n)]
            else:
                v = esc(op[1])
            c.sut(o.remove, v, op[2])
            if op[2]:
                self.m = m = [x for x in m if not x == v]
            else:
                for i, x in enumerate(m):
                    if x == v:
                        del m[i]
                        break
            if len(m) < n:
                c.tag("removed")
            if len(m) < n - 1:
                c.tag("removed several")
        elif name == "rmf":
            c.sut(o.remove_front)
            if n:
                del m[0]
                c.tag("removed")
        elif name == "rme":
            c.sut(o.remove_end)
            if n:
                del m[-1]
                c.tag("removed")
        elif name == "ext":
            if n < MAXLEN:
                # subclass instances are singly linked lists as well
                sort = ("LL", "LL", "DLL", "CLL")[len(op[1]) % 4] \
                    if kind == "LL" else kind
                other = c.sut(make, sort, 1, op[1])
                c.sut(o.extend, other)
                c.eq("the other list", c.sut(other.to_list),
                     [esc(x) for x in op[1]])
                m.extend(esc(x) for x in op[1])
        elif name == "exts":
            if n <= 100:
                c.sut(o.extend, o)
                m.extend(list(m))
        elif name == "clear":
            c.sut(o.clear)
            del m[:]
        elif name in ("rotl", "rotr"):
            f = o.rotate_left if name == "rotl" else o.rotate_right
            c.sut(f, op[1])
            self.m = rot(m, op[1], name == "rotl")
        elif name in ("rotlo", "rotro"):
            f = o.rotate_left if name == "rotlo" else o.rotate_right
            r = c.sut(f, op[1], False)
            want = rot(m, op[1], name == "rotlo")
            self.check_derived("rotated list", r, want)
            self.check("original after out-of-place rotation")
            if op[2]:
                self.adopt(r, want)
        elif name == "rev":
            r = c.sut(o.reverse)
            self.check_derived("reversed list", r, m[::-1])
            self.check("original after reverse")
            if op[1]:
                self.adopt(r, m[::-1])
        elif name == "copy":
            r = c.sut(o.copy)
            self.check_derived("copy", r, m)
            if op[1]:
                self.adopt(r, list(m))
        elif name == "ctor":
            r = c.sut(classes()[kind], o)
            self.check_derived("list built from a list", r, m)
            if op[1]:
                self.adopt(r, list(m))
        elif name == "slice":
            if op[3] == 0:
                raise Discard
            if kind != "CLL":
                s = slice(op[1], op[2], op[3])
                r = c.sut(o.__getitem__, s)
                self.check_derived("slice", r, m[s])
                self.check("original after slicing")
                if op[3] is not None and op[3] < 0:
                    c.tag("negative step")
                if op[4]:
                    self.adopt(r, m[s])
        elif name == "split":
            if kind == "CLL":
                i = pos(op[1], n) if n else 0
                raw = op[1] if op[1] >= 0 else i
            else:
                i = raw = pos(op[1], n + 1)
            a, b = c.sut(lambda: tuple(o.split(raw)))
            self.check_derived("left part", a, m[:i])
            self.check_derived("right part", b, m[i:])
            self.check("original after split")
            if op[2] == 1:
                self.adopt(a, m[:i])
            elif op[2] == 2:
                self.adopt(b, m[i:])
        elif name == "get":
            if n:
                i = pos(op[1], n)
                raw = op[1] if kind == "CLL" and op[1] >= 0 else i
                c.eq(f"[{raw}]", c.sut(o.__getitem__, raw), m[i])
        elif name == "cnt":
            v = esc(op[1])
            c.eq("count", c.sut(o.count, v), sum(1 for x in m if x == v))
        elif name == "has":
            v = esc(op[1])
            c.eq("in", c.sut(o.__contains__, v), any(x == v for x in m))
        else:
            raise AssertionError(name)


def rot(m, d, left):
    n = len(m)
    if not n:
        return []
    d %= n
    return m[d:] + m[:d] if left else m[n - d:] + m[:n - d]


class SeqTarget(Target):
    sparse = True

    def __init__(self, kind):
        self.kind = kind
        self.name = "seq-" + kind

    def gen(self, dec):
        prof = dec.below(8)
        how = dec.below(5)
        n0 = dec.pick([0, 0, 1, 2, 3, 5, 8, 20, 60]) if dec.left > 40 else \
            dec.below(4)
        if dec.chance(10):
            n0 = size(dec, 140)
        init = values(dec, prof, n0)
        mix = gen_mix(dec)
        ops = []
        while dec.left:
            op = gen_op(dec, prof, mix)
            ops += [op] * (dec.pick([3, 5, 9, 20, 45]) if dec.chance(4)
                           else 1)
        return {"how": how, "init": init, "ops": ops}

    def run(self, case, ctx):
        sim = SeqSim(ctx, self.kind, case["how"], list(case["init"]))
        ctx.at("construction")
        sim.check()
        big = len(sim.m)
        changed = 0
        for i, op in enumerate(case["ops"]):
            before, ends = len(sim.m), sim.m[:2] + sim.m[-1:]
            sim.apply(op)
            if ctx.view > 0 and len(sim.m) < before:
                sim.lost = ends
            due = ctx.due()
            if due:
                sim.check()
            due = due and ctx.view <= 0
            if due and self.kind == "DLL" and len(sim.m) < 60:
                sim.backward(sim.obj, sim.m)
            if due and self.kind == "CLL" and len(sim.m) < 60:
                sim.ring(sim.obj, sim.m)
            big = max(big, len(sim.m))
            changed += before != len(sim.m)
            if len(sim.m) == 0 and before:
                ctx.tag("became empty")
            if i % 16 == 7 and ctx.view <= 0:
                sim.deep()
        ctx.at("end")
        sim.deep()
        ctx.tag("length>=%d" % (0 if big < 3 else 3 if big < 20 else 20
                                if big < 100 else 100))
        ctx.nontrivial = (big >= 2 and changed >= 2
                          and ctx.tags.get("removed", 0) >= 1)


RULE = ("byte strings from Hypothesis decoded into a construction and a list "
        "of edits and derivations; every read is compared with a plain-list "
        "model after every step. Non-trivial: the list reached two items, its "
        "length changed at least twice and at least one item was removed.")
for _pid, _k in (("L01", "LL"), ("L02", "DLL"), ("L03", "CLL")):
    register(_pid, RULE, [(SeqTarget(_k), 6000, 150000)])


# ------------------------------------------------------------------- L04
class PoolTarget(Target):
    """Several lists alive at once, deriving from and extending one another;
    every one is compared with its own model after every step."""

    def __init__(self, kind):
        self.kind = kind
        self.name = "pool-" + kind

    DER = [("ctor", 3), ("copy", 2), ("rev", 1), ("rotlo", 1), ("rotro", 1),
           ("slice", 2), ("split", 2), ("extfrom", 4), ("new", 2),
           ("exts", 1), ("drop", 1)]

    def gen(self, dec):
        prof = dec.below(8)
        mix = MUT
        ops = []
        init = values(dec, prof, dec.below(7))
        while dec.left:
            who = dec.below(8)
            if dec.chance(100):
                d = dec.weighted(self.DER)
                if d == "slice":
                    op = (d, gen_bound(dec), gen_bound(dec),
                          dec.pick([None, 1, 2, -1, -2]))
                elif d == "split":
                    op = (d, gen_pos(dec))
                elif d in ("rotlo", "rotro"):
                    op = (d, gen_dist(dec))
                elif d == "extfrom":
                    op = (d, dec.below(8))
                elif d == "new":
                    op = (d, values(dec, prof, dec.below(4)))
                else:
                    op = (d,)
            else:
                op = gen_op(dec, prof, mix)
            ops.append((op[0], who) + tuple(op[1:]))
        return {"init": init, "ops": ops}

    def run(self, case, ctx):
        kind = self.kind
        pool = [SeqSim(ctx, kind, 1, list(case["init"]))]
        derived = edits_after = 0

        def add(obj, model):
            s = SeqSim.__new__(SeqSim)
            s.ctx, s.kind, s.obj, s.m = ctx, kind, obj, model
            if len(pool) >= 6:
                pool.pop(1)
            pool.append(s)

        for op in case["ops"]:
            name, who, rest = op[0], op[1], op[2:]
            s = pool[who % len(pool)]
            n = len(s.m)
            ctx.at(name, rest, "on list", who % len(pool), "of",
                   [p.m for p in pool] if sum(len(p.m) for p in pool) < 40
                   else len(pool))
            if name in ("ctor", "copy", "rev", "rotlo", "rotro", "slice",
                        "split", "extfrom", "new", "drop", "exts"):
                ctx.tag("derive:" + name)
            if name == "ctor":
                add(ctx.sut(classes()[kind], s.obj), list(s.m))
                derived += 1
            elif name == "copy":
                add(ctx.sut(s.obj.copy), list(s.m))
                derived += 1
            elif name == "rev":
                add(ctx.sut(s.obj.reverse), s.m[::-1])
                derived += 1
            elif name in ("rotlo", "rotro"):
                f = s.obj.rotate_left if name == "rotlo" else \
                    s.obj.rotate_right
                add(ctx.sut(f, rest[0], False),
                    rot(list(s.m), rest[0], name == "rotlo"))
                derived += 1
            elif name == "slice":
                if rest[2] == 0:
                    raise Discard
                if kind != "CLL":
                    sl = slice(*rest)
                    add(ctx.sut(s.obj.__getitem__, sl), s.m[sl])
                    derived += 1
            elif name == "split":
                i = (pos(rest[0], n) if n else 0) if kind == "CLL" else \
                    pos(rest[0], n + 1)
                a, b = ctx.sut(lambda: tuple(s.obj.split(i)))
                am, bm = s.m[:i], s.m[i:]
                add(a, am)
                add(b, bm)
                derived += 1
            elif name == "extfrom":
                t = pool[rest[0] % len(pool)]
                if n + len(t.m) <= 200:
                    src = list(t.m)
                    ctx.sut(s.obj.extend, t.obj)
                    s.m.extend(src)
                    derived += 1
            elif name == "exts":
                if n <= 60:
                    ctx.sut(s.obj.extend, s.obj)
                    s.m.extend(list(s.m))
                    derived += 1
            elif name == "new":
                add(ctx.sut(make, kind, 1, rest[0]),
                    [esc(x) for x in rest[0]])
            elif name == "drop":
                if len(pool) > 1:
                    pool.remove(s)
            else:
                before = list(s.m)
                s.apply((name,) + tuple(rest))
                if derived and not same(before, s.m):
                    edits_after += 1
            for i, p in enumerate(pool):
                p.check(f"contents of list {i}")
        ctx.at("end")
        for p in pool:
            p.deep()
        ctx.tag("derived", derived)
        ctx.nontrivial = derived >= 1 and edits_after >= 1 and len(pool) >= 2


class SkipPool(Target):
    name = "pool-skip"

    def gen(self, dec):
        ops = []
        rs = dec.below(65536)
        while dec.left:
            ops.append((dec.weighted([("ins", 6), ("rm", 4), ("del", 2),
                                      ("ctor", 3), ("clear", 1),
                                      ("new", 1)]),
                        dec.below(8), dec.below(12)))
        return {"rs": rs, "ops": ops}

    def run(self, case, ctx):
        from extra.lists.skip_list import SkipList
        pool = [[SkipList(), set()]]
        derived = edits = 0
        for name, who, k in case["ops"]:
            ctx.at(name, k, "on", who % len(pool), [p[1] for p in pool])
            p = pool[who % len(pool)]
            if name == "ins":
                ctx.sut(p[0].insert, k)
                p[1].add(k)
                edits += derived > 0
            elif name == "rm":
                ctx.sut(p[0].remove, k)
                edits += derived > 0 and k in p[1]
                p[1].discard(k)
            elif name == "del":
                if p[1]:
                    i = k % len(p[1])
                    ctx.sut(p[0].__delitem__, i)
                    p[1].remove(sorted(p[1])[i])
                    edits += derived > 0
            elif name == "clear":
                ctx.sut(p[0].clear)
                p[1].clear()
            elif name == "new":
                pool.append([ctx.sut(SkipList, [k, k + 2]), {k, k + 2}])
            else:
                pool.append([ctx.sut(SkipList, p[0]), set(p[1])])
                derived += 1
                ctx.tag("derive:ctor")
            if len(pool) > 5:
                pool.pop(1)
            for i, (s, m) in enumerate(pool):
                ctx.eqv(f"skip list {i}", ctx.sut(s.to_list), sorted(m))
                ctx.eq(f"len of skip list {i}", ctx.sut(len, s), len(m))
                for x in range(0, 12, 3):
                    ctx.eq(f"{x} in skip list {i}",
                           ctx.sut(s.__contains__, x), x in m)
        ctx.nontrivial = derived >= 1 and edits >= 1 and len(pool) >= 2


register("L04", "a pool of lists, derived from and extended by one another, "
         "each compared with its own model after every step. Non-trivial: at "
         "least one derivation or extension, followed by an effective edit, "
         "with two or more lists alive.",
         [(PoolTarget("LL"), 2500, 50000), (PoolTarget("DLL"), 2500, 50000),
          (PoolTarget("CLL"), 2500, 50000), (SkipPool(), 2000, 30000)])


# ------------------------------------------------------------------- L05
class CompareTarget(Target):
    def __init__(self, kind):
        self.kind = kind
        self.name = "compare-" + kind

    def gen(self, dec):
        prof = dec.below(4)

        def item():
            if prof == 0:
                return dec.below(3)
            if prof == 1:
                return dec.pick([0, 0.0, 1, 1.0, True, 2, -1, 0.5, 2.0])
            if prof == 2:
                return text(dec, 2, False, "ab")
            return dec.rng(-50, 50)
        n = dec.pick([0, 1, 2, 3, 4, 6, 12])
        if dec.chance(12):
            n = size(dec, 260)
        a = [item() for _ in range(n)]
        b = list(a) if dec.chance(170) else [
            item() for _ in range(dec.pick([0, 1, 2, 3, 4, 6, 12]))]
        for _ in range(dec.below(4)):
            k = dec.below(5)
            if k == 0:
                b = b[:dec.below(len(b) + 1)]
            elif k == 1:
                b = b + [item()]
            elif k == 2 and b:
                b[dec.below(len(b))] = item()
            elif k == 3 and b and prof != 2:
                i = dec.below(len(b))
                b[i] = b[i] + dec.pick([1, -1])
            elif k == 4 and a:
                a = a[:dec.below(len(a) + 1)]
        if dec.chance(128):
            a, b = b, a
        mixed = dec.chance(16)
        edits = [(dec.below(2), dec.below(5), dec.below(256), item())
                 for _ in range(dec.pick([0, 1, 1, 2, 4]))]
        return {"a": a, "b": b, "mixed": mixed, "edits": edits}

    def run(self, case, ctx):
        a, b = list(case["a"]), list(case["b"])
        if case["mixed"]:
            if not a or not b:
                raise Discard
            b[0] = ("x",)
            a[0] = 1 if not isinstance(a[0], str) else a[0]
        if not case["mixed"] and len({isinstance(x, str)
                                      for x in a + b}) > 1:
            raise Discard
        x = ctx.sut(make, self.kind, 1, a)
        y = ctx.sut(make, self.kind, 1, b)
        self.compare(ctx, case, x, y, a, b)
        for turn, (w, k, i, v) in enumerate(case.get("edits", ())):
            o, m, other = (y, b, a) if w else (x, a, b)
            if case["mixed"] or m and isinstance(m[0], str) != isinstance(
                    v, str):
                break
            self.edit(ctx, o, m, other, k, i, v)
            self.compare(ctx, case, x, y, a, b, turn % 2 == 0)
            ctx.tag("compared again after an edit")
        if not case["mixed"]:
            self.foreign(ctx, x, b)
        ctx.nontrivial = bool(case["a"]) and bool(case["b"])

    @staticmethod
    def edit(ctx, o, m, other, k, i, v):
        if k == 0 and m:                      # one item becomes another
            i %= len(m)
            ctx.setup(o.__setitem__, i, v)
            m[i] = v
        elif k == 1 and m:                    # one leaves, one comes
            ctx.setup(o.remove_front)
            ctx.setup(o.add_end, v)
            m.append(v)
            del m[0]
        elif k == 2:
            ctx.setup(o.add_end, v)
            m.append(v)
        elif k == 3 and m and other:          # one item becomes equal
            i %= min(len(m), len(other))
            ctx.setup(o.__setitem__, i, other[i])
            m[i] = other[i]
        elif i % 2 and m:
            ctx.setup(o.rotate_left, 1)
            m.append(m.pop(0))
        else:                                 # all go, some come back
            ctx.setup(o.clear)
            del m[:]
            for x in list(other)[:i % 7]:
                ctx.setup(o.add_end, x)
                m.append(x)

    def compare(self, ctx, case, x, y, a, b, backwards=False):
        ctx.at("comparing", a, b)
        eq = len(a) == len(b) and all(p == q for p, q in zip(a, b))
        if case["mixed"]:
            ctx.eq("==", ctx.sut(operator.eq, x, y), eq)
            ctx.eq("!=", ctx.sut(operator.ne, x, y), not eq)
            for f in (operator.lt, operator.le, operator.gt, operator.ge):
                ctx.raises(TypeError, f, x, y)
            return
        le = len(a) <= len(b) and all(p <= q for p, q in zip(a, b))
        ge = len(a) >= len(b) and all(p >= q for p, q in zip(a, b))
        asked = [("==", operator.eq, eq), ("!=", operator.ne, not eq), ("<=", operator.le, le),
                 (">=", operator.ge, ge), ("<", operator.lt, le and not eq),
                 (">", operator.gt, ge and not eq)]
        k = len(a) % 6                        # each one first, each one last
        asked = asked[k:] + asked[:k]
        for name, f, want in asked[::-1] if backwards else asked:
            ctx.eq(name, ctx.sut(f, x, y), want)
        ctx.eq("contents", ctx.sut(x.to_list), a)
        ctx.eq("contents", ctx.sut(y.to_list), b)
        for name, v in (("eq", eq), ("le", le), ("ge", ge)):
            if v:
                ctx.tag(name)
        if not le and not ge:
            ctx.tag("incomparable")
        if len(a) != len(b):
            ctx.tag("different lengths")

    def foreign(self, ctx, x, b):
        other = ctx.sut(make, {"LL": "CLL", "DLL": "CLL",
                               "CLL": "DLL"}[self.kind], 1, b)
        for f in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
            ctx.raises(TypeError, f, x, list(b))
            ctx.raises(TypeError, f, x, other)


register("L05", "pairs of lists, the second usually a small mutation of the "
         "first (truncated, extended, one item changed); all six operators "
         "against the documented pairwise order, and again after edits of "
         "either list. Non-trivial: both lists "
         "non-empty.",
         [(CompareTarget(k), 6000, 120000) for k in ("LL", "DLL", "CLL")])


# ------------------------------------------------------------------- L06
def bad_item(k):
    """(item, expected error) -- missing or unsupported items"""
    from extra.lists.linked_list import LinkedList
    from extra.lists.stack import Stack
    from extra.trees.bst import BST
    return [(None, ValueError), (LinkedList([1]), TypeError),
            (Stack(), TypeError), (BST([1]), TypeError)][k % 4]


NOT_INT = [1.0, "0", None, (0,), True, [0], 2.5]


class RejectTarget(Target):
    """Accepted edits interleaved with calls that must be rejected."""
    sparse = True

    def __init__(self, kind):
        self.kind = kind
        self.name = "reject-" + kind

    BAD = ["front", "end", "ins-item", "ins-type", "ins-neg", "ins-slice",
           "ins-big", "get-type", "get-big", "get-neg", "get-slice",
           "set-item", "set-type", "set-neg", "set-slice", "set-big",
           "del-type", "del-neg", "del-slice", "del-big", "rm-item",
           "rm-flag", "ext", "rotl-type", "rotl-neg", "rotl-flag",
           "rotr-type", "rotr-neg", "rotr-flag", "split-type", "split-neg",
           "split-slice", "split-big", "new-type", "new-item", "step0"]

    def gen(self, dec):
        prof = dec.below(8)
        init = values(dec, prof, dec.below(6))
        mix = dec.pick([MUT, GROW + SHRINK, SHRINK + GROW + GROW])
        ops = []
        while dec.left:
            if dec.chance(110):
                ops.append(gen_op(dec, prof, mix))
            else:
                ops.append(("bad", dec.pick(self.BAD), dec.below(256),
                            dec.below(16)))
        return {"init": init, "ops": ops}

    def run(self, case, ctx):
        sim = SeqSim(ctx, self.kind, 1, list(case["init"]))
        bad = 0
        for op in case["ops"]:
            if op[0] != "bad":
                sim.apply(op)
            else:
                ctx.at("rejecting", op[1:], "on", sim.m)
                if self.reject(sim, ctx, *op[1:]):
                    bad += 1
                    ctx.tag("bad:" + op[1])
            if ctx.due():
                sim.check("contents after a rejected call"
                          if op[0] == "bad" else "contents")
        sim.deep()
        ctx.nontrivial = bad >= 1 and len(case["ops"]) >= 2

    def reject(self, sim, ctx, what, k, j):
        o, n, kind = sim.obj, len(sim.m), self.kind
        cll = kind == "CLL"
        item, err = bad_item(j)
        notint = NOT_INT[k % len(NOT_INT)]
        neg = -1 - k
        sl = [slice(0, 1), slice(None), slice(1, None, 2)][k % 3]
        big = n + (k % 7)
        r = ctx.raises
        if what == "front":
            r(err, o.add_front, item)
        elif what == "end":
            r(err, o.add_end, item)
        elif what == "ins-item":
            r(err, o.insert, k % (n + 1), item)
        elif what == "ins-type":
            r(TypeError, o.insert, notint, 1)
        elif what == "ins-neg":
            r(IndexError, o.insert, neg, 1)
        elif what == "ins-slice":
            r(IndexError, o.insert, sl, 1)
        elif what == "ins-big":
            if cll:
                return False
            r(IndexError, o.insert, big + 1, 1)
        elif what == "get-type":
            r(TypeError, o.__getitem__, notint)
        elif what == "get-big":
            if cll:
                if n:
                    return False
                r(IndexError, o.__getitem__, k)
            else:
                r(IndexError, o.__getitem__, big)
        elif what == "get-neg":
            r(IndexError, o.__getitem__, neg if cll else -n - 1 - k % 9)
        elif what == "get-slice":
            if not cll:
                return False
            r(IndexError, o.__getitem__, sl)
        elif what == "step0":
            if cll:
                return False
            r(ValueError, o.__getitem__, slice(None, None, 0))
        elif what == "set-item":
            if not n:
                return False
            r(err, o.__setitem__, k % n, item)
        elif what == "set-type":
            r(TypeError, o.__setitem__, notint, 1)
        elif what == "set-neg":
            r(IndexError, o.__setitem__, neg, 1)
        elif what == "set-slice":
            r(IndexError, o.__setitem__, sl, 1)
        elif what == "set-big":
            if cll and n:
                return False
            r(IndexError, o.__setitem__, big, 1)
        elif what == "del-type":
            r(TypeError, o.__delitem__, notint)
        elif what == "del-neg":
            r(IndexError, o.__delitem__, neg)
        elif what == "del-slice":
            r(IndexError, o.__delitem__, sl)
        elif what == "del-big":
            if cll:
                return False
            r(IndexError, o.__delitem__, big)
        elif what == "rm-item":
            r(err, o.remove, item)
        elif what == "rm-flag":
            r(TypeError, o.remove, 1, [1, None, "x", 0][k % 4])
        elif what == "ext":
            others = [[1], (1,), "ab", None, 5]
            if kind != "LL":
                others.append(classes()["DLL" if cll else "CLL"]([1]))
            r(TypeError, o.extend, others[k % len(others)])
        elif what in ("rotl-type", "rotr-type"):
            f = o.rotate_left if what == "rotl-type" else o.rotate_right
            r(TypeError, f, notint)
        elif what in ("rotl-neg", "rotr-neg"):
            f = o.rotate_left if what == "rotl-neg" else o.rotate_right
            r(ValueError, f, neg)
        elif what in ("rotl-flag", "rotr-flag"):
            f = o.rotate_left if what == "rotl-flag" else o.rotate_right
            r(TypeError, f, 1, [1, None, "x", 0][k % 4])
        elif what == "split-type":
            r(TypeError, o.split, notint)
        elif what == "split-neg":
            r(IndexError, o.split, neg)
        elif what == "split-slice":
            r(IndexError, o.split, sl)
        elif what == "split-big":
            if cll:
                return False
            r(IndexError, o.split, big + 1)
        elif what == "new-type":
            r(TypeError, classes()[kind], [5, 1.5, True, object()][k % 4])
        elif what == "new-item":
            r(err, classes()[kind], [1, item, 2])
        return True


class RejectSkip(Target):
    name = "reject-skip"

    def gen(self, dec):
        ops = []
        rs = dec.below(65536)
        while dec.left:
            ops.append((dec.pick(["ins", "ins", "rm", "bad-ins", "bad-get",
                                  "bad-del", "bad-rm", "bad-has",
                                  "bad-new"]),
                        dec.below(16), dec.below(16)))
        return {"rs": rs, "ops": ops}

    def run(self, case, ctx):
        from extra.lists.skip_list import SkipList
        s, m, bad = SkipList(), set(), 0
        for name, k, j in case["ops"]:
            ctx.at(name, k, j, "on", sorted(m))
            n = len(m)
            nonnum = ["a", "1", (1,), True, [1], 1j, b"1"][k % 7]
            if name == "ins":
                ctx.sut(s.insert, k)
                m.add(k)
            elif name == "rm":
                ctx.sut(s.remove, k)
                m.discard(k)
            else:
                bad += 1
                ctx.tag(name)
            if name == "bad-ins":
                item, err = bad_item(j)
                ctx.raises(err, s.insert, item)
                ctx.raises(TypeError, s.insert, nonnum)
            elif name in ("bad-get", "bad-del"):
                f = s.__getitem__ if name == "bad-get" else s.__delitem__
                ctx.raises(IndexError, f, n + j)
                ctx.raises(IndexError, f, -1 - j)
                ctx.raises(TypeError, f, NOT_INT[k % len(NOT_INT)])
                ctx.raises(IndexError, f, slice(0, 1))
            elif name == "bad-rm":
                ctx.sut(s.remove, nonnum)
                ctx.sut(s.remove, 100 + k)
            elif name == "bad-has":
                ctx.eq("in", ctx.sut(s.__contains__, nonnum), False)
            elif name == "bad-new":
                ctx.raises(TypeError, SkipList, 5)
                ctx.raises(TypeError, SkipList, [1, nonnum])
                ctx.raises(ValueError, SkipList, [1, None])
            ctx.eqv("contents", ctx.sut(s.to_list), sorted(m))
            ctx.eq("len", ctx.sut(len, s), len(m))
        ctx.nontrivial = bad >= 1 and len(case["ops"]) >= 2


register("L06", "accepted edits interleaved with calls drawn from a table of "
         "36 kinds of invalid call; exception type and unchanged contents "
         "checked each time. Non-trivial: at least one rejected call among "
         "two or more operations.",
         [(RejectTarget(k), 3000, 60000) for k in ("LL", "DLL", "CLL")]
         + [(RejectSkip(), 3000, 60000)])


# ------------------------------------------------------------------- L07
def draw_list(kind, items):
    """The documented drawing, built independently from the item texts."""
    t = [str(x) for x in items]
    bar = ["─" * (len(x) + 2) for x in t]
    if not t:
        return "┌─\n│\n└─"
    if kind == "DLL":
        top = "".join(" ┌" + b + "┐" for b in bar) + " "
        mid = "".join("⟷│ " + x + " │" for x in t) + "⟷"
        low = "".join(" └" + b + "┘" for b in bar) + " "
        return "\n".join([top, mid, low])
    top = "".join("┌" + b + "┐ " for b in bar)
    mid = "".join("│ " + x + " │⟶" for x in t)
    low = "".join("└" + b + "┘ " for b in bar)
    if kind == "LL":
        return "\n".join([top, mid, low])
    width = len(mid)
    off = (len(t[0]) + 4) // 2
    return "\n".join([
        top, mid + " ┐", low + " │",
        " " * off + "↑" + " " * (width - off) + "│",
        " " * off + "└" + "─" * (width - off) + "┘"])


class DrawTarget(Target):
    sparse = True

    def __init__(self, kind):
        self.kind = kind
        self.name = "draw-" + kind

    def gen(self, dec):
        prof = dec.pick([0, 1, 2, 3, 4, 5, 6, 7])
        n = size(dec, 130) if dec.chance(16) else dec.below(6)
        init = values(dec, prof, n)
        ops = []
        mix = gen_mix(dec)
        while dec.left:
            ops.append(gen_op(dec, prof, mix))
        return {"how": dec.below(5), "init": init, "ops": ops[:60]}

    def run(self, case, ctx):
        sim = SeqSim(ctx, self.kind, case["how"], list(case["init"]))
        widths = set()
        last = case["ops"][-1] if case["ops"] else None
        for op in [None] + list(case["ops"]):
            if op is not None:
                sim.apply(op)
            if not ctx.due() and op is not None and op is not last:
                continue
            got = ctx.sut(repr, sim.obj)
            want = draw_list(self.kind, sim.m)
            ctx.at("drawing", sim.m, "after", op)
            if got != want:
                # trailing blanks carry no meaning
                g = [x.rstrip() for x in got.split("\n")]
                w = [x.rstrip() for x in want.split("\n")]
                ctx.ok(f"drawing is\n{got}\nwant\n{want}", g == w)
            widths |= {len(str(x)) for x in sim.m}
            sim.check("contents after drawing")
        ctx.tag("widths", len(widths))
        ctx.nontrivial = len(widths) >= 2


class DrawSkip(Target):
    name = "draw-skip"
    sparse = True

    def gen(self, dec):
        from pbt.core import number
        rs = dec.below(65536)
        prof = dec.pick([0, 1, 2, 5, 7])
        ops = []
        while dec.left:
            ops.append((dec.weighted([("ins", 5), ("rm", 2), ("rmat", 2)]),
                        number(dec, prof)))
        ops = ops[:60]
        if dec.chance(10):
            k = size(dec, 140)
            ops = [("ins", number(dec, dec.pick([2, 7])))
                   for _ in range(k)] + ops
        if dec.chance(12):                # all or nearly all removed
            more = ops[:dec.below(30)]
            ops += [("rmat", dec.below(7))] * (len(ops) // 2) + more
        return {"rs": rs, "ops": ops}

    def run(self, case, ctx):
        from extra.lists.skip_list import SkipList
        s, m = SkipList(), []
        for name, v in case["ops"]:
            if name == "ins":
                ctx.sut(s.insert, v)
                if v not in m:
                    m.append(v)
                    m.sort()
            elif name == "rm":
                ctx.sut(s.remove, v)
                m = [x for x in m if x != v]
            elif m:
                v = m[int(v) % len(m)]
                ctx.sut(s.remove, v)
                m.remove(v)
            ctx.at("drawing", m)
            if ctx.due():
                self.check(ctx, s, m)
        self.check(ctx, s, m)
        ctx.nontrivial = len(m) >= 2

    def check(self, ctx, s, m):
        """Every lane's drawn items are a sub-sequence of the lane below, the
        bottom lane lists the left boundary and every item, and each item is
        drawn in the same column on every lane."""
        lines = ctx.sut(repr, s).split("\n")
        lanes = ctx.sut(s.get_height)
        ctx.ok(f"{len(lines)} lines drawn for {lanes} lanes",
               len(lines) == 2 * lanes + 1)
        texts = ["-∞"] + [{float("inf"): "∞", float("-inf"): "-∞"}.get(
            x, str(x)) for x in m]
        starts, col = [], 0
        for t in texts:
            starts.append(col)
            col += len(t) + 5
        below = None
        for lane in range(lanes):
            line = lines[2 * (lanes - lane) - 1]
            ctx.ok(f"lane {lane} is {len(line)} wide, want {col}: {line}",
                   len(line) == col)
            present = []
            for st, t in zip(starts, texts):
                box = line[st:st + len(t) + 5]
                if box == f"| {t} │⟶" or box == f"│ {t} │⟶":
                    present.append(True)
                elif box == "⟶" * len(box):
                    present.append(False)
                else:
                    ctx.ok(f"lane {lane} shows {box!r} where {t} belongs",
                           False)
            if lane == 0:
                ctx.ok("bottom lane lacks an item", all(present))
            else:
                ctx.ok("lane without its left boundary", present[0])
                ctx.ok(f"lane {lane} shows an item missing below", all(
                    b or not p for p, b in zip(present, below)))
            below = present


register("L07", "the drawing after every operation against an independent "
         "renderer (linked lists) or a lane parser (skip list). Non-trivial: "
         "items of at least two different text widths were drawn (skip list: "
         "two or more items).",
         [(DrawTarget(k), 2500, 50000) for k in ("LL", "DLL", "CLL")]
         + [(DrawSkip(), 2500, 40000)])
