"""H01, H02: min- and max-heaps."""
from pbt.core import Discard, number, numbers, size
from pbt.targets import Target, register
from pbt.targets.search import isnum

INF = float("inf")
MIXES = [
    [("ins", 6), ("rmat", 2), ("rmmin", 1), ("rmmax", 1), ("rm", 1)],
    [("ins", 3), ("rmat", 3), ("rmlvl", 2)],
    [("ins", 5), ("rmmin", 2), ("rmmax", 2)],
    [("ins", 8), ("rmlvl", 2), ("rm", 1)],
    [("ins", 5), ("rmat", 2), ("again", 3), ("rmmax", 2), ("clear", 1)],
]


def num(dec, prof):
    if prof == 8:
        return dec.pick([INF, -INF, 0, 1, -1, 2.5, dec.rng(-3, 3)])
    return number(dec, prof)


def gen_case(dec):
    prof = dec.pick([0, 1, 2, 3, 4, 5, 6, 7, 8])
    n0 = dec.pick([0, 0, 3, 8, 16, 40, 100]) if dec.left > 50 else \
        dec.below(6)
    if dec.chance(5):
        n0, prof = dec.pick([150, 400, size(dec, 300)]), dec.pick([2, 7])
    init = numbers(dec, min(prof, 7), n0)
    mix = dec.pick(MIXES)
    ops = []
    while dec.left:
        if dec.chance(7):
            k = dec.pick([3, 6, 14, 30])
            if dec.chance(100):
                a, d = dec.rng(-60, 60), dec.pick([1, -1, 0, -3, 0.5])
                ops += [("ins", a + i * d) for i in range(k)]
            else:
                ops += [dec.pick([("rmmin",), ("rmmax",), ("rmat", 0),
                                  ("rmat", -1)])] * k
        op = dec.weighted(mix)
        if op in ("ins", "rm"):
            ops.append((op, num(dec, prof)))
        elif op == "clear":
            ops.append((op,) if dec.chance(30) else ("again", 1))
        elif op in ("rmmin", "rmmax"):
            ops.append((op,))
        else:
            ops.append((op, dec.below(256)))
    return {"max": dec.chance(128), "how": dec.below(4), "init": init,
            "ops": ops}


def create(call, case):
    import extra
    cls = extra.MaxHeap if case["max"] else extra.MinHeap
    init = list(case["init"])
    if not all(map(isnum, init)):
        raise Discard
    if case["how"] == 0:
        h = call(cls)
        for x in init:
            call(h.insert, x)
        return h
    src = [None, list, tuple, iter][case["how"] % 4](init)
    return call(cls.heapify, src)


def drop(m, v):
    """Remove one occurrence, by value."""
    i = m.index(v)
    del m[i]


class HeapTarget(Target):
    """Multiset behaviour."""
    sparse = True
    name = "heap-multiset"

    def gen(self, dec):
        return gen_case(dec)

    def run(self, case, ctx):
        ctx.at("construction", case["init"])
        h = create(ctx.sut, case)
        m = sorted(case["init"])
        big = len(m)
        self.check(ctx, h, m)
        gone = []
        for op in case["ops"]:
            name = op[0]
            ctx.at(op, "on", m if len(m) < 25 else len(m))
            ctx.tag("op:" + name)
            if name in ("ins", "rm") and not isnum(op[1]):
                raise Discard
            if name == "again":               # repeat a stored number
                if not m:
                    continue
                name, op = "ins", ("ins", m[op[1] % len(m)])
            if name == "ins":
                if op[1] in m:
                    ctx.tag("repeated")
                ctx.sut(h.insert, op[1])
                m.append(op[1])
                m.sort()
            elif name in ("rmmin", "rmmax"):
                f = h.remove_min if name == "rmmin" else h.remove_max
                if m:
                    ctx.sut(f)
                    gone.append(m.pop(0 if name == "rmmin" else -1))
                    ctx.tag("removed")
                else:
                    ctx.raises(IndexError, f)
            elif name == "clear":
                ctx.sut(h.clear)
                m = []
            else:
                if name == "rm":
                    v = op[1]
                elif not m:
                    continue
                elif name == "rmat":
                    v = m[op[1] % len(m)]
                else:
                    lst = ctx.sut(h.to_list)
                    v = lst[op[1] % len(lst)]
                there = v in m
                ctx.at("remove", v, "from", m if len(m) < 25 else len(m))
                ctx.drain()
                ctx.sut(h.remove, v)
                ctx.expect_warning(not there, "removing a "
                                   + ("present" if there else "absent")
                                   + " number")
                if there:
                    drop(m, v)
                    gone.append(v)
                    ctx.tag("removed")
                    if not m:
                        ctx.tag("emptied")
                else:
                    ctx.tag("absent")
            if ctx.due():
                self.check(ctx, h, m, gone)
            big = max(big, len(m))
        ctx.at("end")
        self.check(ctx, h, m, gone, True)
        for v in gone[-12:]:
            ctx.eq(f"{v} in", ctx.sut(h.__contains__, v), v in m)
        for v in m[:10] + m[-5:]:
            ctx.eq(f"{v} in", ctx.sut(h.__contains__, v), True)
        for v in (0.123, INF, -INF, 77):
            ctx.eq(f"{v} in", ctx.sut(h.__contains__, v), v in m)
        ctx.nontrivial = big >= 4 and ctx.tags.get("removed", 0) >= 1

    def check(self, ctx, h, m, gone=[], whole=False):
        def end(name, f, i):
            if m:
                ctx.eqv(name, ctx.sut(f), m[i])
            else:
                ctx.raises(IndexError, f)

        def member():
            for v in m[:3] + m[-2:] + gone[-4:]:
                ctx.eq(f"{v} in", ctx.sut(h.__contains__, v), v in m)
        ctx.ask(lambda: ctx.eqv("contents sorted",
                                sorted(ctx.sut(h.to_list)), m),
                lambda: ctx.eq("len", ctx.sut(len, h), len(m)),
                lambda: ctx.eq("is_empty", ctx.sut(h.is_empty), not m),
                lambda: end("min", h.get_min, 0),
                lambda: end("max", h.get_max, -1),
                lambda: ctx.eqv("iterated sorted", sorted(ctx.sut(list, h)),
                                m),
                member, whole=whole)


class HeapOrder(Target):
    """Heap order and sorted draining."""
    sparse = True
    name = "heap-order"

    def gen(self, dec):
        c = gen_case(dec)
        c["drain"] = dec.below(3)
        return c

    def run(self, case, ctx):
        ctx.at("construction", case["init"])
        h = create(ctx.setup, case)
        sign = -1 if case["max"] else 1
        big = removed = 0
        self.order(ctx, h, sign)
        m = sorted(case["init"])
        for op in case["ops"]:
            lst = list(ctx.setup(h.to_list)) if op[0] == "rmlvl" else m
            big = max(big, len(m))
            name = op[0]
            if name in ("ins", "rm") and not isnum(op[1]):
                raise Discard
            v = None
            if name in ("ins", "rm"):
                v = op[1]
            elif name in ("again", "rmat", "rmlvl"):
                if not lst:
                    continue
                v = lst[op[1] % len(lst)]
            ctx.at(name, v, "on", lst if len(lst) < 40 else len(lst))
            if name in ("ins", "again"):
                ctx.setup(h.insert, v)
                m = sorted(m + [v])
            elif name in ("rm", "rmat", "rmlvl"):
                ctx.setup(h.remove, v)
                if v in m:
                    removed += 1
                    drop(m, v)
            elif name == "clear":
                ctx.setup(h.clear)
                m = []
            elif lst:
                ctx.setup(h.remove_min if name == "rmmin" else h.remove_max)
                m = sorted(m)
                m.pop(0 if name == "rmmin" else -1)
                removed += 1
            if ctx.due():
                self.order(ctx, h, sign)
        m = sorted(ctx.setup(h.to_list))
        low, out = case["drain"] == 0, []
        k = 0
        while m:
            if case["drain"] == 2:
                low = k % 3 == 0
            ctx.at("draining", "min" if low else "max", m[:20])
            got = ctx.sut(h.get_min if low else h.get_max)
            ctx.eqv("extreme", got, m.pop(0 if low else -1))
            ctx.sut(h.remove_min if low else h.remove_max)
            if ctx.due() or not m:
                self.order(ctx, h, sign)
                ctx.eqv("remaining", sorted(ctx.sut(h.to_list)), m)
            out.append(got)
            k += 1
        ctx.tag("drained", len(out))
        ctx.nontrivial = (big >= 5 and removed >= 1 or len(out) >= 5)

    def order(self, ctx, h, sign):
        a = ctx.sut(h.to_list)
        for i in range(1, len(a)):
            p = a[(i - 1) // 2]
            if (p > a[i]) if sign > 0 else (p < a[i]):
                ctx.ok(f"{a[i]} below {p} in level-order {a}", False)
        if a:
            ctx.eqv("iteration against listing", ctx.sut(list, h), list(a))


register("H01", "min- and max-heaps built empty or by heapify, insertions "
         "with many repetitions, removals by value, rank, level position and "
         "of extremes, against a sorted list. Non-trivial: four or more "
         "numbers stored and one removed.",
         [(HeapTarget(), 9000, 220000)])
register("H02", "as H01; the level-order listing is checked parent by parent "
         "after every operation and the heap is finally drained by minimum, "
         "maximum or both. Non-trivial: five or more numbers stored and one "
         "removed, or five drained.", [(HeapOrder(), 9000, 220000)])
