"""K01, K02: the skip list as a sorted set, and its lanes."""
from pbt.core import number, numbers, size
from pbt.targets import Target, register
from pbt.targets.lists import DrawSkip
from pbt.targets.search import gen_run

INF = float("inf")
MIXES = [
    [("ins", 6), ("rmat", 3), ("rm", 1), ("del", 2), ("has", 2), ("get", 1)],
    [("ins", 4), ("rmat", 4), ("del", 2), ("re", 2)],
    [("ins", 8), ("has", 1), ("del", 1)],
    [("ins", 3), ("rmat", 5), ("del", 3), ("re", 3), ("clear", 1)],
]


def num(dec, prof):
    if prof == 8:
        return dec.pick([INF, -INF, 0, 1, -1, 2.5, dec.rng(-3, 3)])
    return number(dec, prof)


class SkipTarget(Target):
    sparse = True

    def __init__(self, name, lanes):
        self.name, self.lanes = name, lanes

    def gen(self, dec):
        prof = dec.below(9)
        rs = dec.below(65536)
        n0 = dec.pick([0, 0, 3, 10, 40]) if dec.left > 60 else 0
        if dec.chance(5):
            n0, prof = dec.pick([150, 300, size(dec, 200)]), dec.pick([2, 7])
        init = numbers(dec, min(prof, 7), n0)
        mix = dec.pick(MIXES)
        ops = []
        while dec.left:
            if dec.chance(7):
                ops += [("rmat",) + o[1:] if o[0] == "rmpre" else o
                        for o in gen_run(dec)]
            op = dec.weighted(mix)
            if op in ("ins", "rm", "has"):
                ops.append((op, num(dec, prof)))
            elif op == "clear":
                ops.append((op,) if dec.chance(40) else ("has", 0))
            else:
                ops.append((op, dec.below(256)))
        return {"rs": rs, "init": init, "ops": ops}

    def run(self, case, ctx):
        from extra.lists.skip_list import SkipList
        ctx.at("construction")
        s = ctx.sut(SkipList, list(case["init"]))
        m = []
        for x in case["init"]:
            if x not in m:
                m.append(x)
        m.sort()
        gone = []
        big = len(m)
        self.check(ctx, s, m)
        for op in case["ops"]:
            name = op[0]
            ctx.at(op, "on", m if len(m) < 20 else len(m))
            ctx.tag("op:" + name)
            if name == "re":                  # re-insert a removed number
                if gone:
                    name, op = "ins", ("ins", gone[op[1] % len(gone)])
                    ctx.tag("re-inserted")
                else:
                    continue
            if name == "ins":
                ctx.sut(s.insert, op[1])
                if op[1] in m:
                    ctx.tag("duplicate")
                else:
                    m.append(op[1])
                    m.sort()
            elif name == "rm":
                ctx.sut(s.remove, op[1])
                if op[1] in m:
                    m.remove(op[1])
                    gone.append(op[1])
                    ctx.tag("removed")
                else:
                    ctx.tag("absent")
            elif name in ("rmat", "del"):
                if not m:
                    continue
                i = op[1] % len(m)
                gone.append(m[i])
                if name == "del":
                    ctx.sut(s.__delitem__, i)
                else:
                    ctx.sut(s.remove, m[i])
                del m[i]
                ctx.tag("removed")
                if not m:
                    ctx.tag("emptied")
            elif name == "has":
                ctx.eq("in", ctx.sut(s.__contains__, op[1]), op[1] in m)
            elif name == "get":
                if m:
                    i = op[1] % len(m)
                    ctx.eq(f"[{i}]", ctx.sut(s.__getitem__, i), m[i])
            elif name == "clear":
                ctx.sut(s.clear)
                m = []
            if ctx.due():
                self.check(ctx, s, m, gone)
            big = max(big, len(m))
        ctx.at("end")
        self.check(ctx, s, m, gone, True)
        for x in m[:30]:
            ctx.eq(f"{x} in", ctx.sut(s.__contains__, x), True)
        for x in gone[-20:] + [INF, -INF, 0.25]:
            ctx.eq(f"{x} in", ctx.sut(s.__contains__, x), x in m)
        for i in range(0, len(m), 1 + len(m) // 12):
            ctx.eq(f"[{i}]", ctx.sut(s.__getitem__, i), m[i])
        ctx.tag("size>=%d" % (0 if big < 3 else 3 if big < 20 else 20
                              if big < 80 else 80))
        if self.lanes:
            ctx.nontrivial = ctx.tags.get("three lanes", 0) >= 1 and \
                ctx.tags.get("removed", 0) >= 1
        else:
            ctx.nontrivial = big >= 3 and ctx.tags.get("removed", 0) >= 1

    def check(self, ctx, s, m, gone=[], whole=False):
        def places():
            for i in {0, len(m) // 2, len(m) - 1} if m else ():
                ctx.eq(f"[{i}]", ctx.sut(s.__getitem__, i), m[i])

        def member():
            for x in m[:2] + m[-2:] + gone[-3:]:
                ctx.eq(f"{x} in", ctx.sut(s.__contains__, x), x in m)
        ctx.ask(lambda: ctx.eq("contents", ctx.sut(s.to_list), m),
                lambda: ctx.eq("iteration", ctx.sut(list, s), m),
                lambda: ctx.eq("len", ctx.sut(len, s), len(m)),
                lambda: ctx.eq("is_empty", ctx.sut(s.is_empty), not m),
                *([] if self.lanes else [places, member]),
                whole=whole or self.lanes)
        if self.lanes:
            h = ctx.sut(s.get_height)
            if h >= 3:
                ctx.tag("three lanes")
            lanes_ok(ctx, s, m, h)
            if len(m) <= 12:
                DrawSkip.check(None, ctx, s, m)


def lanes_ok(ctx, s, m, height):
    lists = getattr(s, "_level_lists", None)
    if lists is None:
        return
    ctx.eq("height", height, len(lists))
    below = None
    for k, ll in enumerate(lists):
        nodes, data = [], []
        node = ll._head
        while node is not None and len(nodes) <= len(m) + 5:
            nodes.append(node)
            data.append(node.get_data())
            node = node.get_next()
        ctx.ok(f"lane {k} does not start at the left boundary: {data[:5]}",
               bool(data) and data[0] == -INF)
        if k == 0:
            ctx.eq("bottom lane", data[1:], m)
        else:
            ctx.ok(f"lane {k} is empty but kept", len(data) > 1)
            ctx.ok(f"lane {k} is not ascending: {data[:20]}",
                   all(a < b for a, b in zip(data[1:], data[2:])))
            ids = {id(n): i for i, n in enumerate(below)}
            last = -1
            for n in nodes:
                d = n.get_down()
                ctx.ok(f"lane {k}: {n.get_data()} leads to no entry of the "
                       "lane below", id(d) in ids)
                ctx.ok(f"lane {k}: {n.get_data()} leads down to "
                       f"{d.get_data()}", d.get_data() == n.get_data())
                ctx.ok(f"lane {k} is no sub-sequence of the one below",
                       ids[id(d)] > last)
                last = ids[id(d)]
        ctx.eq(f"length of lane {k}", ctx.sut(len, ll), len(data))
        below = nodes


register("K01", "histories of insertions, removals by value and position, "
         "re-insertions, lookups, over several key distributions and random "
         "lane seeds, against a sorted list. Non-trivial: three or more "
         "numbers stored and one removed.",
         [(SkipTarget("skip-set", False), 8000, 200000)])
register("K02", "as K01, walking every lane node by node (and parsing the "
         "drawing of small lists) after every operation. Non-trivial: three "
         "lanes were seen and a stored number was removed.",
         [(SkipTarget("skip-lanes", True), 6000, 150000)])
