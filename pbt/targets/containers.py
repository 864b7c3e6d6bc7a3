"""S01-S06: stack, queue, deque and priority queue."""
from pbt.core import Discard, esc, same, size, value
from pbt.targets import Target, register, reset_globals
from pbt.targets.lists import bad_item

INF = float("inf")


def classes():
    from extra.lists.stack import Stack
    from extra.lists.queue import Queue
    from extra.lists.deque import Deque
    from extra.lists.priority_queue import PriorityQueue
    return {"stack": Stack, "queue": Queue, "deque": Deque,
            "pq": PriorityQueue}


def gen_cap(dec):
    k = dec.below(8)
    if k == 0:
        return "inf"
    if k == 1:
        return "none"
    if k == 2:
        return dec.pick([0, 1, 1.0, 2.3, 2.7, 0.3, 3.0, 10 ** 20, 1e300,
                         -0.0])
    if k == 3:
        return size(dec, 300)
    return dec.below(7)


def gen_bulk(dec, ops, big=(10, 20, 40, 70, 130, 270, 330)):
    """Now and then many additions (or removals) in a row."""
    if dec.chance(5):
        n = dec.pick(big + (size(dec, big[-1]),))
        ops.append(("fill", dec.chance(128), n, dec.below(1000)))
        return True
    if dec.chance(4):
        ops.append(("burn", dec.chance(128), dec.pick([10, 30, 100, 250])))
        return True
    return False


def build(ctx, kind, cap):
    cls = classes()[kind]
    if cap == "none":
        return ctx.sut(cls), INF
    if cap == "inf":
        return ctx.sut(cls, INF), INF
    if type(cap) not in (int, float) or cap < 0:
        raise Discard
    return ctx.sut(cls, max_capacity=cap), round(cap)


class Sim:
    """A linear container with its model: index 0 is the left / newest end."""

    def __init__(self, ctx, kind, cap):
        self.ctx, self.kind = ctx, kind
        self.obj, self.cap = build(ctx, kind, cap)
        self.m = []

    def full(self):
        return len(self.m) == self.cap

    def check(self, whole=False):
        c, o, m = self.ctx, self.obj, self.m
        if self.kind == "stack":
            ends = [("peek", o.peek, 0)]
        elif self.kind == "queue":
            ends = [("top", o.top, -1)]
        else:
            ends = [("get_left", o.get_left, 0),
                    ("get_right", o.get_right, -1)]

        def end(name, f, i):
            if m:
                c.eq(name, c.sut(f), m[i])
            else:
                c.raises(IndexError, f)
        c.ask(lambda: c.eq("len", c.sut(len, o), len(m)),
              lambda: c.eq("is_empty", c.sut(o.is_empty), not m),
              lambda: c.eq("is_full", c.sut(o.is_full), self.full()),
              lambda: end(*ends[0]), lambda: end(*ends[-1]), whole=whole)
        c.expect_warning(False, "reading")

    def put(self, left, v):
        c, o, m = self.ctx, self.obj, self.m
        was_full = self.full()
        if self.kind == "stack":
            if was_full:
                c.raises(OverflowError, o.push, v)
                c.tag("overflow")
            else:
                c.sut(o.push, v)
                m.insert(0, esc(v))
            c.expect_warning(False, "push")
            return
        if self.kind == "queue":
            c.sut(o.enqueue, v)
            left = True
        else:
            c.sut(o.append_left if left else o.append_right, v)
        if was_full:
            c.tag("overflow")
            if m:
                m.pop(-1 if left else 0)
        if self.cap > 0:
            m.insert(0 if left else len(m), esc(v))
        c.expect_warning(was_full, "adding to a "
                         + ("full" if was_full else "non-full") + " container")

    def take(self, left):
        c, o, m = self.ctx, self.obj, self.m
        if self.kind == "stack":
            f, i = o.pop, 0
        elif self.kind == "queue":
            f, i = o.dequeue, -1
        else:
            f, i = (o.pop_left, 0) if left else (o.pop_right, -1)
        got = c.sut(f)
        if m:
            c.eq("removed item", got, m.pop(i))
            c.tag("removed")
            if not m:
                c.tag("emptied")
            c.expect_warning(False, "removing from a non-empty container")
        else:
            c.eq("result of removing from an empty container", got, None)
            c.tag("underflow")
            c.expect_warning(True, "removing from an empty container")

    def clear(self):
        self.ctx.sut(self.obj.clear)
        del self.m[:]
        self.ctx.tag("cleared")

    def drain(self):
        while self.m:
            self.take(len(self.m) % 2 == 0)
            if self.ctx.due():
                self.check()


class ContainerTarget(Target):
    sparse = True

    def __init__(self, kind):
        self.kind = kind
        self.name = "hist-" + kind

    def gen(self, dec):
        prof = dec.below(8)
        cap = gen_cap(dec)
        mix = dec.pick([
            [("put", 5), ("take", 4), ("clear", 1)],
            [("put", 8), ("take", 2)],
            [("put", 5), ("take", 6)],
            [("put", 1), ("take", 1)]])
        ops = []
        while dec.left:
            if gen_bulk(dec, ops):
                continue
            op = dec.weighted(mix)
            if op == "put":
                ops.append((op, dec.chance(128), value(dec, prof)))
            elif op == "take":
                ops.append((op, dec.chance(128)))
            else:
                ops.append((op,))
        return {"cap": cap, "ops": ops}

    def run(self, case, ctx):
        sim = Sim(ctx, self.kind, case["cap"])
        ctx.at("new")
        sim.check()
        most = puts = 0
        for op in case["ops"]:
            ctx.at(op, "on", sim.m if len(sim.m) < 15 else len(sim.m),
                   "capacity", sim.cap)
            if op[0] == "put":
                sim.put(op[1], op[2])
                puts += 1
            elif op[0] == "take":
                sim.take(op[1])
            elif op[0] == "fill":
                if sim.kind == "stack" and sim.cap < len(sim.m) + op[2]:
                    sim.put(True, 0)
                for i in range(op[2]):
                    if not (sim.kind == "stack" and sim.full()):
                        sim.put(op[1], op[3] + i)
            elif op[0] == "burn":
                for _ in range(min(op[2], len(sim.m))):
                    sim.take(op[1])
            else:
                sim.clear()
            if ctx.due():
                sim.check()
            most = max(most, len(sim.m))
        ctx.at("draining")
        sim.check(True)
        end = len(sim.m)
        sim.drain()
        sim.take(True)
        sim.put(True, 1)
        sim.check(True)
        ctx.tag("most>=%d" % (0 if most < 3 else 3 if most < 20 else 20 if most
                              < 100 else 100 if most < 257 else 257))
        ctx.nontrivial = (most >= 2 and ctx.tags.get("removed", 0) > end
                          or "overflow" in ctx.tags and most >= 1)


_R = ("capacity and history of additions, removals and clears decoded from "
      "Hypothesis bytes; every read, warning and error compared with a list "
      "model after every step, then drained. Non-trivial: two or more items "
      "were held at once and one was removed before the final drain, or an "
      "overflow of a non-empty container happened.")
for _pid, _k in (("S01", "stack"), ("S02", "queue"), ("S03", "deque")):
    register(_pid, _R, [(ContainerTarget(_k), 12000, 300000)])


# ----------------------------------------------------------- priority queue
def gen_prio(dec, prof):
    if prof == 0:
        return dec.below(4)
    if prof == 1:
        return dec.rng(-5, 5)
    if prof == 2:
        if dec.chance(110):               # close to one another
            k = dec.below(24)
            return dec.pick([2 ** 53 + k, 10 ** 20 + k, -2 ** 60 - k,
                             1 + k * 2.0 ** -52])
        return dec.pick([0, 0.0, 1, 1.0, -1.5, 2.5, INF, -INF, 1e300,
                         10 ** 30, -10 ** 30])
    if prof == 3:
        return dec.below(100)
    if prof == 4:
        return dec.pick([None, dec.below(101)])
    return dec.rng(-1000, 1000) / 8


def enqueue(ctx, obj, item, prio):
    """Enqueue and return the priority now held by the item."""
    from extra.lists.priority_queue import PriorityQueue
    if prio is not None:
        ctx.sut(obj.enqueue, item, prio)
        return prio
    ctx.sut(obj.enqueue, item)
    PriorityQueue.SHOW_PRIORITY = True
    line = ctx.sut(repr, obj).split("\n")[1]
    reset_globals()
    head = f"⟶│ {item}|P:"
    ctx.ok(f"newest item not drawn first: {line}", line.startswith(head))
    num = line[len(head):].split(" ")[0]
    ctx.ok(f"default priority {num} is no whole number 0..100",
           num.isdigit() and 0 <= int(num) <= 100)
    ctx.tag("default priority")
    return int(num)


def pq_take(ctx, obj, m, low, explicit=True):
    """m: list of (item, prio), oldest last. Returns after updating m."""
    if low:
        got = ctx.sut(obj.dequeue, lowest_priority=True)
    elif explicit:
        got = ctx.sut(obj.dequeue, False)
    else:
        got = ctx.sut(obj.dequeue)
    if not m:
        ctx.eq("result of dequeuing an empty queue", got, None)
        ctx.expect_warning(True, "dequeuing an empty queue")
        return
    ctx.expect_warning(False, "dequeuing")
    best = min(p for _, p in m) if low else max(p for _, p in m)
    hits = [i for i, (x, p) in enumerate(m) if p == best and same(x, got)]
    ctx.ok(f"dequeued {got!r} from {m}, want an item of priority {best}",
           bool(hits))
    if len([1 for _, p in m if p == best]) > 1:
        ctx.tag("tie")
    m.pop(hits[0])
    ctx.tag("dequeued " + ("lowest" if low else "highest"))


def bulk(op):
    """(item, priority) pairs of a fill: ascending, or scattered."""
    _, rising, n, start = op
    return [(start + i, i if rising else (i * 37 + start) % 101 - 50)
            for i in range(n)]


PQ_BULK = (10, 10, 20, 20, 40, 40, 70, 110)


class PQTarget(Target):
    name = "pq-order"

    def gen(self, dec):
        prof = dec.below(6)
        style = dec.below(3)      # of dequeues: mixed / highest / lowest
        iprof = dec.below(8)
        uniq = dec.chance(128)
        ops, k = [], 0
        wp = dec.pick([3, 5, 8])
        while dec.left:
            if gen_bulk(dec, ops, PQ_BULK):
                continue
            if dec.chance(wp, 10):
                k += 1
                ops.append(("put", f"i{k}" if uniq or prof == 4 else
                            value(dec, iprof), gen_prio(dec, prof)))
            elif dec.chance(6):
                ops.append(("clear",))
            else:
                ops.append(("take", [dec.chance(128), False, True][style],
                            dec.chance(128)))
        return {"rs": dec.below(1000), "ops": ops,
                "low": dec.chance(128)}

    def run(self, case, ctx):
        q, m = classes()["pq"](), []
        most = 0
        for op in case["ops"]:
            ctx.at(op, "on", m)
            if op[0] == "put":
                if op[2] is not None and type(op[2]) not in (int, float):
                    raise Discard
                if op[2] is None and type(op[1]) is not str:
                    raise Discard
                p = enqueue(ctx, q, op[1], op[2])
                m.insert(0, (esc(op[1]), p))
                ctx.expect_warning(False, "enqueuing")
            elif op[0] == "take":
                pq_take(ctx, q, m, op[1], op[2])
            elif op[0] == "fill":
                for i, p in bulk(op):
                    ctx.sut(q.enqueue, i, p)
                    m.insert(0, (i, p))
                ctx.expect_warning(False, "enqueuing")
            elif op[0] == "burn":
                for i in range(min(op[2], len(m))):
                    pq_take(ctx, q, m, op[1] if i % 3 else not op[1])
            else:
                ctx.sut(q.clear)
                del m[:]
            ctx.eq("len", ctx.sut(len, q), len(m))
            ctx.eq("is_empty", ctx.sut(q.is_empty), not m)
            most = max(most, len(m))
        taken = sum(v for k, v in ctx.tags.items() if k.startswith("deq"))
        while m:
            ctx.at("draining", m)
            pq_take(ctx, q, m, case["low"])
            ctx.eq("len", ctx.sut(len, q), len(m))
        pq_take(ctx, q, m, case["low"])
        ctx.nontrivial = most >= 3 and taken >= 1


register("S04", "histories of enqueues with explicit or default priorities "
         "(ties, floats, infinities, huge and negative) and dequeues from "
         "either extreme, compared with a list of (item, priority), then "
         "drained. Non-trivial: three or more items stored at once and a "
         "dequeue before the drain.", [(PQTarget(), 14000, 350000)])


def boxes(kind, texts):
    """Drawing of a container, texts from left to right."""
    bar = ["─" * (len(t) + 2) for t in texts]
    if kind == "stack":
        return "\n".join(["┌" + "".join(b + "┬" for b in bar) + "─",
                          "│" + "".join(f" {t} │" for t in texts) + " ",
                          "└" + "".join(b + "┴" for b in bar) + "─"])
    ch = "⟷" if kind == "deque" else "⟶"
    e = 1 if texts else 0
    return "\n".join(["─┬" + "".join(b + "┬" for b in bar) + "─" * e,
                      ch + "│" + "".join(f" {t} │" for t in texts) + ch * e,
                      "─┴" + "".join(b + "┴" for b in bar) + "─" * e])


def check_drawing(ctx, kind, obj, texts):
    got = ctx.sut(repr, obj)
    want = boxes(kind, texts)
    if got != want:
        g = [x.rstrip() for x in got.split("\n")]
        w = [x.rstrip() for x in want.split("\n")]
        ctx.ok(f"drawing is\n{got}\nwant\n{want}", g == w)


def pq_check(ctx, q, m, cap, whole=False):
    from extra.lists.priority_queue import PriorityQueue

    def top():
        if m:
            ctx.eq("top", ctx.sut(q.top), m[-1][0])
        else:
            ctx.raises(IndexError, q.top)

    def marked():
        PriorityQueue.SHOW_PRIORITY = True
        check_drawing(ctx, "pq", q, [f"{x}|P:{p}" for x, p in m])
        reset_globals()
    ctx.ask(lambda: ctx.eq("len", ctx.sut(len, q), len(m)),
            lambda: ctx.eq("is_empty", ctx.sut(q.is_empty), not m),
            lambda: ctx.eq("is_full", ctx.sut(q.is_full), len(m) == cap),
            top,
            lambda: check_drawing(ctx, "pq", q, [str(x) for x, _ in m]),
            marked, whole=whole)


class PQBounded(Target):
    name = "pq-bounded"
    sparse = True

    def gen(self, dec):
        prof = dec.below(6)
        cap = gen_cap(dec)
        wp = dec.pick([5, 7, 8])
        ops, k = [], 0
        while dec.left:
            if gen_bulk(dec, ops, PQ_BULK):
                continue
            if dec.chance(wp, 10):
                k += 1
                ops.append(("put", k, gen_prio(dec, prof)))
            elif dec.chance(6):
                ops.append(("clear",))
            else:
                ops.append(("take", dec.chance(128), dec.chance(128)))
        return {"rs": dec.below(1000), "cap": cap, "ops": ops}

    def run(self, case, ctx):
        q, cap = build(ctx, "pq", case["cap"])
        m, k = [], 0
        pq_check(ctx, q, m, cap)
        evicted = after = 0
        for op in case["ops"]:
            ctx.at(op, "on", m, "capacity", cap)
            if op[0] == "put":
                if op[2] is not None and type(op[2]) not in (int, float):
                    raise Discard
                k += 1                       # items are unique by counting
                full = len(m) == cap
                if cap == 0:
                    ctx.sut(q.enqueue, k, op[2])
                else:
                    p = enqueue(ctx, q, k, op[2])
                    if full:
                        m.pop()
                        evicted += 1
                        ctx.tag("evicted")
                    m.insert(0, (k, p))
                ctx.expect_warning(full, "enqueuing")
            elif op[0] == "take":
                after += evicted > 0 and bool(m)
                pq_take(ctx, q, m, op[1], op[2])
            elif op[0] == "fill":
                for _, p in bulk(op):
                    k += 1
                    full = len(m) == cap
                    ctx.sut(q.enqueue, k, p)
                    ctx.expect_warning(full, "enqueuing")
                    if cap == 0:
                        continue
                    if full:
                        m.pop()
                        evicted += 1
                    m.insert(0, (k, p))
            elif op[0] == "burn":
                after += evicted > 0 and bool(m)
                for i in range(min(op[2], len(m))):
                    pq_take(ctx, q, m, op[1] if i % 3 else not op[1])
            else:
                ctx.sut(q.clear)
                del m[:]
            if ctx.due():
                pq_check(ctx, q, m, cap)
        pq_check(ctx, q, m, cap, True)
        n = len(m)
        while m:
            ctx.at("draining", m)
            pq_take(ctx, q, m, len(m) % 2 == 0)
            if len(m) < 24 or len(m) % 29 == 0:
                pq_check(ctx, q, m, cap)
        if "evicted" in ctx.tags and after:
            ctx.tag("dequeued after eviction")
        ctx.nontrivial = (evicted >= 1 and (n >= 1 or after >= 1)
                          or cap == INF and len(case["ops"]) >= 5 and n >= 2)


register("S05", "bounded and unbounded histories; top, capacity, eviction, "
         "warnings and the drawing with and without priorities compared with "
         "a list model after every step, then drained. Non-trivial: an item "
         "was evicted and another dequeued later, or an unbounded history of "
         "five or more operations.", [(PQBounded(), 12000, 250000)])


# ----------------------------------------------------------- drawing/reject
class DrawTarget(Target):
    """Drawing after operations, with rejected calls interleaved."""
    sparse = True

    def __init__(self, kind):
        self.kind = kind
        self.name = "draw-" + kind

    def gen(self, dec):
        prof = dec.below(8)
        cap = gen_cap(dec)
        ops, n = [], 80
        if dec.chance(12):
            cap = "none" if dec.chance(200) else 100
            n += size(dec, 130)
            ops = [("put", dec.chance(128), value(dec, prof))
                   for _ in range(n - 80)]
        while dec.left:
            k = dec.below(10)
            if k < 4:
                ops.append(("put", dec.chance(128), value(dec, prof)))
            elif k < 8:
                ops.append(("take", dec.chance(128)))
            elif k == 8 and dec.chance(128):
                ops.append(("clear",))
            else:
                ops.append(("bad", dec.below(256), dec.below(16)))
        return {"cap": cap, "ops": ops[:n]}

    def texts(self, m):
        t = [str(x) for x in m]
        return t[::-1] if self.kind == "stack" else t

    def run(self, case, ctx):
        kind = self.kind
        widths, drawn_after_take, bad = set(), 0, 0
        if kind == "pq":
            q, cap = build(ctx, kind, case["cap"])
            m = []
        else:
            sim = Sim(ctx, kind, case["cap"])
            cap = sim.cap
        for i, op in enumerate(case["ops"]):
            if kind != "pq":
                m = sim.m
            ctx.at(op, "on", m, "capacity", cap)
            if op[0] == "put":
                if kind == "pq":
                    full = len(m) == cap
                    p = i if op[1] else -i
                    ctx.sut(q.enqueue, op[2], p)
                    ctx.drain()
                    if full and m:
                        m.pop()
                    if cap > 0:
                        m.insert(0, (esc(op[2]), p))
                else:
                    sim.put(op[1], op[2])
            elif op[0] == "take":
                drawn_after_take += bool(m)
                if kind == "pq":
                    pq_take(ctx, q, m, op[1])
                else:
                    sim.take(op[1])
            elif op[0] == "clear":
                if kind == "pq":
                    ctx.sut(q.clear)
                    del m[:]
                else:
                    sim.clear()
            else:
                self.reject(ctx, q if kind == "pq" else sim.obj, op[1],
                            op[2], len(m) == cap)
                bad += 1
            if not ctx.due() and i < len(case["ops"]) - 1:
                continue
            if kind != "pq":
                m = sim.m
            ctx.at("drawing after", op, m)
            if kind == "pq":
                check_drawing(ctx, kind, q, [str(x) for x, _ in m])
                widths |= {len(str(x)) for x, _ in m}
                ctx.eq("len", ctx.sut(len, q), len(m))
                ctx.drain()
            else:
                check_drawing(ctx, kind, sim.obj, self.texts(sim.m))
                widths |= {len(str(x)) for x in sim.m}
                ctx.drain()
                sim.check()
            if not m:
                ctx.tag("drawn empty")
        ctx.tag("rejected", bad)
        ctx.nontrivial = len(widths) >= 1 and drawn_after_take >= 1

    def reject(self, ctx, o, k, j, full):
        cls = classes()[self.kind]
        item, err = bad_item(j)
        what = k % 4
        badcap = ["1", None, True, [1], (2,)][j % 5]
        if what == 0:
            ctx.raises(TypeError, cls, badcap)
            ctx.raises(ValueError, cls, -1 - j)
            ctx.raises(ValueError, cls, -0.5 - j)
            return
        if what == 1 and self.kind == "pq":
            ctx.raises(TypeError, o.enqueue, 1, ["a", (1,), True, [2]][j % 4])
            ctx.raises(TypeError, o.enqueue, 1,
                       priority=["a", (1,), False, 1j][j % 4])
            return
        if self.kind == "stack":
            if full:
                err = (OverflowError, err)
            ctx.raises(err, o.push, item)
        elif self.kind == "deque":
            ctx.raises(err, o.append_left, item)
            ctx.raises(err, o.append_right, item)
        elif self.kind == "queue":
            ctx.raises(err, o.enqueue, item)
        else:
            ctx.raises(err, o.enqueue, item, j)


register("S06", "drawings compared with an independent renderer after every "
         "operation, with invalid items, priorities and capacities "
         "interleaved. Non-trivial: a removal from a non-empty container was "
         "followed by a drawing, and at least one item was drawn.",
         [(DrawTarget(k), 3500, 80000)
          for k in ("stack", "queue", "deque", "pq")])
