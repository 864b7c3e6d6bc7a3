"""C01-C05, C07: guarantees shared by all structures."""
import random

from pbt.core import Discard, esc, numbers, same, short, value
from pbt.targets import Target, register
from pbt.targets import kinds as K
from pbt.targets.lists import bad_item

INF = float("inf")


def diff(ctx, what, a, b):
    """Compare two snapshots."""
    for (n, x), (m, y) in zip(a, b):
        if n != m or not same(x, y):
            ctx.ok(f"{what}: {n} is {short(x)}, want {short(y)}", False)
    ctx.ok(f"{what}: different queries", len(a) == len(b))


def apply(ctx, kind, obj, op, seed):
    """Change an object under a fixed random state; outcome as data. A
    change that fails is another property's matter."""
    random.seed(seed)
    r = K.capture(K.mutate, kind, obj, op)
    if r[0] == "error" and r[1] not in ("OverflowError",):
        raise Discard(f"setup: {kind} {op} raised {r[1]}")
    return r


# --------------------------------------------------------------------- C01
class PureTarget(Target):
    """Twins with the same history; only one is questioned in between, its
    answers spoilt afterwards. They must stay indistinguishable."""
    name = "pure"
    sparse = True

    def gen(self, dec):
        kind = dec.pick(K.MUTABLE)
        return {"kind": kind, "seed": dec.below(1000),
                "cap": dec.pick([None, None, 1, 3, 6]),
                "ask": [dec.rng(-5, 9) for _ in range(3)],
                "lookups": dec.chance(180),
                "ops": K.gen_muts(dec, kind, 40)}

    def run(self, case, ctx):
        kind, seed = case["kind"], case["seed"]
        ask = K.ask_values(kind, case["ask"])
        a = ctx.setup(K.make, kind, seed, case["cap"])
        b = ctx.setup(K.make, kind, seed, case["cap"])
        splay = kind == "SplayTree"
        lookups = bool(case["lookups"])
        n = 0
        for i, op in enumerate(case["ops"]):
            ctx.at(kind, "asked before", op)
            if ctx.due():
                self.question(ctx, kind, a, ask, lookups, i)
            ctx.at(kind, op)
            ra = apply(ctx, kind, a, op, seed + i)
            rb = apply(ctx, kind, b, op, seed + i)
            ctx.ok(f"{op} gives {short(ra)} on the questioned {kind} and "
                   f"{short(rb)} on its twin", same(ra, rb))
            n = max(n, len(a))
            if splay and lookups:
                ctx.eq("contents of the questioned splay tree",
                       ctx.sut(K.contents, kind, a),
                       ctx.sut(K.contents, kind, b))
        ctx.at(kind, "at the end")
        if ctx.look % 2 == 0:
            self.question(ctx, kind, a, ask, lookups, 1)
        if splay and lookups:
            ctx.eq("contents of the questioned splay tree",
                   ctx.sut(K.contents, kind, a), ctx.sut(K.contents, kind, b))
        else:
            random.seed(7)
            sa = K.snapshot(kind, a, ask)
            random.seed(7)
            sb = K.snapshot(kind, b, ask)
            diff(ctx, f"questioned {kind} against its twin", sa, sb)
        ctx.tag(kind)
        ctx.nontrivial = n >= 2 and len(case["ops"]) >= 3

    def question(self, ctx, kind, a, ask, lookups, i):
        state = random.getstate()
        qs = K.queries(kind, a, ask, lookups or kind != "SplayTree")
        reshaping = kind == "SplayTree" and lookups
        first = [(n, K.capture(f)) for n, f in qs]
        keep = [(n, copy_answer(x)) for n, x in first]
        for n, x in first:
            if not n.startswith(ITEM_QUERIES):
                spoil(x[1])
        if i % 3 == 1:
            qs = qs[::-1]
            keep = keep[::-1]
        again = [(n, K.capture(f)) for n, f in qs]
        if reshaping:
            stable = ("len", "is_empty", "inorder_traverse", "get_min",
                      "get_max", "traverse('inorder')")
            keep = [x for x in keep if x[0] in stable
                    or x[0].startswith("in(")]
            again = [x for x in again if x[0] in stable
                     or x[0].startswith("in(")]
        diff(ctx, f"{kind} asked twice", again, keep)
        random.setstate(state)


def copy_answer(x):
    if isinstance(x, list):
        return [copy_answer(i) for i in x]
    if isinstance(x, tuple):
        return tuple(copy_answer(i) for i in x)
    return x


# these hand out a stored item, which may itself be a list
ITEM_QUERIES = ("peek", "top", "get_left", "get_right", "getitem", "get_min",
                "get_max")


def spoil(x):
    """Ruin a list that was handed out (stored list items are left)."""
    if type(x) is list:
        x.reverse()
        x.append("junk")
        x[0:1] = ["junk", "junk"]
        del x[2:]


class PureFixed(Target):
    """The same for structures that are made whole."""
    name = "pure-fixed"

    def gen(self, dec):
        kind = dec.pick(K.FIXED)
        return {"kind": kind, "data": K.gen_fixed(dec, kind),
                "ask": [dec.below(10) for _ in range(3)]}

    def run(self, case, ctx):
        kind = case["kind"]
        if not case["data"]:
            raise Discard
        if kind == "SuffixTrie" and (type(case["data"]) is not str
                                     or not case["data"].isalnum()):
            raise Discard
        ask = K.ask_values(kind, case["ask"])
        a = ctx.setup(K.make_fixed, kind, case["data"])
        b = ctx.setup(K.make_fixed, kind, case["data"])
        ctx.at(kind, case["data"])
        for i in range(2):
            PureTarget.question(None, ctx, kind, a, ask, True, i)
            diff(ctx, f"questioned {kind} against its twin",
                 K.snapshot(kind, a, ask), K.snapshot(kind, b, ask))
            if kind == "BinaryTree":
                ctx.setup(a.invert)
                ctx.setup(b.invert)
        ctx.tag(kind)
        ctx.nontrivial = len(case["data"]) >= 3


register("C01", "twin structures of 19 kinds with one history under the same "
         "random states; one is asked everything between changes, the lists "
         "it hands out are ruined, and asked again (in opposite order every "
         "third time); answers, outcomes of later changes and final "
         "snapshots must coincide. Non-trivial: two or more items held and "
         "three or more changes (whole structures: three or more parts).",
         [(PureTarget(), 5000, 120000), (PureFixed(), 2000, 50000)])


# --------------------------------------------------------------------- C08
ITERABLE = K.LISTS + ("SkipList",) + K.SEARCH + K.HEAPS + K.TRIES
STEPS = ("open", "open", "next", "next", "next", "run", "ask", "full", "nest")


class IterTarget(Target):
    """Several iterators over one instance, advanced in any order, with
    questions in between; afterwards the instance is changed and the same
    starts over. A twin with the same history is never iterated over."""
    name = "iterators"
    kinds = ITERABLE

    def gen(self, dec):
        kind = dec.pick(self.kinds)
        case = {"kind": kind, "seed": dec.below(1000),
                "ask": [dec.rng(-5, 9) for _ in range(2)]}
        case["steps"] = [(dec.pick(STEPS), dec.below(256), dec.below(64))
                         for _ in range(dec.pick([6, 12, 20, 30]))]
        self.gen_rest(dec, case)
        return case

    def gen_rest(self, dec, case):
        case["ops"] = K.gen_muts(dec, case["kind"], 40)

    def run(self, case, ctx):
        kind, seed = case["kind"], case["seed"]
        a = ctx.setup(K.make, kind, seed)
        b = ctx.setup(K.make, kind, seed)
        ops, steps = case["ops"], case["steps"]
        rounds = max(1, min(3, len(steps) // 4))
        left = []
        for r in range(rounds):
            for i, op in enumerate(ops[r::rounds]):
                ctx.at(kind, op)
                ra = apply(ctx, kind, a, op, seed + i)
                rb = apply(ctx, kind, b, op, seed + i)
                ctx.ok(f"{op} gives {short(ra)} on the {kind} iterated over "
                       f"and {short(rb)} on its twin", same(ra, rb))
            left.append(self.walk(ctx, case, a, b, steps[r::rounds]))
            if kind in K.TRIES + K.SEARCH:
                diff(ctx, f"{kind} after iterations", K.snapshot(
                    kind, a, (), False), K.snapshot(kind, b, (), False))

    def walk(self, ctx, case, a, b, steps):
        kind = case["kind"]
        want = ctx.setup(b.to_list)
        ask = K.ask_values(kind, case["ask"])
        qs = K.queries(kind, a, ask, kind != "SplayTree")
        its = []                               # [iterator, position]

        def advance(it):
            try:
                x = ctx.sut(next, it[0], StopIteration)
            except StopIteration:
                x = StopIteration
            w = want[it[1]] if it[1] < len(want) else StopIteration
            if w is StopIteration or x is StopIteration:
                ctx.ok(f"iterator at {it[1]} of {short(want)} gives "
                       f"{short(x)}", x is w)
            else:
                ctx.eq(f"item {it[1]} of an iterator over {short(want)}",
                       x, w)
                it[1] += 1

        for name, j, k in steps:
            ctx.at(kind, len(want), "items, iterators at",
                   [i[1] for i in its], name, j, k)
            if name == "open" or not its:
                its.append([ctx.sut(iter, a), 0])
            if name == "next":
                for _ in range(1 + k % 4):
                    advance(its[j % len(its)])
            elif name == "run":
                it = its[j % len(its)]
                for _ in range(len(want) + 2):
                    advance(it)
            elif name == "ask":
                K.capture(qs[j % len(qs)][1])
            elif name == "full":
                ctx.eq("full iteration beside others", ctx.sut(list, a),
                       want)
            elif name == "nest" and len(want) <= 12:
                got = ctx.sut(lambda: [(x, y) for x in a for y in a])
                ctx.eq("nested iteration", got,
                       [(x, y) for x in want for y in want])
        live = sum(0 < i[1] for i in its)
        if live >= 2 and len(want) >= 2:
            ctx.tag("several at once")
            ctx.nontrivial = True
        ctx.tag(kind)
        return its


class IterFixed(IterTarget):
    name = "iterators-fixed"
    kinds = K.FIXED

    def gen_rest(self, dec, case):
        case["data"] = K.gen_fixed(dec, case["kind"])

    def run(self, case, ctx):
        kind = case["kind"]
        if not case["data"]:
            raise Discard
        if kind == "SuffixTrie" and (type(case["data"]) is not str
                                     or not case["data"].isalnum()):
            raise Discard
        a = ctx.setup(K.make_fixed, kind, case["data"])
        b = ctx.setup(K.make_fixed, kind, case["data"])
        self.walk(ctx, case, a, b, case["steps"])
        diff(ctx, f"{kind} after iterations", K.snapshot(kind, a),
             K.snapshot(kind, b))


register("C08", "several iterators over one instance of 15 kinds, opened, "
         "advanced and exhausted in generated interleavings with questions, "
         "full and nested iterations, against the listing of a twin that was "
         "never iterated over; then changed (old iterators abandoned midway) "
         "and again. Non-trivial: two or more iterators under way over two "
         "or more items.",
         [(IterTarget(), 4000, 90000), (IterFixed(), 1500, 30000)])


# --------------------------------------------------------------------- C02
class IsolationTarget(Target):
    """Two live instances interleaved, against each run alone."""
    name = "isolation"

    def gen(self, dec):
        ka = dec.pick(K.MUTABLE)
        kb = ka if dec.chance(190) else dec.pick(K.MUTABLE)
        ca, cb = dec.pick([None, 1, 3]), dec.pick([None, 2, 5])
        seed = dec.below(1000)
        order = [dec.below(3) for _ in range(12)]
        half = dec.left // 2
        from pbt.core import Dec
        d1 = Dec(dec.data[dec.pos:dec.pos + half])
        d2 = Dec(dec.data[dec.pos + half:])
        return {"ka": ka, "kb": kb, "ca": ca, "cb": cb, "seed": seed,
                "order": order, "a": K.gen_muts(d1, ka, 40),
                "b": K.gen_muts(d2, kb, 40)}

    def run(self, case, ctx):
        ka, kb, seed = case["ka"], case["kb"], case["seed"]
        order = case["order"] or [0]
        solo = []
        for kind, cap, ops in ((ka, case["ca"], case["a"]),
                               (kb, case["cb"], case["b"])):
            obj = ctx.setup(K.make, kind, seed, cap)
            log = []
            for i, op in enumerate(ops):
                log.append(apply(ctx, kind, obj, op, seed + i))
                log.append(K.snapshot(kind, obj)[:4])
            solo.append((log, K.snapshot(kind, obj, (0, "a"))))
        objs = [ctx.setup(K.make, ka, seed, case["ca"]),
                ctx.setup(K.make, kb, seed, case["cb"])]
        logs, at, ks = [[], []], [0, 0], (ka, kb)
        seqs = (case["a"], case["b"])
        turn = 0
        while at[0] < len(seqs[0]) or at[1] < len(seqs[1]):
            w = order[turn % len(order)] % 2
            turn += 1
            if at[w] >= len(seqs[w]):
                w = 1 - w
            op = seqs[w][at[w]]
            random.seed(seed + at[w])
            logs[w].append(K.capture(K.mutate, ks[w], objs[w], op))
            logs[w].append(K.snapshot(ks[w], objs[w])[:4])
            at[w] += 1
        for w in (0, 1):
            ctx.at("interleaved", ka, kb)
            for i, (x, y) in enumerate(zip(logs[w], solo[w][0])):
                ctx.ok(f"step {i // 2} of {ks[w]} {seqs[w][i // 2]}: "
                       f"{short(x)} interleaved, {short(y)} alone",
                       same(x, y))
            diff(ctx, f"{ks[w]} interleaved with another",
                 K.snapshot(ks[w], objs[w], (0, "a")), solo[w][1])
        ctx.tag("same kind" if ka == kb else "different kinds")
        ctx.nontrivial = len(case["a"]) >= 3 and len(case["b"]) >= 3


class IsolationFixed(Target):
    """Structures made whole, alive together, against each alone."""
    name = "isolation-fixed"

    def gen(self, dec):
        from pbt.core import Dec
        kind = dec.pick(K.FIXED + ("SuffixTrie",))
        n, same_kind = dec.rng(2, 4), dec.chance(200)
        order = [dec.below(256) for _ in range(n)]
        out = []
        for _ in range(n):
            k = kind if same_kind else dec.pick(K.FIXED)
            part = Dec(dec.data[dec.pos:dec.pos + 40])
            dec.pos += 40
            out.append((k, K.gen_fixed(part, k)))
        return {"made": out, "order": order, "keep": dec.below(2)}

    def run(self, case, ctx):
        made, order = case["made"], case["order"] or [0]
        ask = {k: K.ask_values(k, [3, 5]) for k, _ in made}
        alone, kept = [], []
        for k, data in made:
            obj = ctx.setup(K.make_fixed, k, data)
            alone.append(K.snapshot(k, obj, ask[k]))
            if case["keep"]:
                kept.append(obj)
            del obj
        objs = [ctx.setup(K.make_fixed, k, data) for k, data in made]
        n = len(made)
        turns = [x % n for x in order] + list(range(n)) if n else []
        for w in turns:
            k = made[w][0]
            ctx.at("one of", made)
            diff(ctx, f"number {w}, {k}, while the others live",
                 K.snapshot(k, objs[w], ask[k]), alone[w])
        for w in range(n):
            if made[w][0] == "BinaryTree" and case["keep"]:
                ctx.setup(objs[w].invert)
                for v in range(n):
                    if v != w:
                        diff(ctx, f"number {v} after number {w} was inverted",
                             K.snapshot(made[v][0], objs[v],
                                        ask[made[v][0]]), alone[v])
                ctx.setup(objs[w].invert)
        ctx.tag(made[0][0] if made else "none")
        ctx.nontrivial = n >= 2 and all(len(d) >= 3 for _, d in made)


class ClearTarget(Target):
    """History, clear, second history; against a new instance."""
    name = "clear"

    def gen(self, dec):
        kind = dec.pick(K.MUTABLE)
        cap = dec.pick([None, 0, 1, 3, 6])
        from pbt.core import Dec
        seed, twice = dec.below(1000), dec.chance(60)
        half = dec.left // 2
        d1 = Dec(dec.data[dec.pos:dec.pos + half])
        d2 = Dec(dec.data[dec.pos + half:])
        return {"kind": kind, "cap": cap, "seed": seed, "twice": twice,
                "a": K.gen_muts(d1, kind, 40), "b": K.gen_muts(d2, kind, 40)}

    def run(self, case, ctx):
        kind, seed = case["kind"], case["seed"]
        ask = K.ask_values(kind, [3])
        a = ctx.setup(K.make, kind, seed, case["cap"])
        big = 0
        for i, op in enumerate(case["a"]):
            apply(ctx, kind, a, op, seed + i)
            big = max(big, ctx.setup(len, a))
        ctx.at("clearing", kind, "after", case["a"])
        ctx.sut(a.clear)
        if case["twice"]:
            ctx.sut(a.clear)
        b = ctx.setup(K.make, kind, seed, case["cap"])
        if kind not in K.TRIES:
            ctx.eq("len after clear", ctx.sut(len, a), 0)
        ctx.eq("is_empty after clear", ctx.sut(a.is_empty), True)
        lookups = kind != "SplayTree"
        diff(ctx, f"cleared {kind} against a new one",
             K.snapshot(kind, a, ask), K.snapshot(kind, b, ask))
        for i, op in enumerate(case["b"]):
            ctx.at("cleared", kind, "then", op)
            random.seed(seed + i)
            ra = K.capture(K.mutate, kind, a, op)
            rb = apply(ctx, kind, b, op, seed + i)
            ctx.ok(f"{op} on a cleared {kind} gives {short(ra)}, on a new "
                   f"one {short(rb)}", same(ra, rb))
            if i % 4 == 3:
                diff(ctx, f"cleared and refilled {kind}",
                     K.snapshot(kind, a, ask, lookups),
                     K.snapshot(kind, b, ask, lookups))
        diff(ctx, f"cleared and refilled {kind}",
             K.snapshot(kind, a, ask), K.snapshot(kind, b, ask))
        ctx.tag(kind)
        ctx.nontrivial = big >= 2 and len(case["b"]) >= 2


class ClearFixed(Target):
    name = "clear-fixed"

    def gen(self, dec):
        kind = dec.pick(("BinaryTree", "Tree"))
        return {"kind": kind, "data": K.gen_fixed(dec, kind)}

    def run(self, case, ctx):
        import extra
        kind = case["kind"]
        if kind not in ("BinaryTree", "Tree"):
            raise Discard
        a = ctx.setup(K.make_fixed, kind, case["data"])
        other = ctx.setup(K.make_fixed, kind, case["data"])
        before = K.snapshot(kind, other, (1, "a"))
        ctx.at("clearing", kind, case["data"])
        ctx.sut(a.clear)
        ctx.eq("is_empty", ctx.sut(a.is_empty), True)
        ctx.eq("len", ctx.sut(len, a), 0)
        diff(ctx, f"cleared {kind} against a new one",
             K.snapshot(kind, a, (1, "a")),
             K.snapshot(kind, getattr(extra, kind)(), (1, "a")))
        diff(ctx, f"another {kind}", K.snapshot(kind, other, (1, "a")),
             before)
        ctx.nontrivial = len(case["data"]) >= 2


register("C02", "interleaved histories of two instances (mostly of one kind) "
         "against the same histories run alone (structures made whole: two to "
         "four alive together against each alone); and history, clear, second "
         "history against a new instance, under equal random states. "
         "Non-trivial: three or more changes of each; or two or more items "
         "before the clear and two or more changes after it.",
         [(IsolationTarget(), 3000, 70000), (ClearTarget(), 4000, 100000),
          (ClearFixed(), 500, 10000), (IsolationFixed(), 800, 20000)])


# --------------------------------------------------------------------- C03
NONNUM = ["a", "1", (1,), True, False, [1], 1j, b"1", {1: 2}]
NONTEXT = [1, 1.5, ("a",), ["a"], True, b"a"]


class RejectTarget(Target):
    name = "reject"
    sparse = True

    def gen(self, dec):
        kind = dec.pick(K.SEARCH + K.HEAPS + K.TRIES)
        out = []
        for m in K.gen_muts(dec, kind, 30):
            out.append(m)
            if dec.chance(100):
                out.append(("bad", dec.below(256), dec.below(16)))
        out.append(("bad", dec.below(256), dec.below(16)))
        return {"kind": kind, "seed": dec.below(100), "ops": out}

    def run(self, case, ctx):
        kind, seed = case["kind"], case["seed"]
        if kind not in K.SEARCH + K.HEAPS + K.TRIES:
            raise Discard
        ask = K.ask_values(kind, [3, 5])
        a = ctx.setup(K.make, kind, seed)
        b = ctx.setup(K.make, kind, seed)
        bad = 0
        for i, op in enumerate(case["ops"]):
            if op[0] == "bad":
                ctx.at("rejecting", op, "by", kind)
                due = ctx.due()           # if not, the twin tells
                before = due and self.inspect(kind, a)
                self.reject(ctx, kind, a, op[1], op[2])
                after = due and self.inspect(kind, a)
                ctx.ok(f"rejected call changed {short(before)} to "
                       f"{short(after)}", same(before, after))
                bad += 1
            else:
                ctx.at(kind, op)
                random.seed(seed + i)
                ra = K.capture(K.mutate, kind, a, op)
                rb = apply(ctx, kind, b, op, seed + i)
                ctx.ok(f"{op} gives {short(ra)} after rejected calls, "
                       f"{short(rb)} without", same(ra, rb))
        ctx.at(kind, "at the end")
        diff(ctx, f"{kind} after rejected calls",
             K.snapshot(kind, a, ask), K.snapshot(kind, b, ask))
        ctx.tag(kind)
        ctx.tag("rejected", bad)
        ctx.nontrivial = bad >= 1 and len(case["ops"]) - bad >= 2

    def inspect(self, kind, a):
        c = [K.capture(len, a), K.capture(repr, a)]
        c.append(K.capture(K.contents, kind, a))
        return c

    def reject(self, ctx, kind, o, k, j):
        import extra
        cls = getattr(extra, kind)
        item, err = bad_item(j)
        what = k % 6
        ctx.tag(f"kind of rejection {what}")
        ctx.drain()
        if kind in K.TRIES:
            non = NONTEXT[j % len(NONTEXT)]
            if what == 0:
                ctx.raises(TypeError, o.insert, non)
            elif what == 1:
                ctx.raises(ValueError, o.insert,
                           ["", " ", "  ", "\t", "\n \t"][j % 5])
            elif what == 2:
                ctx.raises(err, o.insert, item)
            elif what == 3:
                ctx.eq(f"{non!r} in", ctx.sut(o.__contains__, non), False)
                ctx.eq("None in", ctx.sut(o.__contains__, None), False)
                ctx.eq(f"has_prefix({non!r})", ctx.sut(o.has_prefix, non),
                       False)
            elif what == 4:
                ctx.sut(o.remove, non)
                ctx.expect_warning(True, f"removing {non!r}")
            else:
                ctx.raises(TypeError, o.auto_complete, non)
                ctx.sut(o.remove, "")
            return
        non = NONNUM[j % len(NONNUM)]
        if what == 0:
            ctx.raises(TypeError, o.insert, non)
        elif what == 1:
            ctx.raises(err, o.insert, item)
        elif what == 2:
            if kind == "SplayTree":
                r = K.capture(o.__contains__, non)
                ctx.ok(f"{non!r} in gives {r}", r[:2] in (
                    ("value", False), ("error", "TypeError")))
            else:
                ctx.eq(f"{non!r} in", ctx.sut(o.__contains__, non), False)
                ctx.eq("None in", ctx.sut(o.__contains__, None), False)
        elif what == 3:
            ctx.sut(o.remove, non)
            ctx.expect_warning(True, f"removing {non!r}")
        elif what == 4:
            src = [5, 1.5, True, object()][j % 4]
            if kind in K.HEAPS:
                ctx.raises(TypeError, cls.heapify, src)
                ctx.raises(TypeError, cls.heapify, [1, non, 2])
                ctx.raises(ValueError, cls.heapify, [1, None])
            else:
                ctx.raises(TypeError, cls, src)
                ctx.raises(TypeError, cls, [1, non, 2])
                ctx.raises(ValueError, cls, [1, None])
        elif kind == "Treap":
            ctx.raises(TypeError, o.insert, j, NONNUM[(j + k) % 9])
            ctx.raises(TypeError, o.insert, j, priority="1")
        else:
            ctx.raises(ValueError, o.insert, None)


class SuffixReject(Target):
    """Making a suffix trie of what is no text, beside one that works."""
    name = "suffix-reject"

    def gen(self, dec):
        from pbt.core import value
        from pbt.targets.suffix import ALPHS, gen_text
        return {"s": gen_text(dec, ALPHS, 12), "bad": [
            value(dec, dec.below(9)) for _ in range(dec.rng(1, 3))],
            "at": dec.below(16)}

    def run(self, case, ctx):
        from pbt.targets.lists import bad_item
        from pbt.targets.suffix import domain
        from extra import SuffixTrie
        s = domain(case["s"])
        t = ctx.setup(SuffixTrie, s)
        before = K.snapshot("SuffixTrie", t, (s, s[:2], "q"))
        kept = [v for v in case["bad"] if type(v) is not str]
        for v in kept + [[s], (s,), s.encode(), len(s), None, True, ["a"], {s},
                         iter(s), {s: 1}]:
            ctx.at("a suffix trie of", v)
            ctx.raises(ValueError if v is None else TypeError, SuffixTrie, v)
        ctx.at("a suffix trie of nothing")
        ctx.raises(ValueError, SuffixTrie, "")
        item, err = bad_item(case["at"])
        ctx.at("a suffix trie of", type(item))
        ctx.raises(err, SuffixTrie, item)
        ctx.raises(TypeError, SuffixTrie, t)
        diff(ctx, "a suffix trie after rejected ones",
             K.snapshot("SuffixTrie", t, (s, s[:2], "q")), before)
        ctx.nontrivial = len(s) >= 3 and bool(kept)


register("C03", "twin structures with one history; one also receives invalid "
         "insertions, lookups, removals, priorities and constructions from a "
         "table; error kinds, unchanged contents and drawing, and equal later "
         "behaviour are checked. Non-trivial: one rejected call and two or "
         "more changes (suffix tries: three or more characters and a drawn "
         "value that is no text).",
         [(RejectTarget(), 7000, 160000), (SuffixReject(), 400, 8000)])


# --------------------------------------------------------------------- C04
class EmptyTarget(Target):
    name = "empty"

    def gen(self, dec):
        kind = dec.pick(K.MUTABLE)
        return {"kind": kind, "way": dec.below(4), "seed": dec.below(1000),
                "style": dec.below(4),
                "a": K.gen_muts(dec, kind, dec.pick([1, 2, 5, 14])),
                "again": [dec.rng(-4, 9) for _ in range(dec.below(5))]}

    def run(self, case, ctx):
        kind, seed = case["kind"], case["seed"]
        o = ctx.setup(K.make, kind, seed)
        way = case["way"] % 4
        put = 0
        if way:
            for i, op in enumerate(case["a"]):
                apply(ctx, kind, o, op, seed + i)
            put = ctx.setup(len, o) - (kind in K.TRIES)
            ctx.at("emptying", kind, "way", way, "after", case["a"])
            if way == 1:
                ctx.sut(o.clear)
            else:
                self.drain(ctx, kind, o, case["style"])
        ctx.at("empty", kind, "way", way, "after", case["a"])
        self.check(ctx, kind, o)
        fresh = ctx.setup(K.make, kind, seed)
        for i, k in enumerate(case["again"]):
            op = self.add_op(kind, k)
            ctx.at("adding", op, "to the emptied", kind)
            random.seed(seed + i)
            ra = K.capture(K.mutate, kind, o, op)
            rb = apply(ctx, kind, fresh, op, seed + i)
            ctx.ok(f"{op}: {short(ra)}, on a new one {short(rb)}",
                   same(ra, rb))
            diff(ctx, f"emptied and refilled {kind}",
                 K.snapshot(kind, o), K.snapshot(kind, fresh))
        ctx.tag(f"{kind} way {way}")
        ctx.nontrivial = put >= 1 or way == 0 and len(case["again"]) >= 2

    def add_op(self, kind, k):
        if kind in K.LISTS:
            return ("end", k)
        if kind == "PriorityQueue":
            return ("put", True, k, k)
        if kind in K.LINEAR:
            return ("put", True, k)
        if kind == "Treap":
            return ("ins", k, None)
        if kind in K.TRIES:
            return ("ins", "ab" * (k % 3 + 1) + str(k))
        return ("ins", k)

    def drain(self, ctx, kind, o, style):
        for _ in range(1000):
            c = ctx.setup(K.contents, kind, o) if kind not in K.LINEAR \
                else None
            n = len(c) if c is not None else ctx.setup(len, o)
            if not n:
                return
            if kind in K.LINEAR:
                ctx.sut(K.mutate, kind, o, ("take", style % 2 == 0))
            elif kind in K.LISTS:
                f = [o.remove_front, o.remove_end,
                     lambda: o.remove(c[n // 2]),
                     lambda: o.__delitem__(n - 1)][style % 4]
                ctx.sut(f)
            elif kind in K.HEAPS:
                f = [o.remove_min, o.remove_max, lambda: o.remove(c[n // 2]),
                     lambda: o.remove(c[0])][style % 4]
                ctx.sut(f)
            else:
                i = [0, n - 1, n // 2, n // 3][style % 4]
                ctx.sut(o.remove, c[i])
        raise Discard("setup: cannot empty")

    def check(self, ctx, kind, o):
        ctx.drain()
        e = {"is_empty": True}
        sut = ctx.sut
        ctx.eq("is_empty", sut(o.is_empty), True)
        if kind not in K.TRIES:
            ctx.eq("len", sut(len, o), 0)
        if kind in K.LISTS:
            ctx.eq("list", sut(list, o), [])
            ctx.eq("to_list", sut(o.to_list), [])
            ctx.eq("count", sut(o.count, 1), 0)
            ctx.eq("in", sut(o.__contains__, 1), False)
            for f in (o.copy, o.reverse):
                ctx.eq(f.__name__, sut(lambda: f().to_list()), [])
            for f in (o.rotate_left, o.rotate_right):
                ctx.eq(f.__name__, sut(lambda: f(3, False).to_list()), [])
                sut(f, 2)
            for f in (o.remove_front, o.remove_end):
                sut(f)
            sut(o.remove, 1)
            sut(o.remove, 1, True)
            ctx.eq("split", sut(lambda: [p.to_list() for p in o.split(0)]),
                   [[], []])
            ctx.raises(IndexError, o.__getitem__, 0)
            ctx.raises(IndexError, o.__setitem__, 0, 1)
            if kind != "CircularLinkedList":
                ctx.eq("slice", sut(lambda: o[:].to_list()), [])
                ctx.eq("slice", sut(lambda: o[::-1].to_list()), [])
                ctx.raises(IndexError, o.__delitem__, 0)
                ctx.raises(IndexError, o.__getitem__, -1)
            from pbt.targets.lists import draw_list
            self.drawing(ctx, o, draw_list(K.SHORT[kind], []))
        elif kind in K.LINEAR:
            ctx.eq("is_full", sut(o.is_full), False)
            names = {"Stack": ["peek"], "Queue": ["top"],
                     "Deque": ["get_left", "get_right"],
                     "PriorityQueue": ["top"]}[kind]
            for n in names:
                ctx.raises(IndexError, getattr(o, n))
            names = {"Stack": ["pop"], "Queue": ["dequeue"],
                     "Deque": ["pop_left", "pop_right"],
                     "PriorityQueue": ["dequeue"]}[kind]
            for n in names:
                ctx.eq(n, sut(getattr(o, n)), None)
                ctx.expect_warning(True, f"{n} of an empty {kind}")
            from pbt.targets.containers import boxes
            self.drawing(ctx, o, boxes({"Stack": "stack", "Deque": "deque"
                                        }.get(kind, "queue"), []))
        elif kind == "SkipList":
            ctx.eq("list", sut(list, o), [])
            ctx.eq("to_list", sut(o.to_list), [])
            ctx.eq("in", sut(o.__contains__, 1), False)
            sut(o.remove, 1)
            ctx.raises(IndexError, o.__getitem__, 0)
            ctx.raises(IndexError, o.__delitem__, 0)
            ctx.eq("height", sut(o.get_height), 1)
            sut(repr, o)
        elif kind in K.HEAPS:
            ctx.eq("to_list", sut(o.to_list), [])
            ctx.eq("list", sut(list, o), [])
            ctx.eq("in", sut(o.__contains__, 1), False)
            for n in ("get_min", "get_max", "remove_min", "remove_max"):
                ctx.raises(IndexError, getattr(o, n))
            ctx.drain()
            sut(o.remove, 1)
            ctx.expect_warning(True, "removing from an empty heap")
            self.drawing(ctx, o, "/ \\")
        elif kind in K.SEARCH:
            self.tree(ctx, o)
            for n in ("get_min", "get_max"):
                ctx.raises(IndexError, getattr(o, n))
            ctx.eq("in", sut(o.__contains__, 1), False)
            ctx.drain()
            sut(o.remove, 1)
            ctx.expect_warning(True, "removing from an empty tree")
            if kind == "RedBlackTree":
                r = K.capture(o.get_black_height)
                ctx.ok(f"black height of an empty tree: {r}",
                       r[0] == "value" and type(r[1]) is int
                       and r[1] in (0, 1))
            self.drawing(ctx, o, "/ \\")
        else:
            for w in ("a", "ab", "", "}", "z"):
                ctx.eq("in", sut(o.__contains__, w), False)
                ctx.eq("has_prefix", sut(o.has_prefix, w), w == "")
                ctx.eq("auto_complete", sut(o.auto_complete, w), [])
                sut(o.remove, w)
            ctx.eq("to_list", sut(o.to_list), [])
            ctx.eq("list", sut(list, o), [])
            ctx.eq("levels", sut(o.get_nodes_per_level), [])
            ctx.eq("height", sut(o.get_height), 0)
            ctx.eq("leaves", sut(o.count_leaf_nodes), 0)
            ctx.eq("len", sut(len, o), 1)
            self.drawing(ctx, o, "--")
        ctx.eq("is_empty", sut(o.is_empty), e["is_empty"])

    def tree(self, ctx, o):
        sut = ctx.sut
        for n in ("to_list", "get_nodes_per_level", "preorder_traverse",
                  "inorder_traverse", "postorder_traverse",
                  "depth_first_traverse", "breadth_first_traverse",
                  "traverse", "get_leftside_view", "get_rightside_view"):
            ctx.eq(n, sut(getattr(o, n)), [])
        ctx.eq("list", sut(list, o), [])
        for n in ("get_height", "get_depth", "count_leaf_nodes"):
            ctx.eq(n, sut(getattr(o, n)), 0)
        for n in ("is_balanced", "is_perfect", "is_strict"):
            ctx.drain()
            ctx.eq(n, sut(getattr(o, n)), True)
            ctx.expect_warning(True, f"{n} of an empty tree")

    def drawing(self, ctx, o, want):
        got = ctx.sut(repr, o)
        g = [x.rstrip() for x in got.split("\n")]
        w = [x.rstrip() for x in want.split("\n")]
        ctx.ok(f"drawing of the empty structure is\n{got}\nwant\n{want}",
               g == w)


class EmptyTree(Target):
    name = "empty-tree"

    def gen(self, dec):
        return {"kind": dec.pick(("BinaryTree", "Tree")),
                "data": [(dec.below(5), dec.chance(128), dec.below(5))
                         for _ in range(dec.below(5))],
                "ask": value(dec, dec.below(8))}

    def run(self, case, ctx):
        import extra
        kind = case["kind"]
        if kind not in ("BinaryTree", "Tree"):
            raise Discard
        o = getattr(extra, kind)()
        if case["data"]:
            o = ctx.setup(K.make_fixed, kind, case["data"])
            ctx.sut(o.clear)
        ctx.at("empty", kind)
        ctx.eq("is_empty", ctx.sut(o.is_empty), True)
        ctx.eq("len", ctx.sut(len, o), 0)
        ctx.eq("in", ctx.sut(o.__contains__, case["ask"]), False)
        ctx.eq("in", ctx.sut(o.__contains__, None), False)
        if kind == "BinaryTree":
            EmptyTarget.tree(None, ctx, o)
            ctx.sut(o.invert)
            ctx.eq("drawing", ctx.sut(repr, o), "/ \\")
        else:
            for n in ("to_list", "get_nodes_per_level"):
                ctx.eq(n, ctx.sut(getattr(o, n)), [])
            ctx.eq("list", ctx.sut(list, o), [])
            for n in ("get_height", "get_depth", "count_leaf_nodes"):
                ctx.eq(n, ctx.sut(getattr(o, n)), 0)
            ctx.eq("drawing", ctx.sut(repr, o), "--")
        ctx.nontrivial = True


register("C04", "every growable kind made empty in four ways (new, cleared, "
         "emptied by removals in four orders), asked everything, offered "
         "removals, then refilled alongside a new instance. Non-trivial: "
         "something was stored before, or a new one was refilled with two or "
         "more items.",
         [(EmptyTarget(), 6000, 140000), (EmptyTree(), 300, 3000)])


# --------------------------------------------------------------------- C05
class SeedTarget(Target):
    name = "seeds"

    def gen(self, dec):
        kind = dec.pick(("SkipList", "Treap", "PriorityQueue"))
        ops = []
        for op in K.gen_muts(dec, kind, 50):
            if kind == "Treap" and op[0] == "ins":
                op = op[:2] + (None,) if dec.chance(200) else op
            ops.append(op)
        s1 = dec.pick([0, 0, 1, -1, dec.below(65536), dec.bigint()])
        return {"kind": kind, "s1": s1, "s2": dec.below(65536),
                "ops": ops, "init": numbers(
                    dec, dec.below(8), dec.pick([20, 70, 130])
                    if dec.chance(16) else dec.below(12))}

    def play(self, ctx, kind, seed, ops):
        """One run under one initial random state."""
        if kind == "Treap":
            random.seed(seed ^ 12345)
            o = ctx.setup(K.make, kind, seed)
        else:
            random.seed(seed)
            o = ctx.setup(K.make, kind)
        log = []
        for op in ops:
            r = K.capture(K.mutate, kind, o, op)
            if r[0] == "error":
                raise Discard(f"setup: {op} raised {r[1]}")
            log.append(r)
        return o, log, K.snapshot(kind, o, (0, 1, 2))

    def run(self, case, ctx):
        kind, ops = case["kind"], case["ops"]
        if kind not in K.RANDOM:
            raise Discard
        ctx.at(kind, ops)
        o1, l1, s1 = self.play(ctx, kind, case["s1"], ops)
        # same state, same operations: identical in every answer
        _, l2, s2 = self.play(ctx, kind, case["s1"], ops)
        ctx.ok("outcomes differ under one random state", same(l1, l2))
        diff(ctx, "rebuilt under the same random state", s2, s1)
        # another state: the same contents and answers
        o3, l3, _ = self.play(ctx, kind, case["s2"], ops)
        if kind != "PriorityQueue":
            ctx.ok("outcomes depend on randomness", same(l1, l3))
            ctx.eq("contents under another random state",
                   ctx.sut(K.contents, kind, o3),
                   ctx.sut(K.contents, kind, o1))
            for q in (0, 1, 2.5, -3):
                ctx.eq(f"{q} in", ctx.sut(o3.__contains__, q),
                       ctx.sut(o1.__contains__, q))
        ctx.eq("len under another random state", ctx.sut(len, o3),
               ctx.sut(len, o1))
        if kind == "Treap":
            self.treap(ctx, case)
        ctx.tag(kind)
        ctx.nontrivial = len(s1) > 0 and ctx.sut(len, o1) >= 3

    def treap(self, ctx, case):
        """Same input and seed, whatever the random source was before."""
        import extra
        init, s = list(case["init"]), case["s1"]
        random.seed(1)
        a = ctx.sut(extra.Treap, init, seed=s)
        random.seed(2)
        random.random()
        b = ctx.sut(extra.Treap, init, s)
        diff(ctx, "treap built from the same input and seed",
             K.snapshot("Treap", b), K.snapshot("Treap", a))
        top = getattr(a, "_root", None)
        st = [top] if top is not None else []
        while st:
            n = st.pop()
            p = n.get_priority()
            ctx.ok(f"automatic priority {p!r}",
                   type(p) is int and 0 <= p <= 100)
            st += [k for k in (n.get_left(), n.get_right()) if k is not None]


class DefaultPriority(Target):
    """Automatic priorities of priority queues."""
    name = "automatic"

    def gen(self, dec):
        return {"rs": dec.below(65536), "n": dec.rng(1, 140)}

    def run(self, case, ctx):
        import extra
        n = case["n"] % 150
        random.seed(case["rs"])
        q = extra.PriorityQueue()
        for i in range(n):
            ctx.sut(q.enqueue, f"x{i}")
        line = K.shown(q).split("\n")[1]
        got = {}
        for box in line.split("│")[1:-1]:
            item, p = box.strip().split("|P:")
            ctx.ok(f"automatic priority {p}", p.isdigit()
                   and 0 <= int(p) <= 100)
            got[item] = int(p)
        ctx.eq("items drawn (sorted)", sorted(got),
               sorted(f"x{i}" for i in range(n)))
        while got:
            x = ctx.sut(q.dequeue)
            ctx.ok(f"dequeued {x} of {got}", x in got
                   and got[x] == max(got.values()))
            del got[x]
        ctx.nontrivial = n >= 3


register("C05", "the same operations replayed under equal and different "
         "random states and compared by full snapshot (lanes and priorities "
         "included) or by contents; treaps built from equal input and seed; "
         "automatic priorities read back. Non-trivial: three or more items "
         "held at the end.",
         [(SeedTarget(), 4000, 100000), (DefaultPriority(), 500, 10000)])


# --------------------------------------------------------------------- C07
NUMERIC = ("SkipList",) + K.SEARCH + K.HEAPS


class IterableTarget(Target):
    name = "iterable"

    def gen(self, dec):
        kind = dec.pick(K.LISTS + NUMERIC)
        src = dec.below(10)
        n = dec.pick([0, 1, 2, 5, 12, 40])
        if dec.chance(14):
            n = dec.pick([70, 110, 150])
        prof = dec.below(8)
        if kind in NUMERIC:
            items = numbers(dec, prof, n)
        else:
            items = [value(dec, prof) for _ in range(n)]
        return {"kind": kind, "src": src, "items": items,
                "seed": dec.below(1000)}

    def source(self, ctx, kind, src, items):
        """-> (argument, items in iteration order, check untouched, ruin)"""
        import extra
        if src == 1:
            t = tuple(items)
            return t, list(items), lambda: t == tuple(items), None
        if src == 2:
            return (x for x in list(items)), list(items), lambda: True, None
        if src in (3, 4):
            try:
                s = set(items) if src == 3 else dict.fromkeys(items)
            except TypeError:
                raise Discard
            order, n = list(s), len(s)
            return (s if src == 3 else s.keys()), order, \
                lambda: list(s) == order and len(s) == n, s.clear
        if src == 5 and kind in K.LISTS:
            s = "".join(x for x in items if type(x) is str) or "ab\nc"
            return s, list(s), lambda: True, None
        if src == 6:
            other = extra.DoublyLinkedList if kind == "LinkedList" else \
                extra.LinkedList
            o = ctx.setup(other, list(items))
            want = ctx.setup(o.to_list)

            def ruin():
                o.remove_front()
                o.add_end("junk")
                o.reverse()
                o[len(o) // 2] = "junk"
            return o, list(want), lambda: o.to_list() == want, ruin
        if src == 7 and kind in NUMERIC and items:
            k = K.SEARCH[len(items) % 5]
            o = ctx.setup(K.make, k, 5)
            for x in items:
                ctx.setup(o.insert, x)
            want = ctx.setup(list, o)
            pre = ctx.setup(o.preorder_traverse)

            def ruin():
                for x in want[::2]:
                    o.remove(x)
                o.insert(77.25)
            return o, list(want), lambda: (list(o) == want and
                                           o.preorder_traverse() == pre), ruin
        if src == 8:                       # another structure of the kind
            o = self.fill(ctx, kind, items, 9)
            want = ctx.setup(list, o)
            snap = K.snapshot(kind, o)
            return o, list(want), \
                lambda: same(K.snapshot(kind, o), snap), \
                lambda: self.change(kind, o)
        if src == 9:
            return map(lambda x: x, items), list(items), lambda: True, None
        lst = list(items)

        def ruin():
            lst.reverse()
            lst[1:1] = [3, 1, 2]
            del lst[:1]
        return lst, list(items), lambda: same(lst, list(items)), ruin

    @staticmethod
    def change(kind, o):
        """A few changes to either side."""
        if kind in K.LISTS:
            ops = [("rmf",), ("front", 5), ("end", "z"), ("set", -2, 8),
                   ("rotl", 1)]
        elif kind == "Treap":
            ops = [("ins", 77.25, 4), ("rmat", 0), ("rmat", 5)]
        else:
            ops = [("ins", 77.25), ("rmat", 0), ("rmat", 5)]
        for op in ops:
            K.mutate(kind, o, op)

    def fill(self, ctx, kind, items, seed):
        random.seed(seed)
        o = ctx.setup(K.make, kind, seed)
        for x in items:
            ctx.setup(o.add_end if kind in K.LISTS else o.insert, x)
        return o

    def run(self, case, ctx):
        import extra
        kind, items = case["kind"], list(case["items"])
        cls = getattr(extra, kind)
        arg, order, untouched, ruin = self.source(
            ctx, kind, case["src"] % 10, items)
        seed = case["seed"]
        b = self.fill(ctx, kind, order, seed)
        ctx.at(kind, "from source", case["src"] % 10, order)
        ctx.drain()
        random.seed(seed)
        if kind in K.HEAPS:
            a = ctx.sut(cls.heapify, arg)
        elif kind == "Treap":
            a = ctx.sut(cls, arg, seed)
        else:
            a = ctx.sut(cls, arg)
        ctx.ok(f"not a {kind}", type(a) is cls)
        ctx.ok("source was changed", ctx.sut(untouched))
        sa = K.snapshot(kind, a, (0, 1, "a"))
        sb = K.snapshot(kind, b, (0, 1, "a"))
        if kind == "SkipList" and case["src"] % 10 == 8:
            # lane heights may be copied or drawn anew
            sa = [x for x in sa if x[0] not in ("repr", "str", "get_height")]
            sb = [x for x in sb if x[0] not in ("repr", "str", "get_height")]
        diff(ctx, f"{kind} built from an iterable", sa, sb)
        if kind in K.LISTS:
            ctx.eq("items", ctx.sut(a.to_list), [esc(x) for x in order])
        # from now on the two have nothing to do with one another
        before = K.snapshot(kind, a, (0, 1, "a"), kind != "SplayTree")
        if ruin:
            ctx.setup(ruin)
            diff(ctx, f"{kind} after its source was changed", K.snapshot(
                kind, a, (0, 1, "a"), kind != "SplayTree"), before)
            arg, order2, untouched, _ = self.source(
                ctx, kind, case["src"] % 10, items)
            random.seed(seed)
            a = (ctx.sut(cls.heapify, arg) if kind in K.HEAPS else
                 ctx.sut(cls, arg, seed) if kind == "Treap" else
                 ctx.sut(cls, arg))
            ctx.setup(self.change, kind, a)
            ctx.ok(f"source was changed by changing the {kind} made of it",
                   ctx.sut(untouched))
        ctx.tag(f"source {case['src'] % 10}")
        ctx.nontrivial = len(order) >= 2


class EscapeTarget(Target):
    """Line breaks of text, by every way in."""
    name = "escape"

    def gen(self, dec):
        def s():
            parts = [dec.pick(["\n", "\n", "a", "b ", "\\n", "é", "\\", "\t"])
                     for _ in range(dec.rng(1, 5))]
            return "".join(parts)
        return {"kind": dec.pick(K.LISTS + K.LINEAR + ("BinaryTree",)),
                "a": s(), "b": s(), "way": dec.below(8)}

    def run(self, case, ctx):
        import extra
        kind, a, b, way = case["kind"], case["a"], case["b"], case["way"]
        want = a.replace("\n", "\\n")
        ctx.at(kind, "given", a, "by way", way)
        cls = getattr(extra, kind)
        if kind in K.LISTS:
            o = ctx.sut(cls, [1, 2])
            i = 1
            w = way % 7
            if w == 0:
                ctx.sut(o.add_front, a)
                i = 0
            elif w == 1:
                ctx.sut(o.add_end, a)
                i = 2
            elif w == 2:
                ctx.sut(o.insert, 1, a)
            elif w == 3:
                ctx.sut(o.__setitem__, 1, a)
            elif w == 4:
                o = ctx.sut(cls, [1, a])
            elif w == 5:
                ctx.sut(o.extend, cls([a]))
                i = 2
            else:
                o = ctx.sut(cls, (x for x in (b, a, 1)))
                ctx.eq("stored", ctx.sut(o.to_list)[0],
                       b.replace("\n", "\\n"))
            ctx.eq("stored", ctx.sut(o.to_list)[i], want)
            ctx.eq("stored", ctx.sut(o.__getitem__, i), want)
            ctx.ok("drawing broken over lines", len(
                ctx.sut(repr, o).split("\n")) in (3, 5))
        elif kind in K.LINEAR:
            o = ctx.sut(cls)
            op = ("put", way % 2 == 0, a) + (
                (3,) if kind == "PriorityQueue" else ())
            ctx.sut(K.mutate, kind, o, op)
            ctx.ok("drawing broken over lines",
                   len(ctx.sut(repr, o).split("\n")) == 3)
            ctx.eq("stored", ctx.sut(K.mutate, kind, o, ("take", True)), want)
        else:
            t = ctx.sut(cls.parse, [b, [a]] if way % 2 else [b, a, (a,)])
            ctx.eq("stored", ctx.sut(t.to_list)[1], want)
            ctx.eq("stored", ctx.sut(t.to_list)[0], b.replace("\n", "\\n"))
            ctx.eq("stored in TreeNode", ctx.sut(
                lambda: extra.TreeNode(a).get_data()), want)
        ctx.tag(kind)
        ctx.nontrivial = "\n" in a


register("C07", "sources of ten sorts (list, tuple, generator, set, dict "
         "keys, text, lists and trees of the package, an instance of the same "
         "kind, map) built into twelve kinds and compared by snapshot with "
         "one-by-one insertion; then the source is changed and the structure "
         "compared with what it was, and the other way round; and texts with "
         "line breaks by every way in. "
         "Non-trivial: two or more items, or a text with a line break.",
         [(IterableTarget(), 5000, 120000), (EscapeTarget(), 2500, 50000)])
