"""C06: thousands of items in any order, words thousands of characters long.

Every structure is filled far beyond the depth at which recursion or a wrong
assumption about depth would fail, then looked up, listed, measured and
emptied against sorted lists, sets and closed-form shapes.
"""
import random

from pbt.core import Discard
from pbt.targets import Target, register
from pbt.targets import kinds as K

ORDERS = ("up", "down", "pipe", "zigzag", "blocks", "outwards", "random",
          "nearly up", "saw")


def arrange(order, n, rnd, step=1):
    """A permutation of 0..n-1 (times step)."""
    xs = list(range(n))
    if order == "down":
        xs.reverse()
    elif order == "pipe":
        xs = xs[::2] + xs[1::2][::-1]
    elif order == "zigzag":
        xs = [xs[i // 2] if i % 2 == 0 else xs[n - 1 - i // 2]
              for i in range(n)]
    elif order == "outwards":
        h = n // 2
        out = [h]
        for d in range(1, n):
            out += [h + d] * (h + d < n) + [h - d] * (h - d >= 0)
        xs = out[:n]
    elif order == "blocks":
        b = max(2, n // 7)
        bs = [xs[i:i + b] for i in range(0, n, b)]
        rnd.shuffle(bs)
        xs = [x for i, blk in enumerate(bs)
              for x in (blk if i % 2 else blk[::-1])]
    elif order == "random":
        rnd.shuffle(xs)
    elif order == "nearly up":
        for _ in range(n // 100 + 1):
            i, j = rnd.randrange(n), rnd.randrange(n)
            xs[i], xs[j] = xs[j], xs[i]
    elif order == "saw":
        xs = [x for r in range(5) for x in range(r, n, 5)]
    assert len(xs) == n
    return [x * step for x in xs]


def flat(levels):
    return [x for lv in levels for x in lv]


def gen_common(dec, most=2400):
    return {"n": dec.rng(1100, most), "order": dec.pick(ORDERS),
            "out": dec.pick(ORDERS), "seed": dec.below(10000),
            "step": dec.pick([1, 1, 2, -3, 0.5])}


def ok_size(case, most=6000):
    if not (type(case["n"]) is int and 1 <= case["n"] <= most) or \
            case["order"] not in ORDERS or case["out"] not in ORDERS or \
            case["step"] not in (1, 2, -3, 0.5):
        raise Discard


class SearchScale(Target):
    name = "search-scale"
    budget = 150_000_000
    sizes = [(16, 1)]

    def gen(self, dec):
        kind = dec.pick(K.SEARCH + ("BST", "SplayTree", "Treap"))
        c = {"kind": kind, "prio": dec.below(4),
             "bulk": dec.chance(60), "gone": dec.below(4)}
        c.update(gen_common(dec, 2200 if kind in ("BST", "Treap") else 4200))
        return c

    def run(self, case, ctx):
        import extra
        ok_size(case)
        kind, n = case["kind"], case["n"]
        if kind not in K.SEARCH:
            raise Discard
        sut = ctx.sut
        rnd = random.Random(case["seed"])
        step = case["step"]
        items = arrange(case["order"], n, rnd, step)
        ctx.at("filling", kind, "with", n, "items", case["order"])
        random.seed(case["seed"])
        if case["bulk"] and kind != "Treap":
            t = sut(getattr(extra, kind), list(items))
        elif kind == "Treap":
            t = sut(extra.Treap, seed=case["seed"])
            for i, x in enumerate(items):
                sut(t.insert, x, [None, i, n - i, i % 7][case["prio"] % 4])
        else:
            t = sut(getattr(extra, kind))
            for x in items:
                sut(t.insert, x)
        want = sorted(items)
        ctx.at("questioning", kind, "of", n, "items", case["order"])
        self.ask(ctx, kind, t, want, items, case)
        # removals
        out = arrange(case["out"], n, rnd, step)
        k = [n, n // 2, 40, n - 3][case["gone"] % 4]
        ctx.at("removing", k, "of", n, "items", case["out"], "from", kind,
               "filled", case["order"])
        left = set(items)
        for i, x in enumerate(out[:k]):
            sut(t.remove, x)
            left.discard(x)
            if i % 301 == 300:
                ctx.eq("items after removals", sut(t.inorder_traverse),
                       sorted(left))
        self.ask(ctx, kind, t, sorted(left), items, case)
        ctx.at("refilling", kind)
        for x in out[:k][:300]:
            if kind == "Treap":
                sut(t.insert, x, 5)
            else:
                sut(t.insert, x)
            left.add(x)
        ctx.eq("items after refilling", sut(t.inorder_traverse), sorted(left))
        ctx.tag(kind)
        ctx.nontrivial = n > 1000

    def ask(self, ctx, kind, t, want, items, case):
        sut, n = ctx.sut, len(want)
        ctx.eq("len", sut(len, t), n)
        ctx.eq("inorder", sut(t.inorder_traverse), want)
        for nm in ("preorder_traverse", "postorder_traverse",
                   "depth_first_traverse", "breadth_first_traverse",
                   "to_list"):
            ctx.eq(nm + " sorted", sorted(sut(getattr(t, nm))), want)
        ctx.eq("iteration sorted", sorted(sut(list, t)), want)
        h = sut(t.get_height)
        ctx.eq("depth", sut(t.get_depth), 0)
        levels = sut(t.get_nodes_per_level)
        ctx.eq("levels, sorted", sorted(flat(levels)), want)
        ctx.eq("breadth first", sut(t.breadth_first_traverse), flat(levels))
        ctx.eq("height", h, max(0, len(levels) - 1))
        leaves = sut(t.count_leaf_nodes)
        ctx.ok(f"{leaves} leaves in {n} nodes", 1 <= leaves <= (n + 1) // 2
               if n else leaves == 0)
        if n:
            ctx.eq("left side", sut(t.get_leftside_view),
                   [lv[0] for lv in levels])
            ctx.eq("right side", sut(t.get_rightside_view),
                   [lv[-1] for lv in levels])
            ctx.eq("min", sut(t.get_min), want[0])
            ctx.eq("max", sut(t.get_max), want[-1])
            full = all(len(lv) == 2 ** i for i, lv in enumerate(levels))
            ctx.eq("is_perfect", sut(t.is_perfect), full)
            if kind == "AVL":
                ctx.eq("is_balanced", sut(t.is_balanced), True)
            else:
                sut(t.is_balanced)
            ctx.eq("is_strict", sut(t.is_strict), n == 2 * leaves - 1)
            lim = {"AVL": 1.4405 * (n + 2).bit_length() + 1,
                   "RedBlackTree": 2 * (n + 1).bit_length() + 1}.get(kind)
            if lim:
                ctx.ok(f"height {h} of {n} items", h <= lim)
            if kind == "BST" and n == len(items) and \
                    case["order"] in ("up", "down", "zigzag"):
                ctx.eq("height of a chain", h, n - 1)
                ctx.eq("leaves of a chain", leaves, 1)
            if kind == "RedBlackTree":
                sut(t.get_black_height)
        have = set(want)
        rnd = random.Random(case["seed"] + 1)
        for x in [items[0], items[-1]] + rnd.sample(items, min(len(items),
                                                               40)):
            ctx.eq(f"{x!r} in", sut(t.__contains__, x), x in have)
            ctx.eq(f"{x + 0.25!r} in", sut(t.__contains__, x + 0.25), False)


class PlainScale(Target):
    """Chains and bushes of plain and binary tree nodes."""
    name = "plain-tree-scale"
    budget = 150_000_000
    sizes = [(16, 1)]

    def gen(self, dec):
        c = {"kind": dec.pick(("BinaryTree", "Tree")),
             "bend": dec.below(5)}
        c.update(gen_common(dec, 3500))
        return c

    def run(self, case, ctx):
        import extra
        ok_size(case)
        kind, n, bend = case["kind"], case["n"], case["bend"]
        rnd = random.Random(case["seed"])
        sut = ctx.sut
        binary = kind == "BinaryTree"
        # parent and side of each node
        left, right, kids = {}, {}, {i: [] for i in range(n)}
        for i in range(1, n):
            if bend == 4:
                p = max(0, i - rnd.choice((1, 1, 1, 2, 3)))
            else:
                p = i - 1
            side = [True, False, i % 2 == 0, rnd.random() < .5,
                    rnd.random() < .5][bend % 5]
            if binary:
                if p in left and p in right:
                    p = i - 1
                if (side and p in left) or (not side and p in right):
                    side = not side
                (left if side else right)[p] = i
            else:
                kids[p].append(i)
        if binary:
            nodes = [extra.BinaryTreeNode(i) for i in range(n)]
            for p, c in left.items():
                sut(nodes[p].set_left, nodes[c])
            for p, c in right.items():
                sut(nodes[p].set_right, nodes[c])
            kids = {i: [x[i] for x in (left, right) if i in x]
                    for i in range(n)}
            t = extra.BinaryTree()
        else:
            nodes = [extra.TreeNode(i) for i in range(n)]
            for p in range(n):
                for c in kids[p]:
                    sut(nodes[p].set_child, nodes[c])
            t = extra.Tree()
        t._root = nodes[0]
        levels, cur = [], [0]
        while cur:
            levels.append(cur)
            cur = [c for p in cur for c in kids[p]]
        ctx.at(kind, "of", n, "nodes and", len(levels), "levels")
        leaves = sum(not v for v in kids.values())
        ctx.eq("len", sut(len, t), n)
        ctx.eq("height", sut(t.get_height), len(levels) - 1)
        ctx.eq("depth", sut(t.get_depth), 0)
        ctx.eq("leaves", sut(t.count_leaf_nodes), leaves)
        ctx.eq("levels", sut(t.get_nodes_per_level), levels)
        ctx.eq("listing", sut(t.to_list), flat(levels))
        ctx.eq("iteration", sut(list, t), flat(levels))
        ctx.eq("is_empty", sut(t.is_empty), False)
        for x in (0, n // 2, n - 1):
            ctx.eq("in", sut(t.__contains__, x), True)
        ctx.eq("in", sut(t.__contains__, n), False)
        if binary:
            pre, ino, post = orders(left, right)
            ctx.eq("preorder", sut(t.preorder_traverse), pre)
            ctx.eq("inorder", sut(t.inorder_traverse), ino)
            ctx.eq("postorder", sut(t.postorder_traverse), post)
            ctx.eq("depth first", sut(t.depth_first_traverse), pre)
            ctx.eq("breadth first", sut(t.breadth_first_traverse),
                   flat(levels))
            ctx.eq("left view", sut(t.get_leftside_view),
                   [lv[0] for lv in levels])
            ctx.eq("right view", sut(t.get_rightside_view),
                   [lv[-1] for lv in levels])
            ctx.eq("is_perfect", sut(t.is_perfect), False)
            ctx.eq("is_strict", sut(t.is_strict),
                   all(len(v) != 1 for v in kids.values()))
            sut(t.is_balanced)
            ctx.at("inverting", kind, "of", n, "nodes")
            sut(t.invert)
            ctx.eq("inorder of the mirror", sut(t.inorder_traverse),
                   ino[::-1])
            ctx.eq("preorder of the mirror", sut(t.preorder_traverse),
                   post[::-1])
        ctx.tag(kind)
        ctx.nontrivial = n > 1000 and len(levels) > 1000


def orders(left, right):
    pre, ino, post = [], [], []
    st = [(0, 0)]
    while st:
        x, s = st.pop()
        if s == 0:
            pre.append(x)
        elif s == 1:
            ino.append(x)
        else:
            post.append(x)
            continue
        st.append((x, s + 1))
        c = (left if s == 0 else right).get(x)
        if c is not None:
            st.append((c, 0))
    return pre, ino, post


class FlatScale(Target):
    """Lists, containers, skip lists and heaps."""
    name = "flat-scale"
    budget = 150_000_000
    sizes = [(16, 1)]

    def gen(self, dec):
        c = {"kind": dec.pick(K.LISTS + K.LINEAR + K.HEAPS + ("SkipList",)
                              + K.LISTS)}
        c.update(gen_common(dec, 2600))
        return c

    def run(self, case, ctx):
        import extra
        ok_size(case)
        kind, n = case["kind"], case["n"]
        rnd = random.Random(case["seed"])
        random.seed(case["seed"])
        items = arrange(case["order"], n, rnd, case["step"])
        ctx.at(kind, "of", n, "items", case["order"])
        cls = getattr(extra, kind)
        if kind in K.LISTS:
            self.lists(ctx, kind, cls, items, rnd)
        elif kind in K.LINEAR:
            self.linear(ctx, kind, cls, items, rnd)
        elif kind == "SkipList":
            self.skip(ctx, cls, items, arrange(case["out"], n, rnd,
                                               case["step"]))
        elif kind in K.HEAPS:
            self.heap(ctx, kind, cls, items, arrange(case["out"], n, rnd,
                                                     case["step"]))
        else:
            raise Discard
        ctx.tag(kind)
        ctx.nontrivial = n > 1000

    def lists(self, ctx, kind, cls, items, rnd):
        sut, n = ctx.sut, len(items)
        o = sut(cls, items)
        ctx.eq("listing", sut(o.to_list), items)
        ctx.eq("iteration", sut(list, o), items)
        ctx.eq("len", sut(len, o), n)
        ctx.eq("reversed", sut(sut(o.reverse).to_list), items[::-1])
        p = sut(o.copy)
        ctx.eq("copy", sut(p.to_list), items)
        ctx.eq("equal to copy", sut(o.__eq__, p), True)
        ctx.eq("differs from copy", sut(o.__ne__, p), False)
        for x in (items[0], items[-1], items[n // 2]):
            ctx.eq("in", sut(o.__contains__, x), True)
            ctx.eq("count", sut(o.count, x), 1)
        ctx.eq("in", sut(o.__contains__, 10 ** 9), False)
        for i in (0, n - 1, n // 2):
            ctx.eq(f"item {i}", sut(o.__getitem__, i), items[i])
        k = rnd.randrange(n)
        a, b = sut(o.split, k)
        ctx.eq("split", [sut(a.to_list), sut(b.to_list)],
               [items[:k], items[k:]])
        r = sut(o.rotate_left, k, False)
        ctx.eq("rotated", sut(r.to_list), items[k:] + items[:k])
        r = sut(o.rotate_right, k, False)
        ctx.eq("rotated right", sut(r.to_list), items[n - k:] + items[:n - k])
        sut(p.extend, o)
        ctx.eq("extended", sut(p.to_list), items + items)
        m = list(items)
        for x in rnd.sample(items, 30):
            if x not in m:
                continue
            sut(o.remove, x)
            m.remove(x)
            i = rnd.randrange(len(m))
            sut(o.insert, i, x)
            m.insert(i, x)
            i = rnd.randrange(len(m))
            sut(o.__delitem__, i)
            del m[i]
            sut(o.add_end, x)
            m.append(x)
        ctx.eq("listing after changes", sut(o.to_list), m)
        for _ in range(n // 2):
            sut(o.remove_front)
            sut(o.remove_end)
        k = n // 2
        ctx.eq("what is left", sut(o.to_list), m[k:len(m) - k])

    def linear(self, ctx, kind, cls, items, rnd):
        sut, n = ctx.sut, len(items)
        o = sut(cls)
        if kind == "PriorityQueue":
            prio = [rnd.randrange(101) for _ in items]
            for x, p in zip(items, prio):
                sut(o.enqueue, x, p)
            ctx.eq("len", sut(len, o), n)
            order = sorted(range(n), key=lambda i: -prio[i])
            got = []
            for _ in range(n // 2):
                got.append(prio[items.index(sut(o.dequeue, False))])
            ctx.eq("highest priorities first", got,
                   [prio[i] for i in order[:n // 2]])
            got = []
            for _ in range(n - n // 2):
                got.append(prio[items.index(sut(o.dequeue, True))])
            ctx.eq("lowest priorities first", got,
                   [prio[i] for i in order[n // 2:]][::-1])
            ctx.eq("is_empty", sut(o.is_empty), True)
            return
        if kind == "Deque":
            from collections import deque
            m = deque()
            for i, x in enumerate(items):
                sut((o.append_left, o.append_right)[i % 3 == 0], x)
                (m.appendleft, m.append)[i % 3 == 0](x)
            ctx.eq("len", sut(len, o), n)
            for i in range(n):
                if i % 4 == 1:
                    ctx.eq("left", sut(o.pop_left), m.popleft())
                else:
                    ctx.eq("right", sut(o.pop_right), m.pop())
            ctx.eq("is_empty", sut(o.is_empty), True)
            return
        for x in items:
            sut(o.push if kind == "Stack" else o.enqueue, x)
        ctx.eq("len", sut(len, o), n)
        got = [sut(o.pop if kind == "Stack" else o.dequeue)
               for _ in range(n)]
        ctx.eq("taken", got, items[::-1] if kind == "Stack" else items)
        ctx.eq("is_empty", sut(o.is_empty), True)

    def skip(self, ctx, cls, items, out):
        sut, n = ctx.sut, len(items)
        o = sut(cls)
        for x in items:
            sut(o.insert, x)
        want = sorted(items)
        ctx.eq("len", sut(len, o), n)
        ctx.eq("listing", sut(o.to_list), want)
        h = sut(o.get_height)
        ctx.ok(f"height {h}", 1 <= h <= n)
        for x in items[:60]:
            ctx.eq("in", sut(o.__contains__, x), True)
            ctx.eq("in", sut(o.__contains__, x + 0.25), False)
        left = set(items)
        for x in out[:n // 2]:
            sut(o.remove, x)
            left.discard(x)
        ctx.eq("listing after removals", sut(o.to_list), sorted(left))
        ctx.eq("len after removals", sut(len, o), len(left))

    def heap(self, ctx, kind, cls, items, out):
        sut, n = ctx.sut, len(items)
        o = sut(cls.heapify, items)
        ctx.eq("len", sut(len, o), n)
        ctx.eq("listing", sorted(sut(o.to_list)), sorted(items))
        ctx.eq("iteration", sut(list, o), sut(o.to_list))
        left = set(items)
        for x in out[:n // 3]:
            sut(o.remove, x)
            left.discard(x)
        ctx.eq("min", sut(o.get_min), min(left))
        ctx.eq("max", sut(o.get_max), max(left))
        small = kind == "MinHeap"
        got = []
        for _ in range(len(left)):
            got.append(sut(o.get_min if small else o.get_max))
            sut(o.remove_min if small else o.remove_max)
        ctx.eq("drained", got, sorted(left, reverse=not small))
        ctx.eq("is_empty", sut(o.is_empty), True)


class TrieScale(Target):
    """Few very long words, and very many words."""
    name = "trie-scale"
    budget = 150_000_000
    sizes = [(16, 1)]

    def gen(self, dec):
        return {"kind": dec.pick(K.TRIES), "n": dec.rng(1100, 3000),
                "seed": dec.below(10000), "many": dec.chance(80),
                "alph": dec.pick(["a", "ab", "abcdef"])}

    def words(self, case, rnd):
        n, alph = case["n"], case["alph"] or "a"
        if case["many"]:
            return ["".join(rnd.choice(alph + "xyz")
                            for _ in range(rnd.randrange(1, 12)))
                    for _ in range(n)]
        base = "".join(rnd.choice(alph) for _ in range(n))
        ws = [base]
        for _ in range(6):
            k = rnd.choice((n - 1, n // 2, rnd.randrange(1, n + 1), n))
            ws.append(base[:k] + rnd.choice(("", "z", "zz", "y" * (n // 2),
                                             alph * 3)))
        rnd.shuffle(ws)
        return [w for w in ws if w]

    def run(self, case, ctx):
        import extra
        if not 2 <= case["n"] <= 6000 or type(case["alph"]) is not str or \
                not (case["alph"] or "a").isalpha():
            raise Discard
        rnd = random.Random(case["seed"])
        ws = self.words(case, rnd)
        sut = ctx.sut
        kind = case["kind"]
        if kind not in K.TRIES:
            raise Discard
        t = sut(getattr(extra, kind))
        ctx.at(kind, "filling with", len(ws), "words of up to",
               max(map(len, ws)), "characters")
        for w in ws:
            sut(t.insert, w)
        have = set(ws)
        self.ask(ctx, kind, t, have, ws)
        for i, w in enumerate(dict.fromkeys(ws)):
            ctx.at(kind, "removing a word of", len(w), "characters")
            sut(t.remove, w)
            have.discard(w)
            if i % 400 == 0 or not case["many"]:
                self.ask(ctx, kind, t, have, ws)
        ctx.eq("is_empty", sut(t.is_empty), True)
        sut(t.insert, ws[0])
        ctx.eq("refilled", sut(t.auto_complete, ""), [ws[0]])
        ctx.tag(kind)
        ctx.nontrivial = case["n"] > 1000

    def ask(self, ctx, kind, t, have, ws):
        sut = ctx.sut
        ctx.eq("all words", sorted(sut(t.auto_complete, "")), sorted(have))
        for w in ws[:12]:
            h = w[:(len(w) + 1) // 2]
            ctx.eq("in", sut(t.__contains__, w), w in have)
            ctx.eq("in", sut(t.__contains__, w + "q"), False)
            ctx.eq("has_prefix", sut(t.has_prefix, h),
                   any(x.startswith(h) for x in have))
            ctx.eq("completions", sorted(sut(t.auto_complete, h)),
                   sorted(x for x in have if x.startswith(h)))
        levels = sut(t.get_nodes_per_level)
        nodes = sut(t.to_list)
        ctx.eq("levels", flat(levels), (["ROOT"] if levels and levels[0] ==
                                        ["ROOT"] else []) + nodes)
        ctx.eq("len", sut(len, t), len(nodes) + 1)
        h = sut(t.get_height)
        ctx.eq("depth", sut(t.get_depth), 0)
        lead = levels[1:] if levels and levels[0] == ["ROOT"] else levels
        ctx.eq("height", h, len(lead))
        leaves = sut(t.count_leaf_nodes)
        if kind == "Trie":
            ctx.eq("height", h, max(map(len, have), default=0))
        srt = sorted(have)
        tips = sum(not (i + 1 < len(srt) and srt[i + 1].startswith(w))
                   for i, w in enumerate(srt))
        ctx.eq("leaves", leaves, tips)


class SuffixScale(Target):
    """Texts of more than a thousand characters."""
    name = "suffix-scale"
    budget = 150_000_000
    sizes = [(16, 1)]

    def gen(self, dec):
        return {"n": dec.rng(1050, 1500), "seed": dec.below(10000),
                "form": dec.below(5), "alph": dec.pick(["ab", "abc",
                                                        "abcdefghij"])}

    def run(self, case, ctx):
        import extra
        if not 2 <= case["n"] <= 4000 or type(case["alph"]) is not str or \
                not case["alph"].isalpha():
            raise Discard
        rnd = random.Random(case["seed"])
        n, alph = case["n"], case["alph"]
        form = case["form"] % 5
        if form == 0:
            s = alph[0] * n
        elif form == 1:
            s = (alph * n)[:n]
        else:
            s = "".join(rnd.choice(alph) for _ in range(n))
            if form == 3:
                s = s[:n // 2] * 2
            elif form == 4:
                s = s[:n - n // 3] + alph[0] * (n // 3)
        n = len(s)
        sut = ctx.sut
        ctx.at("text of", n, "characters, form", form)
        t = sut(extra.SuffixTrie, s)
        order = sorted(range(n), key=lambda i: s[i:])
        ctx.eq("suffix array", sut(t.to_suffix_array), [n] + order)
        ctx.eq("leaves", sut(t.count_leaf_nodes), n + 1)
        sut(t.get_height)
        ctx.eq("depth", sut(t.get_depth), 0)
        ctx.eq("len", sut(len, t), len(sut(t.to_list)) + 1)
        best = 0
        reps = set()
        for a, b in zip(order, order[1:]):
            k = lcp(s, a, b)
            if k > best:
                best, reps = k, set()
            if k == best and k:
                reps.add(s[a:a + k])
        ctx.eq("longest repeats",
               sorted(sut(t.get_longest_repeated_substring)),
               sorted(reps) or [""])
        for _ in range(12):
            i = rnd.randrange(n)
            p = s[i:i + rnd.choice((1, 2, 5, n // 2, n))]
            ctx.eq("has_substring", sut(t.has_substring, p), True)
            ctx.eq("has_substring", sut(t.has_substring, p + "}"), False)
            c = sum(s.startswith(p, j) for j in range(n))
            ctx.eq("occurrences", sut(t.count_pattern_occurrences, p), c)
            j = rnd.randrange(n)
            if i != j:
                ctx.eq("lowest common ancestor",
                       sut(t.get_lowest_common_ancestor, i, j),
                       s[i:i + lcp(s, i, j)])
        ctx.tag("form %d" % form)
        ctx.nontrivial = n > 1000


def lcp(s, a, b):
    lo, hi = 0, len(s) - max(a, b)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if s[a:a + m] == s[b:b + m]:
            lo = m
        else:
            hi = m - 1
    return lo


register("C06", "structures filled with 1100 to 3500 items in nine orders "
         "(monotone, zig-zag, blocks, saw, random, ...) or with words and "
         "texts of that many characters, then questioned, measured, listed, "
         "partly emptied and refilled against sorted lists, sets and "
         "closed-form shapes. Non-trivial: more than 1000 items, levels or "
         "characters.",
         [(SearchScale(), 60, 2500), (PlainScale(), 40, 2000),
          (FlatScale(), 60, 2500), (TrieScale(), 40, 1500),
          (SuffixScale(), 24, 800)])
