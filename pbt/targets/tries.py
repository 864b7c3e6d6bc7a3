"""R01-R04: trie and radix trie."""
from pbt.core import Discard
from pbt.targets import Target, register

ALPHS = ["ab", "a", "abc", "abcdefghijklmnopqrstuvwxyz", "aé漢🙂", "a b\t\n",
         "}{$✓⟶", "ab01", "aAbB", "ée\u0301ßsS", "a\0b", "aab'\"\\"]
ODD = [" ", "\0", "\n", "\t", "\u0301", "0", "$", "✓", "'"]


def word(dec, alph, maxlen):
    return "".join(dec.pick(alph) for _ in range(dec.rng(1, maxlen)))


def gen_case(dec, removals=True):
    alph = dec.pick(ALPHS)
    maxlen = dec.pick([2, 4, 7, 14])
    rms = dec.pick([1, 3, 6]) if removals else 0
    ops = []
    while dec.left:
        if rms and dec.chance(4):         # one word after another
            ops += [("rmat", dec.pick([0, -1, 7]))] * dec.pick([3, 6, 14, 40])
        op = dec.weighted([("ins", 6), ("grow", 3), ("fork", 2),
                           ("dup", 1)] + ([("rm", rms), ("rmat", 2 * rms),
                                           ("rmpre", rms)]
                                          if rms else []))
        if op in ("ins", "rm"):
            w = word(dec, alph, maxlen)
            if dec.chance(14):            # a long stem
                w = w * dec.pick([4, 10, 25, 60])
            ops.append((op, w[:180]))
        elif op == "grow":                # extend a stored word
            ops.append((op, dec.below(256), word(dec, alph, 3)))
        elif op == "fork":                # prefix of a stored word + more
            ops.append((op, dec.below(256),
                        dec.below(16) if dec.chance(160) else dec.below(256),
                        word(dec, alph, 3)))
        elif op == "rmpre":               # remove a mere prefix
            ops.append((op, dec.below(256), dec.below(256)))
        else:
            ops.append((op, dec.below(256)))
    return {"ops": ops}


def new(kind):
    import extra
    return getattr(extra, kind)()


def resolve(op, ws):
    """-> ('ins'|'rm', word) or None; ws: sorted stored words"""
    name = op[0]
    if name in ("ins", "rm"):
        if type(op[1]) is not str:
            raise Discard
        w = op[1]
    elif not ws:
        if name == "grow":
            w, name = op[2], "ins"
        elif name == "fork":
            w, name = op[3], "ins"
        else:
            return None
    else:
        base = ws[op[1] % len(ws)]
        if name == "grow":
            w, name = base + op[2], "ins"
        elif name == "fork":
            w, name = base[:op[2] % (len(base) + 1)] + op[3], "ins"
        elif name == "dup":
            w, name = base, "ins"
        elif name == "rmat":
            w, name = base, "rm"
        else:
            w, name = base[:op[2] % (len(base) + 1)], "rm"
    if name == "ins" and not w.strip():
        return None
    if len(w) > 200:
        return None
    return name, w


def prefixes(ws):
    return {w[:i] for w in ws for i in range(1, len(w) + 1)}


def strangers(ws):
    """Near misses of the stored words."""
    out = set()
    for w in sorted(ws)[:8]:
        out |= {w[:-1], w + w[-1], w[1:], w + "a", w + "}", w[:-1] + "}",
                "}" + w}
        if len(w) > 2:
            out.add(w[:len(w) // 2])
            out |= {w.swapcase(), w.upper(), w[::-1], w + w}
            out.add(w[:len(w) // 2] + "z" + w[len(w) // 2 + 1:])
    for i, w in enumerate(sorted(ws)[:4]):        # and something odd
        for odd in (ODD[(len(w) + i) % 9], ODD[(3 * len(ws) + i) % 9]):
            out |= {w + odd, odd + w, w[:1] + odd + w[1:]}
    out |= {"", "zq", "}", "}}", "$", " ", "ROOT", "R"}
    return sorted(out)


class TrieTarget(Target):
    sparse = True

    def __init__(self, kind):
        self.kind = kind
        self.name = "words-" + kind

    def gen(self, dec):
        return gen_case(dec)

    def run(self, case, ctx):
        t, ws, gone = new(self.kind), set(), []
        big = 0
        for i, op in enumerate(case["ops"]):
            r = resolve(op, sorted(ws))
            if r is None:
                continue
            name, w = r
            ctx.at(name, w, "on", sorted(ws)[:20])
            ctx.tag("op:" + op[0])
            if name == "ins":
                if w in ws:
                    ctx.tag("duplicate")
                ctx.sut(t.insert, w)
                ws.add(w)
            else:
                ctx.sut(t.remove, w)
                if w in ws:
                    ctx.tag("removed")
                    gone.append(w)
                    ws.discard(w)
                    if not ws:
                        ctx.tag("emptied")
                else:
                    ctx.tag("absent removed")
            big = max(big, len(ws))
            if not ctx.due():
                continue
            full = i % 6 == 5 or len(ws) < 8
            ctx.ask(lambda: ctx.eq("is_empty", ctx.sut(t.is_empty), not ws),
                    lambda: self.check(ctx, t, ws, gone, full))
        ctx.at("end", sorted(ws)[:20])
        self.check(ctx, t, ws, gone, True)
        ctx.nontrivial = big >= 3 and ctx.tags.get("removed", 0) >= 1

    def check(self, ctx, t, ws, gone, full):
        ask = sorted(ws) + gone[-5:]
        if full:
            ask += strangers(ws) + sorted(prefixes(ws))[:60]
        ctx.tag("check")
        if ctx.tags["check"] % 2:         # last asked, first asked next time
            ask.reverse()
        for w in ask:
            ctx.eq(f"{w!r} in", ctx.sut(t.__contains__, w), w in ws)


_R = ("histories of insertions (fresh, extending or forking from stored "
      "words, repeated) and removals (stored, absent, mere prefixes) over "
      "twelve alphabets; ")
for _pid, _k in (("R01", "Trie"), ("R02", "RadixTrie")):
    register(_pid, _R + "membership of every stored word, every prefix and "
             "many near misses against a set after every step. Non-trivial: "
             "three or more words stored and one removed.",
             [(TrieTarget(_k), 6000, 150000)])


class PrefixTarget(Target):
    sparse = True

    def __init__(self, kind):
        self.kind = kind
        self.name = "prefix-" + kind

    def gen(self, dec):
        c = gen_case(dec)
        c["ops"] = c["ops"][:60]
        return c

    def run(self, case, ctx):
        t, ws = new(self.kind), set()
        inside, self.turns = 0, False
        for i, op in enumerate(case["ops"]):
            r = resolve(op, sorted(ws))
            if r is None:
                continue
            name, w = r
            if name == "ins":
                ctx.setup(t.insert, w)
                ws.add(w)
            else:
                ctx.setup(t.remove, w)
                ctx.tag("removed", w in ws)
                ws.discard(w)
            if i % 4 == 3 if ctx.view <= 0 else ctx.due():
                inside += self.check(ctx, t, ws)
        ctx.at("end")
        inside += self.check(ctx, t, ws, True)
        ctx.nontrivial = len(ws) >= 3 and inside >= 1

    def check(self, ctx, t, ws, whole=False):
        ask = sorted(prefixes(ws), key=lambda p: (len(p), p))
        ask = ask[:40] + ask[-20:] + strangers(ws)
        self.turns = not self.turns       # last asked, first asked next time
        if self.turns:
            ask.reverse()
        inside = 0
        if ctx.view > 0 and not whole:        # a few, of one kind
            ask = ask[:6] + ask[-6:]
        for p in ask:
            want = sorted(w for w in ws if w.startswith(p))
            ctx.at("prefix", p, "of", sorted(ws)[:20])
            ctx.ask(lambda: ctx.eq("has_prefix", ctx.sut(t.has_prefix, p),
                                   bool(want) or p == ""),
                    lambda: ctx.eq("completions (sorted)",
                                   sorted(ctx.sut(t.auto_complete, p)), want),
                    whole=whole)
            inside += bool(want) and p not in ws and p != ""
        if whole or len(ws) % 2 and ctx.view != 1:
            ctx.eq("completions of nothing (sorted)",
                   sorted(ctx.sut(t.auto_complete)), sorted(ws))
        return inside


register("R03", _R + "prefix tests and completions for every prefix (also "
         "inside shared edges) and near misses against a filter over the set "
         "of words. Non-trivial: three or more words stored at the end and a "
         "prefix that is no word was asked for.",
         [(PrefixTarget("Trie"), 2500, 60000),
          (PrefixTarget("RadixTrie"), 2500, 60000)])


class NodesTarget(Target):
    sparse = True

    def __init__(self, kind, removals):
        self.kind, self.removals = kind, removals
        self.name = "nodes-" + kind + ("" if removals else "-grown")

    def gen(self, dec):
        c = gen_case(dec, self.removals)
        c["ops"] = c["ops"][:80]
        return c

    def run(self, case, ctx):
        t, ws = new(self.kind), set()
        big = removed = 0
        self.check(ctx, t, ws, False)
        for op in case["ops"]:
            r = resolve(op, sorted(ws))
            if r is None:
                continue
            name, w = r
            if name == "rm" and not self.removals:
                raise Discard
            ctx.at(name, w, "on", sorted(ws)[:20])
            if name == "ins":
                ctx.setup(t.insert, w)
                ws.add(w)
            else:
                ctx.setup(t.remove, w)
                removed += w in ws
                ws.discard(w)
            big = max(big, len(ws))
            if ctx.due():
                self.check(ctx, t, ws, removed > 0)
        self.check(ctx, t, ws, removed > 0, True)
        ctx.nontrivial = big >= 3 and (removed >= 1 or not self.removals)

    def check(self, ctx, t, ws, removed, whole=False):
        leaves = sum(1 for w in ws if not any(
            x != w and x.startswith(w) for x in ws))
        checks = [lambda: ctx.eq("leaves", ctx.sut(t.count_leaf_nodes),
                                 leaves),
                  lambda: ctx.eq("depth", ctx.sut(t.get_depth), 0)]
        if self.kind == "Trie":
            checks += self.trie(ctx, t, ws)
        else:
            checks += [lambda: self.radix(ctx, t, ws, removed)]
        ctx.ask(*checks, whole=whole)

    def trie(self, ctx, t, ws):
        pref = prefixes(ws)
        h = max([len(w) for w in ws] or [0])
        want = [sorted(p[-1] for p in pref if len(p) == d)
                for d in range(1, h + 1)]

        def levels():
            lv = ctx.sut(t.get_nodes_per_level)
            ctx.eq("levels (each sorted)", [sorted(x) for x in lv], want)
            return [x for lev in lv for x in lev]

        def listing():
            got, k = list(ctx.sut(t.to_list)), 0
            for d, lev in enumerate(want, 1):
                ctx.eq(f"to_list, level {d} (sorted)",
                       sorted(got[k:k + len(lev)]), lev)
                k += len(lev)
            ctx.eq("length of to_list", len(got), k)
        return [
            lambda: ctx.eq("len", ctx.sut(len, t), 1 + len(pref)),
            lambda: ctx.eq("height", ctx.sut(t.get_height), h),
            levels,
            lambda: ctx.eq("to_list", ctx.sut(t.to_list), levels()),
            lambda: ctx.eq("iteration", ctx.sut(list, t), levels()),
            listing]

    def radix(self, ctx, t, ws, removed):
        pref = prefixes(ws)
        branch = {p for p in pref if len(
            {w[len(p)] for w in ws
             if w.startswith(p) and len(w) > len(p)}) > 1}
        need = {p for p in pref if p in ws} | branch
        n = ctx.sut(len, t)
        if not removed:
            ctx.eq("len", n, 1 + len(need))
        else:
            # nodes that neither end a word nor branch may remain
            ctx.ok(f"{n} nodes for {len(need)} words and branchings",
                   n >= 1 + len(need))
        lv = ctx.sut(t.get_nodes_per_level)
        flat = [x for lev in lv for x in lev]
        ctx.eq("nodes in levels", len(flat), n - 1)
        ctx.eq("height", ctx.sut(t.get_height), len(lv))
        ctx.eq("to_list", ctx.sut(t.to_list), flat)
        ctx.eq("iteration", ctx.sut(list, t), flat)
        root = getattr(t, "_root", None)
        if root is None or not hasattr(root, "get_children"):
            return

        def paths():
            out, dead, st = [], [], [(root, "")]
            while st:
                node, p = st.pop()
                kids = node.get_children()
                for k in kids:
                    d = k.get_data()
                    out.append(p + d)
                    st.append((k, p + d))
                if not kids and node is not root:
                    dead.append(p)
            return out, dead
        out, ends = ctx.sut(paths)
        ctx.ok(f"two nodes spell the same text: {sorted(out)[:30]}",
               len(set(out)) == len(out))
        ctx.ok(f"spelt texts {sorted(set(out) - pref)[:10]} are no prefixes "
               "of stored words", set(out) <= pref)
        ctx.ok(f"no node for {sorted(need - set(out))[:10]}",
               need <= set(out))
        ctx.ok(f"dead branches {sorted(set(ends) - ws)[:10]}",
               set(ends) <= ws)
        if not removed:
            ctx.eq("node texts", sorted(out), sorted(need))


register("R04", _R + "length, height, levels, listing and leaves against the "
         "set of prefixes (trie) or words and branching points (radix trie), "
         "edges spelt out node by node. Non-trivial: three or more words "
         "stored and, where removals are generated, one removed.",
         [(NodesTarget("Trie", True), 2500, 60000),
          (NodesTarget("RadixTrie", False), 2000, 50000),
          (NodesTarget("RadixTrie", True), 2500, 60000)])
