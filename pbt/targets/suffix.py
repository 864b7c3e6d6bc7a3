"""X01-X04: the suffix trie."""
from pbt.core import Discard, size
from pbt.targets import Target, register

ALPHS = ["ab", "a", "abc", "abcdefghij", "éa漢b", "abAB", "AGCT"]
WIDE = ALPHS + ["a b", "a\nb", "01a", "⟶ a", "a-b.c", "}{a"]


def gen_text(dec, alphs, most=40):
    alph = dec.pick(alphs)
    n = dec.pick([1, 2, 3, 5, 8, 13, 20, most, most])
    if dec.chance(10):
        n = size(dec, 270)
    style = dec.below(6)
    out = ""
    if style == 0:                            # periodic
        k = "".join(dec.pick(alph) for _ in range(dec.rng(1, 4)))
        out = (k * (n // len(k) + 1))[:n]
        if dec.chance(128) and out:
            i = dec.below(len(out))
            out = out[:i] + dec.pick(alph) + out[i + 1:]
    elif style == 1:                          # Fibonacci-like
        a, b = dec.pick(alph), dec.pick(alph)
        x, y = a, a + b
        while len(y) < n:
            x, y = y, y + x
        out = y[:n]
    elif style == 2:                          # planted repeats
        k = "".join(dec.pick(alph) for _ in range(dec.rng(1, 6)))
        while len(out) < n:
            out += k if dec.chance(120) else dec.pick(alph)
        out = out[:n]
    elif style == 3:                          # all different
        pool = [chr(97 + i) for i in range(26)]
        while pool and len(out) < n:
            out += pool.pop(dec.below(len(pool)))
        if dec.chance(100):
            out += out[dec.below(len(out))]
    else:
        out = "".join(dec.pick(alph) for _ in range(n))
    return out or dec.pick(alph)


def domain(s):
    if type(s) is not str or not s or "$" in s or "\n" in s or len(s) > 300:
        raise Discard
    return s


WARM = [lambda t, s: len(t), lambda t, s: repr(t), lambda t, s: t.to_list(),
        lambda t, s: t.has_substring(s[:2]), lambda t, s: t.get_height(),
        lambda t, s: t.to_suffix_array(), lambda t, s: t.count_leaf_nodes(),
        lambda t, s: t.get_longest_common_substring(),
        lambda t, s: t.get_longest_repeated_substring(),
        lambda t, s: t.get_lowest_common_ancestor(0, len(s) - 1),
        lambda t, s: t.count_pattern_occurrences(s[-2:]),
        lambda t, s: t.get_depth(), lambda t, s: next(iter(t))]


def build(ctx, s, other="", warm=()):
    """The trie asked about, after other questions; another may be made
    after it."""
    from extra import SuffixTrie
    t = ctx.sut(SuffixTrie, s)
    for k in warm:
        ctx.setup(WARM[k % len(WARM)], t, s)
    if type(other) is str and other:
        ctx.other = ctx.setup(SuffixTrie, domain(other))
        ctx.tag("another alive")
    return t


def gen_warm(dec):
    return [dec.below(13) for _ in range(dec.pick([0, 0, 1, 3, 6]))]


def gen_other(dec, s):
    if not dec.chance(90):
        return ""
    k = dec.below(4)
    if k == 0:
        return s[::-1]
    if k == 1:
        return s + dec.pick(s)
    return gen_text(dec, ALPHS, 12)


def substrings(s):
    return {s[i:j] for i in range(len(s)) for j in range(i + 1, len(s) + 1)}


def count(s, p):
    return sum(1 for i in range(len(s) - len(p) + 1) if s.startswith(p, i))


class SubstringTarget(Target):
    name = "substring"

    def gen(self, dec):
        s = gen_text(dec, WIDE, 30)
        pats = []
        while dec.left and len(pats) < 12:
            k = dec.below(4)
            if k == 0:
                pats.append("".join(dec.pick(s) for _ in range(
                    dec.rng(1, 5))))
            else:
                i = dec.below(len(s))
                j = dec.rng(i, len(s))
                p = s[i:j]
                if k == 2:
                    p += dec.pick(s)
                elif k == 3:
                    q = dec.below(len(p) + 1)
                    p = p[:q] + dec.pick("zab}é0") + p[q + 1:]
                pats.append(p)
        return {"s": s, "pats": pats, "other": gen_other(dec, s),
                "warm": gen_warm(dec)}

    def run(self, case, ctx):
        s = domain(case["s"])
        t = build(ctx, s, case.get("other", ""),
                  case.get("warm", ()))
        subs = substrings(s) if len(s) <= 14 else {
            s[i:j] for i in range(len(s))
            for j in (i + 1, i + 2, len(s), (i + len(s)) // 2 + 1)
            if i < j <= len(s)}
        ask = sorted(subs) + [p for p in case["pats"] if type(p) is str
                              and "$" not in p]
        ask += [s + s[-1], s[-1] + s, "}", "}" + s, s + "}", "zzq", "0", " ",
                " ⟶ 0", "⟶", "ROOT"]
        many = 0
        for p in ask:
            ctx.at("pattern", p, "text", s)
            ctx.eq("has_substring", ctx.sut(t.has_substring, p), p in s)
            if p:
                n = count(s, p)
                many += n >= 2 and len(p) >= 2
                ctx.eq("occurrences",
                       ctx.sut(t.count_pattern_occurrences, p), n)
        for p in (None, 5, ["a"], b"a", 1.5, True):
            ctx.eq(f"has_substring({p!r})", ctx.sut(t.has_substring, p),
                   False)
            ctx.eq(f"occurrences of {p!r}",
                   ctx.sut(t.count_pattern_occurrences, p), 0)
        ctx.tag("repeated patterns", many)
        ctx.nontrivial = len(s) >= 4 and any(p not in s for p in ask) \
            and many >= 1


register("X01", "texts (periodic, Fibonacci-like, with planted repeats, "
         "without repeats, random) over twelve alphabets; every substring of "
         "short texts, mutated substrings and strangers asked for and counted "
         "against direct search. Non-trivial: text of four or more characters "
         "with a pattern of two or more characters occurring twice.",
         [(SubstringTarget(), 5000, 120000)])


class ArrayTarget(Target):
    name = "suffix-array"
    sparse = True

    def gen(self, dec):
        s = gen_text(dec, ALPHS, 60)
        return {"s": s, "other": gen_other(dec, s),
                "warm": gen_warm(dec)}

    def run(self, case, ctx):
        s = domain(case["s"])
        if not s.isalpha() or min(s) <= "$":
            raise Discard
        t = build(ctx, s, case.get("other", ""),
                  case.get("warm", ()))
        n = len(s)
        ctx.at("text", s)
        want = [n] + sorted(range(n), key=lambda i: s[i:])
        array = want
        # branching points: texts followed by two different characters
        e = s + "$"
        follow = {}
        for i in range(n + 1):
            for j in range(i + 1, n + 1):
                follow.setdefault(e[i:j], set()).add(e[j])
        inner = sorted(p for p, f in follow.items() if len(f) > 1)
        # every suffix is spelt by edges: labels listed breadth-first
        want = self.levels(s, inner)

        def listing():
            got = ctx.sut(t.to_list)
            ctx.eq("listing of edge labels (sorted)", sorted(got), sorted(
                x for lev in want for x in lev))
            i = 0
            for lev in want:
                ctx.eq("edge labels of a level (sorted)",
                       sorted(got[i:i + len(lev)]), sorted(lev))
                i += len(lev)
            ctx.eq("iteration", ctx.sut(list, t), got)
        for last in (False, True):
            ctx.ask(lambda: ctx.eq("suffix array",
                                   ctx.sut(t.to_suffix_array), array),
                    lambda: ctx.eq("leaves", ctx.sut(t.count_leaf_nodes),
                                   n + 1),
                    lambda: ctx.eq("len", ctx.sut(len, t),
                                   n + 1 + len(inner) + 1),
                    listing,
                    lambda: ctx.eq("height", ctx.sut(t.get_height),
                                   len(want)), whole=last)
        ctx.tag("inner nodes", len(inner))
        ctx.nontrivial = n >= 4 and len(inner) >= 1

    @staticmethod
    def levels(s, inner):
        """Edge labels per depth of the compact trie of suffixes + '$'."""
        nodes = set(inner) | {s[i:] + "$" for i in range(len(s) + 1)}
        out = {}
        for p in nodes:
            ups = [q for q in inner if q != p and p.startswith(q)]
            up = max(ups, key=len) if ups else ""
            out.setdefault(len(ups), []).append(p[len(up):])
        return [out[d] for d in sorted(out)]


register("X02", "texts of letters; the suffix array against sorted suffixes; "
         "leaves, node count, edge labels per level and height against the "
         "compact trie computed from the branching substrings. Non-trivial: "
         "four or more characters and a branching point.",
         [(ArrayTarget(), 5000, 120000)])


class LRSTarget(Target):
    name = "longest-repeat"

    def gen(self, dec):
        s = gen_text(dec, ALPHS, 50)
        return {"s": s, "other": gen_other(dec, s),
                "warm": gen_warm(dec)}

    def run(self, case, ctx):
        s = domain(case["s"])
        t = build(ctx, s, case.get("other", ""),
                  case.get("warm", ()))
        ctx.at("text", s)
        best = set()
        for n in range(len(s) - 1, 0, -1):
            seen, best = set(), set()
            for i in range(len(s) - n + 1):
                p = s[i:i + n]
                (best if p in seen else seen).add(p)
            if best:
                break
        want = sorted(best) if best else [""]
        ctx.eq("longest repeated (sorted)",
               sorted(ctx.sut(t.get_longest_repeated_substring)), want)
        ctx.eq("longest common (sorted)",
               sorted(ctx.sut(t.get_longest_common_substring)), want)
        ctx.tag("several" if len(want) > 1 else "one" if best else "none")
        ctx.nontrivial = len(s) >= 4 and bool(best) and len(want[0]) >= 2


register("X03", "texts with planted, periodic, overlapping, several equally "
         "long or no repeats, against enumeration of substrings. "
         "Non-trivial: four or more characters and a repeat of two or more.",
         [(LRSTarget(), 8000, 200000)])


class LCATarget(Target):
    name = "lca"

    def gen(self, dec):
        s = gen_text(dec, ALPHS, 30)
        return {"s": s, "other": gen_other(dec, s),
                "warm": gen_warm(dec), "bad": dec.below(16)}

    def run(self, case, ctx):
        s = domain(case["s"])
        t = build(ctx, s, case.get("other", ""),
                  case.get("warm", ()))
        n = len(s)
        f = t.get_lowest_common_ancestor
        long = 0
        step = 1 if n <= 12 else n // 6
        for i in range(0, n):
            for j in range(i % step, n, step):
                if i == j:
                    continue
                k = 0
                while max(i, j) + k < n and s[i + k] == s[j + k]:
                    k += 1
                long += k >= 2
                ctx.at("positions", i, j, "of", s)
                ctx.eq("common ancestor", ctx.sut(f, i, j), s[i:i + k])
                ctx.eq("common ancestor, mirrored", ctx.sut(f, j, i),
                       s[i:i + k])
        k = case["bad"]
        ctx.at("bad positions in", s)
        for x in ("0", 1.0, None, True, [0], (1,)):
            ctx.raises(TypeError, f, x, 0)
            ctx.raises(TypeError, f, 0, x)
        ctx.raises(ValueError, f, -1 - k, 0)
        ctx.raises(ValueError, f, 0, -1 - k)
        ctx.raises(ValueError, f, n + 1 + k, 0)
        ctx.raises(ValueError, f, 0, n + 1 + k)
        ctx.nontrivial = n >= 4 and long >= 1


register("X04", "texts and all (long texts: a grid of) pairs of different "
         "positions against direct comparison; non-positions rejected. "
         "Non-trivial: four or more characters and two suffixes sharing two "
         "or more.", [(LCATarget(), 4000, 100000)])
