"""Reference binary-tree and general-tree shapes (all walks iterative)."""


class N:
    __slots__ = ("v", "l", "r", "x")

    def __init__(self, v, l=None, r=None, x=None):
        self.v, self.l, self.r, self.x = v, l, r, x


def pre(root):
    out, st = [], [root] if root else []
    while st:
        n = st.pop()
        out.append(n)
        if n.r:
            st.append(n.r)
        if n.l:
            st.append(n.l)
    return out


def post(root):
    out, st = [], [root] if root else []
    while st:
        n = st.pop()
        out.append(n)
        if n.l:
            st.append(n.l)
        if n.r:
            st.append(n.r)
    return out[::-1]


def inorder(root):
    out, st, n = [], [], root
    while st or n:
        while n:
            st.append(n)
            n = n.l
        n = st.pop()
        out.append(n)
        n = n.r
    return out


def levels(root):
    out, cur = [], [root] if root else []
    while cur:
        out.append(cur)
        cur = [c for n in cur for c in (n.l, n.r) if c]
    return out


def mirror(root):
    for n in pre(root):
        n.l, n.r = n.r, n.l
    return root


def vals(nodes):
    return [n.v for n in nodes]


def key(root):
    """Comparable encoding of shape and values."""
    return [(n.v, n.l is not None, n.r is not None) for n in pre(root)]


def read(node, extra=None):
    """Shape of nodes of the code under test, through their getters."""
    if node is None:
        return None
    root = N(node.get_data())
    st = [(node, root)]
    count = 0
    while st:
        a, b = st.pop()
        count += 1
        if count > 20000:
            raise ValueError("endless tree")
        if extra:
            b.x = extra(a)
        l, r = a.get_left(), a.get_right()
        if l is not None:
            b.l = N(l.get_data())
            st.append((l, b.l))
        if r is not None:
            b.r = N(r.get_data())
            st.append((r, b.r))
    return root


def from_entries(entries):
    """entries: [(parent pick, side, value)]; parent pick is an index, or
    negative to count from the newest. Returns the root."""
    nodes = []
    for p, side, v in entries:
        new = N(v)
        if nodes:
            k = len(nodes)
            par = nodes[p % k] if p >= 0 else nodes[max(0, k + p)]
            side = bool(side)
            while True:
                nxt = par.r if side else par.l
                if nxt is None:
                    break
                par = nxt
            if side:
                par.r = new
            else:
                par.l = new
        nodes.append(new)
    return nodes[0] if nodes else None


def gen_entries(dec, value, most=None):
    """Random shape: chains, zig-zags, bushy, complete, random."""
    style = dec.below(7)
    full = dec.pick([7, 15, 31, 63, 70, 127, 140]) if style == 6 else 0
    out = []
    big = most is not None and most >= 40 and dec.chance(40)
    while (dec.left or big) and (most is None or len(out) < most):
        i = len(out)
        if style == 0:                               # random
            p, s = dec.below(256), dec.chance(128)
        elif style == 1:                             # deep
            p, s = (-1, dec.chance(128)) if dec.chance(200) else (
                dec.below(256), dec.chance(128))
        elif style == 2:                             # complete
            p, s = max(0, (i - 1) // 2), i % 2 == 0
        elif style == 3:                             # nearly complete
            p, s = (max(0, (i - 1) // 2), i % 2 == 0) if dec.chance(
                235) else (dec.below(256), dec.chance(128))
        elif style == 4:                             # strict
            if i % 2 == 1:
                p = dec.below(256)
                s = False
            else:
                p = 0
                s = True
            if i % 2 == 1:
                out.append((p, s, value(dec)))
                out.append((out[-1][0], not s, value(dec)))
                continue
        elif style == 6:                 # complete, then something below it
            if i < full:
                p, s = max(0, (i - 1) // 2), i % 2 == 0
            else:
                p, s = -dec.pick([1, 1, 1, 2, 4]), dec.chance(128)
        else:                                        # one-sided chain
            p, s = -1, dec.below(16) != 0
        out.append((p, s, value(dec)))
    return out


# ---------------------------------------------------------------- drawing
def parse_levels(ctx, text, root, label):
    """Check a binary-tree drawing against the shape: each level's labels on
    their own line in order, columns following the in-order, one branch sign
    per child, in order, between parent and child."""
    lines = text.split("\n")
    lv = levels(root)
    ctx.ok(f"drawing has {len(lines)} lines for {len(lv)} levels:\n{text}",
           len(lines) == 2 * len(lv) - 1)
    span = {}
    for d, nodes in enumerate(lv):
        line = lines[2 * d]
        toks, i = [], 0
        while i < len(line):
            if line[i] in " _":
                i += 1
                continue
            j = i
            while j < len(line) and line[j] not in " _":
                j += 1
            toks.append((line[i:j], i, j - 1))
            i = j
        want = [label(n) for n in nodes]
        ctx.ok(f"level {d} is drawn {[t[0] for t in toks]}, want {want}:\n"
               f"{text}", [t[0] for t in toks] == want)
        for n, (_, a, b) in zip(nodes, toks):
            span[id(n)] = (a, b)
        if d + 1 == len(lv):
            continue
        want = []
        for n in nodes:
            if n.l:
                want.append(("/", n, n.l))
            if n.r:
                want.append(("\\", n, n.r))
        got = [(c, i) for i, c in enumerate(lines[2 * d + 1]) if c != " "]
        ctx.ok(f"branches below level {d}: {''.join(c for c, _ in got)}, "
               f"want {''.join(c for c, _, _ in want)}:\n{text}",
               [c for c, _ in got] == [c for c, _, _ in want])
        for (c, col), (_, n, _ch) in zip(got, want):
            a, b = span[id(n)]
            ctx.ok(f"branch at column {col} on the wrong side of "
                   f"{label(n)}:\n{text}", col < a if c == "/" else col > b)
    order = [span[id(n)] for n in inorder(root)]
    ctx.ok(f"columns do not follow the in-order:\n{text}",
           all(a[1] < b[0] for a, b in zip(order, order[1:])))
    for nodes in lv:
        for n in nodes:
            if n.l:
                ctx.ok(f"left child right of {label(n)}:\n{text}",
                       span[id(n.l)][1] < span[id(n)][0])
            if n.r:
                ctx.ok(f"right child left of {label(n)}:\n{text}",
                       span[id(n.r)][0] > span[id(n)][1])


class G:
    """General tree node."""
    __slots__ = ("v", "kids")

    def __init__(self, v):
        self.v, self.kids = v, []


def draw_general(root, label):
    """The documented drawing of a general tree."""
    lines = []
    st = [(root, None, [])]      # node, is_last (None: root), ancestors' last
    while st:
        n, last, anc = st.pop()
        s = ""
        if last is not None:
            for a in anc:
                s += "  " if a else "│ "
            s += "└─" if last else "├─"
            s += "┬ " if n.kids else "─ "
        lines.append(s + label(n))
        nxt = anc + [last] if last is not None else anc
        for i in range(len(n.kids) - 1, -1, -1):
            st.append((n.kids[i], i == len(n.kids) - 1, nxt))
    return "\n".join(lines)


def glevels(root):
    out, cur = [], [root] if root else []
    while cur:
        out.append(cur)
        cur = [c for n in cur for c in n.kids]
    return out
