"""Core vocabulary of the harness: cases, oracles' helpers, byte decoder.

A *case* is a JSON-like Python literal (dict/list/tuple/int/float/str/bool/
None).  A *target* is a pair gen(dec) -> case, run(case, ctx) -> None.  `run`
interprets the case against the code in /repo and an explicit oracle, and
raises Violation when they disagree.
"""
import ast
import hashlib
import struct
import warnings


class Violation(Exception):
    """The code under test broke the property."""


class Discard(Exception):
    """The case lies outside the property's domain (counted, not judged)."""


class Hang(BaseException):
    """Raised from the alarm handler / line budget."""


class Budget(BaseException):
    """Line budget exceeded: deterministic non-termination verdict."""


# --------------------------------------------------------------- literals
def lit(x):
    """repr that ast.literal_eval can read back (also for infinities)."""
    if isinstance(x, float):
        if x == float("inf"):
            return "1e999"
        if x == float("-inf"):
            return "-1e999"
        return repr(x)
    if type(x) is list:
        return "[" + ", ".join(lit(i) for i in x) + "]"
    if type(x) is tuple:
        return "(" + "".join(lit(i) + ", " for i in x) + ")"
    if type(x) is dict:
        return "{" + ", ".join(lit(k) + ": " + lit(v)
                               for k, v in x.items()) + "}"
    return repr(x)


def unlit(s):
    return ast.literal_eval(s)


# --------------------------------------------------------------- decoder
class Dec:
    """Structured reads from a byte string chosen by the generator engine."""

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.tail = None          # bytes beyond the end: a hash of the data

    @property
    def left(self):
        return max(0, len(self.data) - self.pos)

    def byte(self):
        if self.pos < len(self.data):
            b = self.data[self.pos]
            self.pos += 1
            return b
        if not self.tail:
            seed = self.data + self.pos.to_bytes(8, "big")
            self.tail = list(hashlib.sha256(seed).digest())
            self.pos += 1
        return self.tail.pop()

    def below(self, n):
        """0 <= x < n"""
        if n <= 1:
            return 0
        if n <= 256:
            return self.byte() % n
        k = (n - 1).bit_length() // 8 + 1
        v = 0
        for _ in range(k):
            v = v * 256 + self.byte()
        return v % n

    def rng(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, num, den=256):
        return self.byte() % den < num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        r = self.below(total)
        for v, w in pairs:
            if r < w:
                return v
            r -= w
        return pairs[-1][0]

    def bigint(self):
        n = self.rng(1, 10)
        v = 0
        for _ in range(n):
            v = v * 256 + self.byte()
        return -v if self.byte() & 1 else v

    def rawfloat(self):
        b = bytes(self.byte() for _ in range(8))
        f = struct.unpack(">d", b)[0]
        return f if f == f else 0.5


EDGES = [7, 8, 9, 10, 11, 15, 16, 17, 20, 21, 31, 32, 33, 50, 51, 63, 64, 65,
         99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300]


def size(dec, most):
    """An unusual size, often at a place where code likes to change."""
    if dec.chance(110):
        return min(most, dec.pick(EDGES))
    return dec.rng(6, most if dec.chance(128) else max(6, most // 3))


# --------------------------------------------------------------- values
ALPH = ["ab", "abc", "abcdefghijklmnopqrstuvwxyz", "aé漢🙂ß", "xyz 0_-/\\",
        "ABab01"]


def text(dec, maxlen=6, newline=True, alph=None):
    a = dec.pick(ALPH) if alph is None else alph
    n = dec.below(maxlen + 1)
    s = "".join(dec.pick(a) for _ in range(n))
    if maxlen >= 3 and dec.chance(6):
        s = s * dec.pick([3, 5, 9]) + s[:1]
    if newline and dec.chance(20):
        i = dec.below(n + 1)
        s = s[:i] + "\n" + s[i:]
    return s


VALUE_PROFILES = 8


def value(dec, profile):
    """An item a list-like container accepts."""
    if profile == 0:
        return dec.below(4)
    if profile == 1:
        return dec.rng(-9, 9)
    if profile == 2:
        b = dec.byte()
        if b < 120:
            return dec.bigint()
        k = dec.below(8)
        return 2 ** 53 + k if b < 190 else 10 ** 30 + k if b < 220 else \
            float(2 ** 53 + k) if b < 240 else 1 + k * 2.0 ** -52
    if profile == 3:
        return dec.pick([0, 0.0, -0.0, False, 1, 1.0, True, 2, 2.0, 0.5, -1,
                         -1.0, 10 ** 20, 1e20])
    if profile == 4:
        return text(dec, 3, True, "ab")
    if profile == 5:
        return text(dec, 130 if dec.chance(8) else 8)
    if profile == 6:
        k = dec.below(8)
        if k == 0:
            return dec.rng(-3, 3)
        if k == 1:
            return text(dec, 3)
        if k == 2:
            return (dec.below(3), text(dec, 1, False))
        if k == 3:
            return dec.pick([True, False])
        if k == 4:
            return dec.pick([b"", b"a", b"ab"])
        if k == 5:
            return dec.pick([0.5, -1.5, 1e300, float("inf"), float("-inf")])
        if k == 6:
            return [dec.below(3)] * dec.below(3)
        return ()
    return dec.below(256)


def values(dec, profile, n):
    return [value(dec, profile) for _ in range(n)]


NUM_PROFILES = 8


def number(dec, profile):
    """A key for an ordered set / heap."""
    if profile == 0:
        return dec.below(8)
    if profile == 1:
        return dec.rng(-20, 20)
    if profile == 2:
        return dec.below(65536) - 32768
    if profile == 3:
        return dec.pick([0, 0.0, 1, 1.0, 2, 2.0, 3, 3.0, 0.5, 1.5, -1, -1.0,
                         -0.5, -0.0, 1e-9, 1.0000000001, 2.9999999999])
    if profile == 4:
        b = dec.byte()                    # big, or close to one another
        if b < 80:
            return dec.bigint()
        k = dec.below(40)
        if b < 170:
            return 2 ** 53 + k
        if b < 195:
            return -2 ** 63 - k
        if b < 225:
            return 1 + k * 2.0 ** -52
        return 10 ** 30 + k
    if profile == 5:
        return dec.rng(-64, 64) / 4
    if profile == 6:
        k = dec.below(4)
        if k == 0:
            return dec.rawfloat()
        if k == 1:
            return dec.rng(-5, 5)
        if k == 2:
            return float(dec.rng(-5, 5))
        return dec.pick([10 ** 30, -10 ** 30, 1e300, -1e300, 2 ** 53,
                         2 ** 53 + 1, float(2 ** 53), 5e-324])
    return dec.below(100)


def numbers(dec, profile, n):
    """n keys, in an order chosen by the decoder (random, sorted, ...)."""
    order = dec.below(11)
    xs = [number(dec, profile) for _ in range(n)]
    if order == 1:
        xs.sort()
    elif order == 2:
        xs.sort(reverse=True)
    elif order == 3:                       # organ pipe / alternating extremes
        xs.sort()
        out = []
        while xs:
            out.append(xs.pop(0))
            if xs:
                out.append(xs.pop())
        xs = out
    elif order == 4:                       # a long one-sided chain below one
        xs.sort(reverse=dec.chance(128))   # or a few other numbers
        for _ in range(dec.rng(1, 3) if xs else 0):
            xs.insert(0, xs.pop(dec.below(len(xs))
                                if dec.chance(128) else -1))
    elif order == 5:                       # runs, up and down
        out = []
        while xs:
            k = dec.rng(2, 25)
            out += sorted(xs[:k], reverse=dec.chance(128))
            del xs[:k]
        xs = out
    elif order == 6:                       # from the middle outwards
        xs.sort()
        out = []
        while xs:
            out.append(xs.pop(len(xs) // 2))
        xs = out
    elif order == 7:                       # nearly sorted
        xs.sort(reverse=dec.chance(128))
        for _ in range(dec.below(4) if xs else 0):
            i, j = dec.below(len(xs)), dec.below(len(xs))
            xs[i], xs[j] = xs[j], xs[i]
    elif order == 8:                       # level by level, balanced
        xs.sort()
        cur, out = [xs], []
        while cur:
            nxt = []
            for c in cur:
                if c:
                    m = len(c) // 2
                    out.append(c[m])
                    nxt += [c[:m], c[m + 1:]]
            cur = nxt
        xs = out
    return xs


# --------------------------------------------------------------- comparing
def same(a, b):
    """Equal and of equal types, recursively; never raises."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b and repr(a) == repr(b)
    try:
        return bool(a == b)
    except Exception:
        return False


def esc(v):
    """The stored form of an item: line breaks of text are escaped."""
    return v.replace("\n", "\\n") if type(v) is str else v


def short(x, n=300):
    try:
        s = repr(x)
    except Exception as e:                                    # noqa
        s = f"<unprintable {type(x).__name__}: {type(e).__name__}>"
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


class Ctx:
    """Per-case services: guarded calls into the code under test."""

    def __init__(self):
        self.tags = {}
        self.nontrivial = False
        self.warns = []
        self.step = "start"
        self.in_setup = 0
        self.look = 0
        self.view = 0
        self.views = 0
        self.steps = 0

    def tag(self, name, k=1):
        self.tags[name] = self.tags.get(name, 0) + k

    def at(self, *what):
        self.step = what

    def due(self):
        """Is this step one after which the code is to be observed?"""
        self.steps += 1
        return self.look < 1 or self.steps % (self.look + 1) == 0

    def ask(self, *checks, whole=False):
        """Carry out the checks of one observation: all in order, or as the
        case's view says in reverse, beginning with another one each time, or
        a single one throughout (what one read refreshes, another may hide).
        """
        v = 0 if whole else self.view
        self.views += 1
        if v == -1:
            checks = checks[::-1]
        elif v == -2:
            k = self.views % len(checks)
            checks = checks[k:] + checks[:k]
        elif v > 0:
            checks = (checks[v % len(checks)],)
        for f in checks:
            f()

    # -- calls
    def sut(self, fn, *a, **k):
        """Call the code under test; any exception is a violation."""
        try:
            return fn(*a, **k)
        except (Violation, Discard, MemoryError):
            raise
        except Exception as e:
            raise Violation(
                f"at {short(self.step)}: {getattr(fn, '__name__', fn)} raised "
                f"{type(e).__name__}: {short(str(e), 200)}")

    def setup(self, fn, *a, **k):
        """Preparation another property answers for: a failure here puts the
        case outside this property's domain."""
        self.in_setup += 1
        try:
            r = fn(*a, **k)
        except (Discard, MemoryError):
            raise
        except Exception as e:
            raise Discard(f"setup raised {type(e).__name__}")
        self.in_setup -= 1
        return r

    def raises(self, exc, fn, *a, **k):
        """Call must raise one of `exc` (class or tuple)."""
        try:
            r = fn(*a, **k)
        except exc:
            return
        except (Violation, Discard, MemoryError):
            raise
        except Exception as e:
            raise Violation(
                f"at {short(self.step)}: expected {_names(exc)}, got "
                f"{type(e).__name__}: {short(str(e), 200)}")
        raise Violation(f"at {short(self.step)}: expected {_names(exc)}, "
                        f"but the call returned {short(r)}")

    # -- comparisons
    def eq(self, what, got, want):
        if not same(got, want):
            raise Violation(f"at {short(self.step)}: {what}: got {short(got)}"
                            f", want {short(want)}")

    def eqv(self, what, got, want):
        """Equality of numbers / lists of numbers by value only."""
        try:
            ok = (type(got) is type(want) or not isinstance(want, (list, str))
                  ) and bool(got == want)
        except Exception:
            ok = False
        if not ok:
            raise Violation(f"at {short(self.step)}: {what}: got {short(got)}"
                            f", want {short(want)}")

    def ok(self, what, cond):
        if not cond:
            raise Violation(f"at {short(self.step)}: {what}")

    # -- warnings
    def drain(self):
        """Number of UserWarnings since the last drain."""
        n = 0
        for w in self.warns:
            if isinstance(w.message, UserWarning):
                n += 1
        del self.warns[:]
        return n

    def expect_warning(self, want, what):
        n = self.drain()
        if want and n == 0:
            raise Violation(f"at {short(self.step)}: {what}: no warning")
        if not want and n != 0:
            raise Violation(f"at {short(self.step)}: {what}: unexpected "
                            "warning")


def _names(exc):
    if isinstance(exc, tuple):
        return "/".join(e.__name__ for e in exc)
    return exc.__name__


class recording:
    """Context manager feeding ctx.warns."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.ctx.warns = self.cm.__enter__()
        warnings.simplefilter("always")

    def __exit__(self, *a):
        return self.cm.__exit__(*a)
