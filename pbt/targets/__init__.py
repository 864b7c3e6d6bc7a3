"""Registry of properties: which targets decide which property."""
import importlib
import zlib

from pbt.core import Dec

# every step is looked at, or only every (k+1)-th: what the code remembers
# between two looks is refreshed by none in between
LOOKS = (0, 0, 0, 0, 1, 1, 2, 3, 5)

# how the reads of one look are arranged (see Ctx.ask): as written, in
# reverse, taking turns, or one single read in the whole history
VIEWS = (0,) * 8 + (-1, -1, -2, -2) + (1,) * 6


class Target:
    name = "?"
    budget = 8_000_000
    sparse = False           # steps are observed now and then (see Ctx.due)

    def gen(self, dec):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def make(self, data):
        case = self.gen(Dec(data))
        if self.sparse:
            k = zlib.crc32(data)
            case["look"] = LOOKS[k % len(LOOKS)]
            case["view"] = VIEWS[k // 64 % len(VIEWS)] * (
                1 + k // 4096 % 60 if VIEWS[k // 64 % len(VIEWS)] > 0 else 1)
        return case


class Prop:
    def __init__(self, pid, rule, targets, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.targets = targets            # [(Target, n_quick, n_thorough)]
        self.assumptions = list(assumptions)

    def target(self, name):
        for t, _, _ in self.targets:
            if t.name == name:
                return t
        return None


PROPS = {}


def register(pid, rule, targets, assumptions=()):
    assert pid not in PROPS, pid
    PROPS[pid] = Prop(pid, rule, targets, assumptions)


DEFAULTS = []


def reset_globals():
    """Process-wide switches of the package, put back to what the package
    itself sets before every case."""
    from extra.lists.priority_queue import PriorityQueue
    from extra.trees.treap import Treap
    if not DEFAULTS:
        DEFAULTS.extend([PriorityQueue.SHOW_PRIORITY, Treap.SHOW_PRIORITY])
    PriorityQueue.SHOW_PRIORITY, Treap.SHOW_PRIORITY = DEFAULTS


for _m in ("lists", "containers", "skiplist", "btree", "search", "heaps",
           "tries", "suffix", "cross", "scale", "nodes"):
    try:
        importlib.import_module("pbt.targets." + _m)
    except ModuleNotFoundError as e:
        if e.name != "pbt.targets." + _m:
            raise
