"""Generation, execution, shrinking, replay and evidence."""
import hashlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", HERE)      # (development only)
NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
ALARM_S = 10
BUDGET_WALL_S = 90
GENERATE_S = {"quick": 420, "thorough": 14400}
QUICK_SCALE = float(os.environ.get("VERIF_SCALE", "3"))
DEFAULT_BUDGET = 8_000_000


def load_sut():
    """Import the package under test from the working tree, never from a
    byte-code cache."""
    import hypothesis  # noqa: F401  (cached normally, before the switch)
    import hypothesis.strategies  # noqa: F401
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/verif-no-pycache"
    sys.path.insert(0, REPO)
    import extra
    got = os.path.realpath(os.path.dirname(extra.__file__))
    want = os.path.realpath(os.path.join(REPO, "extra"))
    if got != want:
        raise RuntimeError(f"extra imported from {got}, not {want}")


def registry():
    from pbt import targets
    return targets.PROPS


# ------------------------------------------------------------- executing
def _on_alarm(sig, frame):
    from pbt.core import Hang
    raise Hang()


START = time.time()
LAST = [None]                      # the context of the case being executed


def execute(target, case):
    """-> (status, message, ctx); status in ok/discard/violation"""
    from pbt import core
    ctx = LAST[0] = core.Ctx()
    random.seed(case.get("rs", 0) if isinstance(case, dict) else 0)
    if isinstance(case, dict):
        ctx.look, ctx.view = case.get("look", 0), case.get("view", 0)
    from pbt.targets import reset_globals
    reset_globals()
    try:
        with core.recording(ctx):
            target.run(case, ctx)
        return "ok", "", ctx
    except core.Violation as e:
        return "violation", str(e), ctx
    except core.Discard as e:
        return "discard", str(e), ctx
    except MemoryError:
        raise
    except Exception:
        # Generated cases are well-formed, so what made the oracle stumble is
        # an answer of a kind no answer of that operation may be.
        return ("violation", f"{ODD} at {core.short(ctx.step)}: "
                + traceback.format_exc(limit=-3), ctx)


ODD = "an answer the oracle cannot read"


def execute_guarded(target, case):
    """execute() under an alarm; a hang is confirmed by a line budget."""
    from pbt import core
    signal.signal(signal.SIGALRM, _on_alarm)
    try:
        try:
            signal.setitimer(signal.ITIMER_REAL, ALARM_S, 5)
            return execute(target, case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except (core.Hang, MemoryError):
        pass
    HANGS[0] += 1
    return execute_budget(target, case, getattr(target, "budget",
                                                DEFAULT_BUDGET))


HANGS = [0]


def execute_budget(target, case, budget):
    """Run with a limit on executed lines (code under test and harness): a
    verdict of non-termination that does not depend on the machine's speed.
    A hang during preparation is out of domain; a run that reaches neither
    its end nor the budget in BUDGET_WALL_S is not judged."""
    from pbt import core
    left = [budget]
    prefixes = (os.path.join(REPO, "extra"),
                os.path.join(HERE, "pbt", "targets"))

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(prefixes):
            return None
        if event == "line":
            left[0] -= 1
            if left[0] < 0:
                sys.settrace(None)
                raise core.Budget()
        return tracer

    signal.signal(signal.SIGALRM, _on_alarm)
    try:
        try:
            signal.setitimer(signal.ITIMER_REAL, BUDGET_WALL_S, 5)
            sys.settrace(tracer)
            return execute(target, case)
        finally:
            sys.settrace(None)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except core.Budget:
        if LAST[0].in_setup:
            return "discard", "preparation did not finish", LAST[0]
        return ("violation", f"did not finish within {budget} executed lines; "
                f"last step {core.short(LAST[0].step)}", None)
    except (core.Hang, MemoryError):
        LAST[0].tag("not_judged_time_or_memory")
        return "discard", "time or memory", LAST[0]


# -------------------------------------------------------------- shrinking
def _paths(x, path=()):
    """All list-valued positions inside a case."""
    out = []
    if isinstance(x, dict):
        for k in x:
            out += _paths(x[k], path + (k,))
    elif isinstance(x, list):
        out.append(path)
        for i, y in enumerate(x):
            out += _paths(y, path + (i,))
    elif isinstance(x, tuple):
        for i, y in enumerate(x):
            out += _paths(y, path + (i,))
    return out


def _get(x, path):
    for k in path:
        x = x[k]
    return x


def _put(x, path, v):
    if not path:
        return v
    k = path[0]
    if isinstance(x, dict):
        d = dict(x)
        d[k] = _put(x[k], path[1:], v)
        return d
    items = list(x)
    items[k] = _put(items[k], path[1:], v)
    return tuple(items) if isinstance(x, tuple) else items


def _scalars(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from _scalars(x[k], path + (k,))
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from _scalars(y, path + (i,))
    else:
        yield path, x


def _smaller(v):
    if type(v) is bool:
        return [False] if v else []
    if type(v) is int:
        c = [0, 1, v // 2, v - 1 if v > 0 else v + 1, abs(v)]
        return [x for x in dict.fromkeys(c)
                if abs(x) < abs(v) or (x >= 0 > v and abs(x) == abs(v))]
    if type(v) is float:
        if v != v or v in (float("inf"), float("-inf")):
            return []
        return [x for x in (0, 1, int(v)) if lit_len(x) < lit_len(v)]
    if type(v) is str and v:
        out = [v[:len(v) // 2], v[len(v) // 2:], v[:-1], v[1:]]
        if len(v) <= 12:
            out += [v[:i] + v[i + 1:] for i in range(1, len(v) - 1)]
        return out
    return []


def lit_len(x):
    return len(repr(x))


def shrink(case, fails, max_evals=1200, max_s=45):
    """Greedy minimisation: drop list chunks, then simplify scalars.
    Operation records are tuples, so they are kept whole."""
    t0 = time.time()
    evals = [0]

    def attempt(c):
        if evals[0] >= max_evals or time.time() - t0 > max_s:
            return False
        evals[0] += 1
        try:
            return fails(c)
        except Exception:
            return False

    changed = True
    while changed:
        changed = False
        for path in _paths(case):
            try:
                lst = _get(case, path)
            except (IndexError, KeyError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and lst:
                i = 0
                while i < len(lst):
                    cand = lst[:i] + lst[i + n:]
                    c = _put(case, path, cand)
                    if attempt(c):
                        case, lst = c, cand
                        changed = True
                    else:
                        i += n
                n //= 2
        for path, v in list(_scalars(case)):
            if path and path[-1] == 0 and isinstance(v, str):
                continue                                  # operation tag
            for w in _smaller(v):
                try:
                    c = _put(case, path, w)
                except (IndexError, KeyError, TypeError):
                    break
                if attempt(c):
                    case = c
                    changed = True
                    break
        if evals[0] >= max_evals or time.time() - t0 > max_s:
            break
    return case


# ---------------------------------------------------------------- worker
def case_key(target, case):
    from pbt.core import lit
    return hashlib.blake2b((target.name + lit(case)).encode(
        "utf-8", "surrogatepass"), digest_size=8).hexdigest()


class Recorder:
    def __init__(self):
        self.evals = 0
        self.discards = 0
        self.keys = set()
        self.tags = {}
        self.samples = []
        self.seen = {}
        self.violation = None
        self.per_target = {}
        self.hang_checked = 0

    def note(self, target, case, status, ctx):
        self.evals += 1
        pt = self.per_target.setdefault(target.name, [0, 0])
        pt[0] += 1
        if status == "discard":
            self.discards += 1
            if ctx is not None and "not_judged_time_or_memory" in ctx.tags:
                self.tags.setdefault("not_judged", [0, 0])[0] += 1
            return
        if ctx is None:
            return
        for k, v in ctx.tags.items():
            t = self.tags.setdefault(k, [0, 0])
            t[0] += 1
            t[1] += v
        if ctx.nontrivial:
            pt[1] += 1
            key = case_key(target, case)
            if key not in self.keys:
                self.keys.add(key)
                n = self.seen[target.name] = self.seen.get(target.name, 0) + 1
                if n in (1, 3, 40, 200):
                    from pbt.core import lit, short
                    self.samples.append(
                        {"target": target.name, "case": short(lit(case), 700)})

    def dump(self):
        return {"evals": self.evals, "discards": self.discards,
                "keys": sorted(self.keys), "tags": self.tags,
                "samples": self.samples, "violation": self.violation,
                "per_target": self.per_target}


def fail(rec, target, case, msg):
    """Shrink a failing case and record it."""
    hang = "did not finish within" in msg
    if msg.startswith(ODD):
        small = case
    elif hang:
        budget = getattr(target, "budget", DEFAULT_BUDGET) // 4

        def fails(c):
            st, m, _ = execute_budget(target, c, budget)
            return st == "violation" and not m.startswith(ODD)
        small = shrink(case, fails, max_evals=40, max_s=30)
    else:
        def fails(c):
            if HANGS[0] > limit:
                return False
            st, m, _ = execute_guarded(target, c)
            return st == "violation" and not m.startswith(ODD)
        limit = HANGS[0] + 2
        small = shrink(case, fails)
    st, m, _ = execute_guarded(target, small)
    if st != "violation":
        small, m = case, msg
    from pbt.core import lit
    rec.violation = {"target": target.name, "case": lit(small), "message": m,
                     "original": lit(case)[:4000]}


def limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 29, 3 << 29))
    except (ValueError, OSError):
        pass


def sizes(tier):
    # (bytes of entropy, weight): small cases dominate, large ones are kept
    if tier == "quick":
        return [(10, 1), (20, 1), (36, 4), (64, 4), (128, 4), (320, 2),
                (900, 1)]
    return [(10, 1), (20, 1), (36, 3), (64, 4), (128, 4), (320, 3), (900, 2),
            (3000, 1)]


def worker(pid, idx, tier, seed, out):
    load_sut()
    limit_memory()
    prop = registry()[pid]
    rec = Recorder()
    err = None
    try:
        if idx == 0:
            for tname, case in regression_cases(pid):
                target = prop.target(tname)
                if target is None:
                    continue
                st, msg, ctx = execute_guarded(target, case)
                rec.note(target, case, st, ctx)
                rec.tags.setdefault("regression_case", [0, 0])[0] += 1
                if st == "violation":
                    fail(rec, target, case, msg)
                    break
        for ti, (target, n_quick, n_thorough) in enumerate(prop.targets):
            if rec.violation:
                break
            total = (int(n_quick * QUICK_SCALE) if tier == "quick"
                     else n_thorough)
            n = total // NWORKERS + (1 if idx < total % NWORKERS else 0)
            if n:
                generate(rec, target, n, tier, f"{seed}/{pid}/{ti}/{idx}")
            if tier == "thorough" and not rec.violation:
                from pbt import fuzz
                fuzz.campaign(rec, pid, target, n // 4,
                              seed * 1000 + ti * 100 + idx + 1, out)
    except Exception:
        err = traceback.format_exc()
    res = rec.dump()
    res["error"] = err
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)


class _Stop(Exception):
    pass


def generate(rec, target, n, tier, seedtext):
    import hypothesis
    from hypothesis import HealthCheck, Phase, strategies as st
    pool = getattr(target, "sizes", None) or sizes(tier)
    flat = [s for s, w in pool for _ in range(w)]
    strat = st.sampled_from(flat).flatmap(
        lambda k: st.binary(min_size=k, max_size=k))
    hseed = int(hashlib.sha256(seedtext.encode()).hexdigest()[:15], 16)
    state = {"stop": False, "cut": False}
    deadline = START + GENERATE_S[tier]

    @hypothesis.seed(hseed)
    @hypothesis.settings(max_examples=n, database=None, deadline=None,
                         phases=[Phase.generate], derandomize=False,
                         suppress_health_check=list(HealthCheck),
                         report_multiple_bugs=False)
    @hypothesis.given(strat)
    def prop(data):
        if state["stop"] or state["cut"]:
            raise _Stop()
        if time.time() > deadline or HANGS[0] > 6:
            state["cut"] = True
            rec.tags.setdefault("generation_cut_short", [0, 0])[0] += 1
            raise _Stop()
        case = target.make(data)
        st_, msg, ctx = execute_guarded(target, case)
        rec.note(target, case, st_, ctx)
        if st_ == "violation":
            state["stop"] = True
            state["case"], state["msg"] = case, msg
            raise _Stop()

    try:
        prop()
    except Exception:
        if not state["stop"] and not state["cut"]:
            raise
    if state["stop"]:
        fail(rec, target, state["case"], state["msg"])


def regression_cases(pid):
    from pbt.core import unlit
    d = os.path.join(HERE, "corpus", pid)
    out = []
    if os.path.isdir(d):
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".json"):
                with open(os.path.join(d, fn)) as f:
                    j = json.load(f)
                out.append((j["target"], unlit(j["case"])))
    return out


# ------------------------------------------------------- known findings
def known_findings(pid):
    """Lines of KNOWN_FINDINGS.txt that suppress: 
    known: property=<id> corpus=<file> <what fails>"""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known: property=" + pid + " "):
                    out.append(line.strip())
    return out


# ---------------------------------------------------------------- parent
def check(pid, tier, seed):
    t0 = time.time()
    tmp = os.path.join(OUT, ".work", f"{pid}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    for line in known_findings(pid):
        print("KNOWN-FINDING: " + line[len("known: "):])
    procs = []
    for i in range(NWORKERS):
        out = os.path.join(tmp, f"w{i}.json")
        log = open(os.path.join(tmp, f"w{i}.log"), "wb")
        procs.append((i, out, subprocess.Popen(
            [sys.executable, os.path.join(HERE, "run.py"), "_worker", pid,
             str(i), tier, str(seed), out],
            stdout=log, stderr=subprocess.STDOUT)))
        log.close()
    results, errors = [], []
    pending = list(procs)
    found = False
    while pending:
        for rec in list(pending):
            i, out, p = rec
            if p.poll() is None:
                continue
            pending.remove(rec)
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if r["error"]:
                    errors.append(f"worker {i}:\n{r['error']}")
                if r["violation"]:
                    found = True
            else:
                with open(out[:-5] + ".log", "rb") as f:
                    text = f.read()[-3000:].decode("utf-8", "replace")
                errors.append(f"worker {i} ended {p.returncode}:\n{text}")
        if found and pending:
            # the others would only find the same: end them
            deadline = time.time() + 2
            while time.time() < deadline and any(
                    p.poll() is None for _, _, p in pending):
                time.sleep(0.05)
            for _, _, p in pending:
                if p.poll() is None:
                    p.kill()
            for _, _, p in pending:
                p.wait()
            pending = []
        time.sleep(0.02)
    return finish(pid, tier, seed, results, errors, time.time() - t0, tmp)


def finish(pid, tier, seed, results, errors, wall, tmp):
    import shutil
    load_sut()
    prop = registry()[pid]
    shutil.rmtree(tmp, ignore_errors=True)
    keys, tags, samples, per_target = set(), {}, [], {}
    evals = discards = 0
    violation = None
    for r in results:
        evals += r["evals"]
        discards += r["discards"]
        keys.update(r["keys"])
        for k, (a, b) in r["tags"].items():
            t = tags.setdefault(k, [0, 0])
            t[0] += a
            t[1] += b
        for k, (a, b) in r["per_target"].items():
            t = per_target.setdefault(k, [0, 0])
            t[0] += a
            t[1] += b
        samples += r["samples"]
        if r["violation"]:
            v = r["violation"]
            if violation is None or len(v["case"]) < len(violation["case"]):
                violation = v
    seen, picked = set(), []
    for s in sorted(samples, key=lambda s: (len(s["case"]), s["case"])):
        k = (s["target"], len(s["case"]) // 100)
        if k not in seen:
            seen.add(k)
            picked.append(s)
    picked += [s for s in samples if s not in picked][:max(0, 6 - len(picked))]
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(keys),
            "rule": prop.rule,
            "samples": picked[:12],
            "discarded_out_of_domain": discards,
            "cases_per_target": {k: {"run": a, "nontrivial": b}
                                 for k, (a, b) in sorted(per_target.items())},
            "classes": {k: {"cases": a, "occurrences": b}
                        for k, (a, b) in sorted(tags.items())},
            "exhaustive": False,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 3),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    if violation:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        h = hashlib.blake2b(violation["case"].encode(
            "utf-8", "surrogatepass"), digest_size=5).hexdigest()
        path = os.path.join(OUT, "replays", f"{pid}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, **violation}, f,
                      indent=1)
        print(f"{pid}: {violation['message']}")
        print(f"  case: {violation['case'][:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("HARNESS ERROR", e, file=sys.stderr)
        return 2
    if not keys:
        print("HARNESS ERROR no non-trivial case", file=sys.stderr)
        return 2
    print(f"{pid}: held on {evals} cases ({len(keys)} distinct non-trivial, "
          f"{discards} out of domain) in {wall:.1f}s")
    return 0


def replay(path):
    from pbt.core import unlit
    with open(path) as f:
        j = json.load(f)
    load_sut()
    limit_memory()
    prop = registry()[j["property"]]
    target = prop.target(j["target"])
    st, msg, _ = execute_guarded(target, unlit(j["case"]))
    print(st, msg)
    if st == "violation":
        print(f"VIOLATION property={j['property']} replay={path}")
        return 1
    return 0
