"""Coverage-guided search over the same targets (thorough tier).

The bytes libFuzzer evolves are what the decoder turns into a case, so every
input is a well-formed case; coverage of the package under test steers the
search. The oracle is the target's own."""
import json
import os
import random
import shutil
import subprocess
import sys

from pbt import engine

WALL_S = 900


def main(argv):
    """_fuzz PID TARGET RUNS SEED OUT   (in a process of its own)"""
    pid, tname, runs, seed, out = argv
    import hypothesis  # noqa: F401
    import atheris
    sys.dont_write_bytecode = True
    sys.path.insert(0, engine.REPO)
    with atheris.instrument_imports(include=["extra"]):
        import pkgutil
        import importlib
        import extra
        for m in pkgutil.walk_packages(extra.__path__, "extra."):
            importlib.import_module(m.name)
    engine.load_sut()
    engine.limit_memory()
    target = engine.registry()[pid].target(tname)
    rec = engine.Recorder()
    done = [0]

    def save(violation=None):
        res = rec.dump()
        res["pending"] = violation
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(out + ".tmp", out)

    def one(data):
        from pbt.core import lit
        case = target.make(data)
        st, msg, ctx = engine.execute_guarded(target, case)
        rec.note(target, case, st, ctx)
        done[0] += 1
        if st == "violation":
            save({"case": lit(case), "message": msg})
            os._exit(0)
        if done[0] % 500 == 0 or done[0] >= int(runs):
            save()
        if engine.HANGS[0] > 6:
            save()
            os._exit(0)

    # a starting corpus: random strings of all lengths the target uses
    start = out + ".corpus"
    shutil.rmtree(start, ignore_errors=True)
    os.makedirs(start)
    rnd = random.Random(int(seed))
    for i in range(48):
        with open(os.path.join(start, f"s{i}"), "wb") as f:
            f.write(rnd.randbytes(rnd.choice([24, 64, 128, 320, 700])))
    atheris.Setup([sys.argv[0], f"-runs={runs}", f"-seed={seed}",
                   "-max_len=700", "-len_control=0", "-timeout=0",
                   "-rss_limit_mb=0", "-verbosity=0",
                   f"-max_total_time={WALL_S}", start], one)
    atheris.Fuzz()


def campaign(rec, pid, target, runs, seed, out):
    """Run the driver and merge what it covered into `rec`; a violation is
    shrunk and recorded like any other."""
    from pbt.core import unlit
    if runs <= 0:
        return
    path = out + ".fuzz"
    try:
        subprocess.run(
            [sys.executable, os.path.join(engine.HERE, "run.py"), "_fuzz",
             pid, target.name, str(runs), str(seed % (1 << 31) or 1), path],
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, timeout=WALL_S + 120)
    except subprocess.TimeoutExpired:
        pass
    shutil.rmtree(path + ".corpus", ignore_errors=True)
    if not os.path.exists(path):
        rec.tags.setdefault("coverage_guided_run_without_answer",
                            [0, 0])[0] += 1
        return
    with open(path) as f:
        r = json.load(f)
    os.remove(path)
    rec.evals += r["evals"]
    rec.discards += r["discards"]
    rec.keys.update(r["keys"])
    for k, (a, b) in r["tags"].items():
        t = rec.tags.setdefault(k, [0, 0])
        t[0] += a
        t[1] += b
    for k, (a, b) in r["per_target"].items():
        t = rec.per_target.setdefault(k, [0, 0])
        t[0] += a
        t[1] += b
    rec.tags.setdefault("coverage_guided", [0, 0])[0] += r["evals"]
    if r["pending"]:
        case = unlit(r["pending"]["case"])
        st, msg, _ = engine.execute_guarded(target, case)
        if st == "violation":              # without instrumentation too
            engine.fail(rec, target, case, msg)
        else:
            rec.tags.setdefault("coverage_guided_not_reproduced",
                                [0, 0])[0] += 1
