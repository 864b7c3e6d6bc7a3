#!/usr/bin/env python3
"""check PID | replay FILE | list   (run under python3-vt, see check.sh)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import engine  # noqa: E402


def main(argv):
    if argv[0] == "_worker":
        pid, idx, tier, seed, out = argv[1:6]
        engine.worker(pid, int(idx), tier, int(seed), out)
        return 0
    if argv[0] == "_fuzz":
        from pbt import fuzz
        return fuzz.main(argv[1:])
    if argv[0] == "check":
        tier = argv[2] if len(argv) > 2 else os.environ.get(
            "VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        return engine.check(argv[1], tier, seed)
    if argv[0] == "replay":
        return engine.replay(argv[1])
    if argv[0] == "list":
        engine.load_sut()
        for pid, p in engine.registry().items():
            print(pid, [(t.name, q, th) for t, q, th in p.targets])
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
