"""Write MANIFEST.json from the registry of checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "L": "model-based property testing: generated edit histories of linked "
         "lists against a plain-list model",
    "S": "model-based property testing: generated histories of containers "
         "against a reference queue/stack/priority model",
    "K": "model-based property testing: generated skip-list histories against "
         "a sorted set, structure invariants included",
    "T": "property-based testing: generated trees against a reference tree "
         "model, round trips and metamorphic relations",
    "B": "model-based property testing: generated histories of search trees "
         "against a sorted set and reference shapes, invariants after steps",
    "H": "model-based property testing: generated heap histories against a "
         "multiset, heap-shape invariant after every step",
    "R": "model-based property testing: generated word histories against a "
         "set of words and a reference trie",
    "X": "property-based testing: generated texts against brute-force string "
         "oracles",
    "N": "model-based property testing: generated histories of linking nodes "
         "against a model of their links, every node read back after each "
         "step",
    "C": "metamorphic and differential property testing over all structures",
}
SPECIAL = {
    "C06": "property-based testing on large generated inputs against sorted "
           "lists, sets and closed-form shapes",
    "C05": "metamorphic property testing: one history under different and "
           "equal random states",
}
NOTE = ("Searches generated cases only, seeded by VERIF_SEED; never "
        "establishes absence. Every failing case is shrunk and saved as a "
        "replay file (python3-vt run.py replay FILE). Trusts the reference "
        "model in /verif/pbt/targets and CPython.")


def main():
    checks = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        pid = json.loads(line)["id"]
        checks.append({
            "property": pid,
            "quick_cmd": f"./check.sh {pid} quick",
            "thorough_cmd": f"./check.sh {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": SPECIAL.get(pid, TECH[pid[0]]),
            "level": "exploration",
            "level_note": NOTE,
        })
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
         "not_applicable": [],
         "notes": "Pure Python: nothing is built; each check imports "
                  "/repo/extra from the working tree without byte-code "
                  "caches. No hooks in /repo are needed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
