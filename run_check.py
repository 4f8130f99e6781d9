#!/usr/bin/env python3-vt
"""run_check.py <property> [--tier quick|thorough]   |   run_check.py --replay FILE"""
import argparse, importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from specs import registry


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        c = registry.get(d["property"])
        for v in d["violations"]:
            for e in c.entries:
                if e.name == v["entry"] and "input" in v:
                    args = [v["input"][n] for n, _ in e.params]
                    print(e.name, v["input"], "->", e.native(args), "|", e.disagree(args))
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return registry.get(a.property).run(a.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
