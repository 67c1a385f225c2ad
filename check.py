#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decide one property on /repo's current source.

exit 0: holds (listed known findings are printed), exit 1: VIOLATION."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), HERE]
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evp = os.path.join(HERE, "evidence", a.id + ".json")

    def crash(key, msg):
        ev = {"property": a.id, "tier": a.tier, "seed": seed, "level": "other",
              "coverage": {"explanation": "the analysis could not decide the property on this tree, which counts "
                                          "against the tree (fail closed): " + msg,
                           "violation_list": [{"key": key, "what": msg}], "obligations": 0, "discharged": 0},
              "assumptions": [], "wall_s": round(time.time() - t0, 3), "violations": 1}
        json.dump(ev, open(evp, "w"), indent=1)
        print("%s: %s" % (key, msg))
        print("VIOLATION property=%s replay=%s" % (a.id, evp))
        return 1

    try:
        import core
        mod = importlib.import_module("checks." + a.id.lower())
        c = core.Ctx(a.id, a.tier, seed)
    except Exception as e:
        traceback.print_exc()
        return crash("extract", "no program to analyse: %s" % str(e)[-1500:])
    try:
        info = mod.run(c)
    except Exception as e:
        traceback.print_exc()
        c.fail("analysis:%s" % type(e).__name__, "%s: %s" % (type(e).__name__, e))
        info = {}
    floor = getattr(mod, "FLOOR", 1)
    if c.obl < floor and not c.fails:
        c.fail("floor", "only %d obligations were generated, at least %d are expected" % (c.obl, floor))
    info = info or {}
    level = getattr(mod, "LEVEL", "other")
    ev, new, old, kf = core.finish(c, level, mod.EXPLANATION, getattr(mod, "ASSUMPTIONS", []) + core.BASE_ASSUMPTIONS,
                                   extra=info, rule=mod.RULE)
    json.dump(ev, open(evp, "w"), indent=1)
    for k in old:
        print("KNOWN-FINDING: property=%s %s" % (a.id, kf[k]))
    print("%s: %d obligations, %d discharged, %d functions, %.1f s" % (
        a.id, c.obl, c.obl - len(c.fails), ev["coverage"]["functions_analysed"], ev["wall_s"]))
    if new:
        for k, w in new[:40]:
            print("  %s: %s" % (k, w))
        print("VIOLATION property=%s replay=%s" % (a.id, evp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
