#!/usr/bin/env python3
"""Runs the check of one property:  python3 run.py C01 [--tier quick|thorough]
   Replays a recorded violation:    python3 run.py --replay replays/C01/<key>.json"""
import argparse, importlib, json, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        v = json.load(open(a.replay))
        run = core.Run(v["property"], "quick", a.seed)
        try:
            groups = run.conform(v["spec"], v["driver"], [v["case"]])
            print(json.dumps(groups[0], indent=1)[:20000])
            for x in run.violations:
                print("REJECTED", x["clauses"], json.dumps(x["event"])[:2000])
            return 1 if run.violations else 0
        finally:
            run.close()
    run = core.Run(a.property, a.tier, a.seed)
    try:
        checks.CHECKS[a.property](run)
        return run.finish()
    finally:
        run.close()


if __name__ == "__main__":
    try:
        rc = main()
    except core.Machinery as e:
        sys.stderr.write("MACHINERY FAILURE: %s\n" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
