"""Writes MANIFEST.json: a check for every property that lib/checks.py decides."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
       "notes": "TLA+ specifications in spec/, checked by TLC and bound to the code by replaying their behaviours on the real code "
                "(driver/, under the repository's own interpreter with a stand-in OS) and validating the recorded traces against them."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                              "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                              "technique": checks.TECHNIQUE[i], "level": "model_checking", "level_note": checks.NOTE[i]})
    else:
        out["not_applicable"].append({"property": i, "reason": "not built yet"})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
