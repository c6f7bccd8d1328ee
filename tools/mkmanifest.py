#!/usr/bin/env python3
"""Write MANIFEST.json from vz/meta.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vz import meta
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    c = meta.CHECKS.get(i)
    if c is None:
        m["not_applicable"].append({"property": i, "reason": "the monitor for this property is not built yet"})
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py --prop %s --tier quick" % i,
                        "thorough_cmd": "python3 check.py --prop %s --tier thorough" % i,
                        "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m["notes"] = ("All checks are runtime monitors: the real program is run as an unprivileged user under an LD_PRELOAD monitor (vz/shim.c) and judged "
              "by oracles in vz/. No hooks in /repo are needed. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
