#!/usr/local/bin/python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
sys.argv = ["x", "C00"]
sys.path.insert(0, V)
import types
r = types.ModuleType("run")
for n in ("Group", "Run", "Fail", "must", "ROOT"):
    setattr(r, n, type(n, (), {}))
sys.modules["run"] = r
import checks
import manifest_notes as mn
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                            "technique": mn.TECH.get(p, mn.TECH["*"]), "level": mn.LEVEL.get(p, "model_checking"), "level_note": mn.NOTE.get(p, mn.NOTE["*"])})
    else:
        m["not_applicable"].append({"property": p, "reason": mn.NA.get(p, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
