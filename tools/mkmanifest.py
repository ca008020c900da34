import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.registry import REGISTRY
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3-vt -c \"import z3, sympy\" && /opt/pypy-venv/bin/python -c \"import numpy, pandas, scipy\"",
     "checks": [], "not_applicable": []}
for p in props:
    if p in REGISTRY:
        r = REGISTRY[p]
        m["checks"].append({"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p,
                            "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                            "technique": r["technique"], "level": r["level"],
                            "level_note": r["note"] + (" " + r["bounded"] if r["bounded"] else "") + (" Assumed: " + "; ".join(r["assumed"]) if r["assumed"] else "")})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
