"""Rewrite the generated tables of DESIGN.md (per property, planted bugs) from
the registry, properties.jsonl, evidence/ and seeded/."""
import glob
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf.registry import REGISTRY

props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
rows = ["| id | property | functions under contract | obligations (back ends) | scope of the proof | concrete leg |", "|---|---|---|---|---|---|"]
for p in props:
    r = REGISTRY[p["id"]]
    try:
        c = json.load(open("%s/evidence/%s.json" % (ROOT, p["id"])))["coverage"]
    except (IOError, KeyError):
        continue
    fns = sorted({f.split(".", 1)[-1] if f.count(".") > 1 else f for f in c.get("functions_under_contract", [])})
    by = ", ".join("%s %d" % kv for kv in sorted(c.get("discharged_by_back_end", {}).items()))
    note = r["note"].replace("obligations generated from /repo's current source and discharged for all sizes and inputs", "all sizes and inputs")
    rows.append("| %s | %s | %d: %s | %s/%s (%s) | %s | %s evaluations |" % (
        p["id"], p["title"], len(fns), ", ".join(fns[:14]) + (", ..." if len(fns) > 14 else ""), c.get("discharged"), c.get("obligations"), by, note,
        c.get("evaluations")))
bugs = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = {}
if os.path.exists(ROOT + "/tools/caught.json"):
    caught = json.load(open(ROOT + "/tools/caught.json"))
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    bugs.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], caught.get(n, "?")))
s = open(ROOT + "/DESIGN.md").read()
for tag, t in (("PROPERTIES", rows), ("BUGS", bugs)):
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + "\n".join(t) + "\n" + s[j:]
open(ROOT + "/DESIGN.md", "w").write(s)
