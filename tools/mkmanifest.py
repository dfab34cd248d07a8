"""writes /verif/MANIFEST.json from properties.jsonl and the registered specifications"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from specs import units
units.load_all()
NA = {}
f = os.path.join(H, "tools", "notapplicable.json")
if os.path.exists(f):
    NA = json.load(open(f))
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    pr = json.loads(l)
    i = pr["id"]
    if i in units.PROPS and i not in NA:
        P = units.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3-vt check.py %s --tier quick" % i, thorough_cmd="python3-vt check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="contract-based deductive verification: contracts on the real functions, verification conditions generated from the current source by symbolic execution and discharged by an algebraic normaliser and z3",
                           level=P.level, level_note=P.note or "all obligations over exact real arithmetic, for all inputs in the stated domains; trusted contracts on numpy/scipy are listed in the evidence"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the contracts of this property are not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes="see DESIGN.md; known findings in known_findings.json"),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
