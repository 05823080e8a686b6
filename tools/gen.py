"""Writes properties.jsonl and MANIFEST.json from tools/spec.py (one entry per property)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from spec import PROPS, NOTES
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if "na" in p:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append({
        "property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p.get("technique", "symbolic execution of the real numpy code on expression arrays; SMT (z3) decides each obligation; counterexamples replayed on the real code"),
        "level": p.get("level", "model_checking"), "level_note": p["note"]})
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na, notes=NOTES),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
