"""writes properties.jsonl and MANIFEST.json from catalog.py"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from catalog import P  # noqa: E402

TECH = "symbolic execution of the real code with an SMT solver (z3) over bounded sizes"
NOTE = ("every value of the symbolic inputs within the stated sizes and iteration counts, on the code as it is now in /repo; "
        "floating point is idealised as real arithmetic with a 1e-6 tolerance, external numerical routines are modelled as listed "
        "in the evidence; what a time limit left undecided is reported in the evidence and not claimed")
PY = "/opt/venv/bin/python"

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks, na = [], []
for p in P:
    if p["claim"] and os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")):
        checks.append(dict(property=p["id"], quick_cmd="%s symx/run.py %s --tier quick" % (PY, p["id"]),
                           thorough_cmd="%s symx/run.py %s --tier thorough" % (PY, p["id"]),
                           technique=p["technique"] or TECH, level="model_checking", level_note=p["note"] or NOTE))
    else:
        na.append(dict(property=p["id"], reason=p["reason"] or "not built yet"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="see DESIGN.md; checks are independent of each other and leave /repo untouched"),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
for fn in os.listdir(os.path.join(ROOT, "props")):
    pass
