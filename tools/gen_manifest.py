"""Writes MANIFEST.json: one check per property that has a module in mc/checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "explicit-state exploration of the real code in lock-step with a reference model"
NOTE = ("Every history/input of the stated bounded space is executed on the real code and compared with an "
        "independently written reference model after every step; nothing outside the bounds is claimed. "
        "Trusted: the Python interpreter and the reference model in mc/checks/%s.py.")
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc", "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./run.sh %s quick" % i, thorough_cmd="./run.sh %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH, level="model_checking",
                           level_note=NOTE % i.lower()))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="Pure-Python checks that import /repo's working tree directly; no hooks in /repo."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "unclaimed")
