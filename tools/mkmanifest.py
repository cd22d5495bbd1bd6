#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry harness/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
from props import PROPS
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in PROPS:
        P = PROPS[i]
        cmd = "/opt/venv/bin/python run.py %s " % i
        checks.append(dict(
            property=i, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", evidence_file="evidence/%s.json" % i,
            technique="Quint specification: generated behaviours driven through the real code, recorded traces validated against the spec"
                      + (" + Apalache/simulator checks of the abstract model " + ", ".join(m["module"] for m in P["models"]) if P.get("models") else ""),
            level="model_checking",
            level_note=P.get("note", "Conformance, not proof: every recorded call of the generated behaviours is judged by the exact-arithmetic Quint specification within derived rounding/tolerance budgets. Trusts the Quint simulator, the driver's recording and IEEE-exact logging.")))
    else:
        na.append(dict(property=i, reason="driver not built yet"))
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Checks import /repo/src directly (no build product needed).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
