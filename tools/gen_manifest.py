#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    c = CHECKS.get(pid)
    if not c:
        na.append(dict(property=pid, reason="no check built yet (in progress); see DESIGN.md"))
        continue
    mods = sorted({m["module"] for m in c.get("models", [])} | {x["gen"]["module"] for x in c["confs"] if x.get("gen")})
    recs = sorted({x["module"] for x in c["confs"]})
    tech = "TLA+ specification (%s), executions of the code judged by TLC against it" % ", ".join(recs)
    if mods:
        tech = "TLA+ model checked with TLC (%s); " % ", ".join(mods) + tech
    note = c.get("note") or ("Every recorded execution is checked line by line by TLC against the specification; "
        "within the bounds in DESIGN.md. Trusts TLC, the JSON projection in harness/, and that the recorder's inputs are representative beyond the exhaustive part.")
    checks.append(dict(property=pid, quick_cmd="python3 run.py %s --tier quick" % pid,
                       thorough_cmd="python3 run.py %s --tier thorough" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=tech, level="model_checking", level_note=note))
json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed: the library is sequential and its public API exposes the abstract state."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
