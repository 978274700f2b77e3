#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props_text.py (only properties whose check exists are claimed)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools"), V]
from props_text import PROPS, TECH  # noqa: E402
from sim.props.meta import PROPS as META  # noqa: E402

PY = "/opt/venv/bin/python -m sim.engine"
checks, na, lines = [], [], []
for p in PROPS:
    built = p["id"] in META and os.path.exists(os.path.join(V, "sim", "props", p["id"].lower() + ".py"))
    if not p["na"] and not built:
        continue
    lines.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                  "why_tests_cant": p["why"], "anchors": {"files": p["files"], "state": [],
                  "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                  "observe_at": p["observe"] or ["exit status and files of the command-line tools", "return values of the library functions"],
                  "hook_needed": None}})
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"{PY} {p['id']} --tier quick", "thorough_cmd": f"{PY} {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": META[p["id"]]["level"],
                   "level_note": "Seeded search over schedules, faults and inputs, not enumeration: " + p["decide"] +
                                 ". Trusts the numerical libraries, the preload seam (storage calls through libc) and the pool stand-in."})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from sim import shim; print(shim.build())\"",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is outside it (LD_PRELOAD storage seam, pool stand-ins, forks of one interpreter). The checks "
              "import /repo's working tree directly, nothing is built from it. Replay: /opt/venv/bin/python -m sim.engine <ID> --replay <file>."}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in lines:
        f.write(json.dumps(x) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for x in lines:
    assert len(x["title"]) <= 80, x["title"]
    assert len([s for s in x["statement"].replace("e.g.", "").split(". ") if s.strip()]) <= 3, x["id"]
print(len(checks), "checks,", len(na), "not applicable")
