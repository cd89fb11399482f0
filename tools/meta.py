#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and harness/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "harness"), os.path.join(V, "tools")]
from registry import CHECKS
from texts import PROPS, NOT_APPLICABLE
todo = [p["id"] for p in PROPS if p["id"] not in CHECKS and p["id"] not in NOT_APPLICABLE]
if todo:
    print("without a check:", todo)
PROPS = [p for p in PROPS if p["id"] not in todo]

PRE = {"I": "inputs", "S": "schedules", "C": "configurations", "H": "histories", "F": "fault_sequences"}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": [PRE[c] for c in p["over"]], "text": p["for_all"]},
             "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("observe", []), "hook_needed": None}}
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in CHECKS:
        assert p["id"] in NOT_APPLICABLE, p["id"]
        continue
    c = CHECKS[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": c.get("technique", "symbolic execution of the LLVM IR of /repo's sources, obligations decided by Z3/cvc5"),
                   "level": c.get("level", "model_checking"),
                   "level_note": "Bounded: " + c["bounds"] + "." + ("".join(" Assumes: " + a + "." for a in c["assumptions"])) + " Exact-real arithmetic unless a run says IEEE; counterexamples replayed on the ordinary build."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
     "notes": "No hooks in /repo. Every check rebuilds the symbolic and replay builds from /repo/src (objects cached by content under build/)."}
assert set(CHECKS) <= {p["id"] for p in PROPS}, set(CHECKS) - {p["id"] for p in PROPS}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks")
