#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import plan
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p not in plan.PLAN:
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"python3 harness/check.py {p} --tier quick",
        "thorough_cmd": f"python3 harness/check.py {p} --tier thorough",
        "technique": "TLA+ specification; TLC-generated behaviours replayed on the real code, recorded traces checked by TLC",
        "level": "model_checking",
        "level_note": plan.NOTES.get(p, "bounded: the behaviours TLC generates for the given seed and bounds"),
    })
na = [{"property": p, "reason": plan.NOT_APPLICABLE.get(p, "check under construction")} for p in props if p not in plan.PLAN]
m = {
    "version": 1,
    "setup_cmd": "bash harness/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ / TLC. spec/ holds the specification, harness/ the drivers; see DESIGN.md. /repo needs no hooks; its commits are all repairs (fix: ...), listed in known-findings.jsonl.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
