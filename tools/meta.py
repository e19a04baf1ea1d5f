#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from properties import PROPS, NA  # noqa: E402

TECH = "symbolic execution of the real functions + SMT (z3/cvc5), counterexamples replayed on the real code"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p.get("observe", []),
                            "hook_needed": None},
            }) + "\n")
    checks = []
    na = []
    for p in PROPS:
        if p["id"] in NA:
            na.append({"property": p["id"], "reason": NA[p["id"]]})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./run.py {p['id']} --tier quick",
            "thorough_cmd": f"./run.py {p['id']} --tier thorough",
            "technique": p.get("technique", TECH),
            "level": "model_checking",
            "level_note": p["note"],
        })
    man = {"version": 1, "setup_cmd": "./run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. DESIGN.md describes the engine, bounds and findings."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
