#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = "Exhaustive over the listed spaces, on the real library code run in-process; trusts the reference model in mc/ and the Go toolchain."
CLI = "Exhaustive over the listed spaces, on the real commands built from the tree; trusts the reference model in mc/ and the Go toolchain."
BOTH = "Exhaustive over the listed spaces, on the real library in-process and the real commands built from the tree; trusts the reference model in mc/ and the Go toolchain."
MC = "explicit-state bounded model checking: exhaustive enumeration of inputs/options/histories within bounds, every execution of the real code compared with a reference model"
# id: (note, level, technique)
CHECKS = json.load(open(os.path.join(V, "tools", "checks.json")))
NAMES = {"LIB": LIB, "CLI": CLI, "BOTH": BOTH}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = CHECKS.get(i)
    if c is None or "na" in c:
        na.append({"property": i, "reason": c["na"] if c else "no check built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": c.get("technique", MC),
        "level": c.get("level", "model_checking"),
        "level_note": (NAMES.get(c["note"], c["note"]) + " " + c.get("more", "")).strip(),
    })
m = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harness packages and instrumented standard-library files go in through go build -overlay."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
