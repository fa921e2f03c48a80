#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property of properties.jsonl that has a harness file."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl") if l.strip()]
bounds = json.load(open(root + "/harness/bounds.json"))
NOTE = ("Every feasible path of the harness through the real code (Go SSA of /repo's current source) within the stated bounds is executed symbolically; "
        "each assertion is decided by z3 for all inputs of the path; counterexamples and sampled paths are replayed natively against the real code. "
        "Trusted: go/ssa, the symbolic executor and its models of library leaves (cross-checked natively on sampled paths), z3. Bounds: ")
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(f"{root}/harness/props/{i.lower()}.go"):
        na.append({"property": i, "reason": "not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the Go SSA of the real code + SMT (z3), bounded",
        "level": "model_checking",
        "level_note": NOTE + bounds.get(i, "see DESIGN.md"),
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the harnesses use the exported API and in-package code is reached through it", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Solver-based checking of the real code; see DESIGN.md. Findings and repairs: known_findings.txt.",
}, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
