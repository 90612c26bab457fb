#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (tools/props.json + the texts below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
exec(open(os.path.join(V, "tools", "props.txt")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P + NA:
        q = {k: p[k] for k in ("id", "title", "statement")}
        assert len(q["title"]) <= 80, q["id"]
        q["quantifier"] = {"over": p.get("over", ["inputs"]), "text": p["all"]}
        q["why_tests_cant"] = p["tests"]
        q["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        f.write(json.dumps(q) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 run.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
        "technique": "bounded symbolic execution of the crate's compiled LLVM IR, assertions decided by z3",
        "level": "model_checking",
        "level_note": p["note"] + " Holds for every value within the bounds listed per harness in the evidence file; trusts rustc's lowering to LLVM IR, the executor in engine/, z3, and the models of memchr/hashbrown/crc32fast in harness/stubs.",
    } for p in P],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "DESIGN.md describes the approach; known_findings.txt lists repaired and recorded defects.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
