#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import table
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {
        "guard": "cfg(vs_hooks)",
        "enable": "RUSTFLAGS=--cfg vs_hooks (set by build.sh)",
        "source_commits": ["cdbd46e"],
    },
    "checks": [],
    "not_applicable": [],
}
for p in props:
    c = table.CHECKS.get(p["id"])
    if c is None:
        m["not_applicable"].append({"property": p["id"], "reason": table.NOT_APPLICABLE.get(p["id"], "no check yet")})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "./check %s quick" % p["id"],
        "thorough_cmd": "./check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "symbolic execution of the compiled crates' LLVM IR with z3 (bounded); counterexamples replayed natively",
        "level": "model_checking",
        "level_note": c.get("note", "Holds for every input within the bounds the evidence states; nothing is claimed outside them.") + " Trusts rustc's IR, the engine's IR semantics (compared with native runs on sampled paths) and z3.",
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
