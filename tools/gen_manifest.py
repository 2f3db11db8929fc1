#!/usr/bin/env python3
"""Writes MANIFEST.json from az/registry.py (checks built so far) and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
try:
    from az import registry
    reg, na = registry.CHECKS, registry.NOT_APPLICABLE
except ImportError:
    reg, na = {}, {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in reg:
        c = reg[i]
        checks.append({"property": i,
                       "quick_cmd": f"python3 run.py --property {i} --tier quick",
                       "thorough_cmd": f"python3 run.py --property {i} --tier thorough",
                       "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        nas.append({"property": i, "reason": na.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": nas,
     "notes": "Static analysis only: clang -> LLVM IR -> azx (C++ exporter) -> az/ (Python abstract interpretation). See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(nas), "not applicable")
