#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of harnesses."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "harness"))
from registry import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        thr = any(h.get("threads") for h in p["harnesses"])
        tech = ("symbolic execution of the code's LLVM IR with all thread interleavings explored at visible operations; Z3 decides path feasibility and assertions"
                if thr else "symbolic execution of the code's LLVM IR; Z3 decides path feasibility and every assertion over all inputs within the bounds")
        note = "Holds for every input within: " + p["bounds"]["quick"] + ". " if p["bounds"].get("quick") else ""
        note += ("Outside: " + p["outside"] + ". ") if p["outside"] else ""
        note += "Counterexamples are replayed natively before they are reported. Trusted: clang's lowering to IR, the engine in symx/, the library model symx/rt.cc, Z3."
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the harnesses in harness/ include the real headers and sources. Known findings and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
