#!/usr/bin/env python3
"""Write MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN, NOT_APPLICABLE, HOOK_COMMITS
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PLAN:
        p = PLAN[i]
        c = {"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py " + i,
             "evidence_file": "evidence/%s.json" % i,
             "technique": "contract-based deductive verification (Verus) of the functions extracted from /repo on every run; failing inputs searched on the compiled code",
             "level": p["level"], "level_note": p["note"]}
        if p.get("theorems"):
            c["theorems"] = p["theorems"]
        checks.append(c)
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "not claimed yet: its functions are not under contract")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "cfg(roster_verif)", "enable": "RUSTFLAGS=\"--cfg roster_verif\" (tools/build_harness.sh)", "source_commits": HOOK_COMMITS},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. known-findings.txt lists the repaired defects."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
