#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from claims import CLAIMS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CLAIMS: continue
    c = CLAIMS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 tools/check.py %s quick" % p,
        "thorough_cmd": "python3 tools/check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c.get("technique", "contract-based deductive verification (Verus) of the extracted real functions; bounded stand-in for what is not under contract"),
        "level": c["level"],
        "level_note": c.get("note", "") or ("Every function listed in the evidence is verified against its contract for all inputs and iterations; bounded (not proved): " + c["bounded"] + ". Assumes: " + "; ".join(c["assumptions"]) + "."),
    })
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")} for p in props if p not in CLAIMS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks: the extraction works on the unmodified sources."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
