#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [], "not_applicable": [],
     "notes": "TLA+ specification in spec/, checked with TLC; traces of the real code recorded by harness/ are validated "
              "against it. No hooks in /repo are needed: every linearization point is the return of a public call."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        mods = sorted({x["module"] for x in c["parts"]})
        mcs = sorted({x["module"] for x in c.get("mc", [])})
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "TLA+/TLC: traces of the real code validated against %s%s" % (
                ", ".join(mods), "; design model-checked exhaustively in " + ", ".join(mcs) if mcs else ""),
            "level": "model_checking",
            "level_note": c.get("note", "") or
                "Every recorded call of the real code is an allowed step of the TLA+ specification, which computes the "
                "result itself; assurance is for the executions recorded (seeded, boundary-directed and TLC-generated "
                "histories) and exhaustive only for the small design models. Trusts TLC, the driver's recording and the "
                "Java accelerators (compared with the TLA+ definitions)."})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
