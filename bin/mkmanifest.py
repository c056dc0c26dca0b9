#!/usr/bin/env python3
"""regenerates MANIFEST.json from plan.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import plan
checks = []
for p in sorted(plan.PLAN):
    d = plan.PLAN[p]
    checks.append({"property": p, "quick_cmd": f"python3 bin/check.py {p} quick", "thorough_cmd": f"python3 bin/check.py {p} thorough",
                   "technique": d.get("technique", "abstract interpretation of MIR (typestate / specification automata against most general clients)"),
                   "level": "other",
                   "level_note": d.get("note", "Decides: " + d["rule"] + ". Trusted: rxsa's model of std, the client crate's definitions. Event sequences are covered to a fixpoint where the abstract state space closes and to the stated event depth otherwise; items are uninterpreted.")})
na = [{"property": k, "reason": v} for k, v in sorted(plan.NA.items())]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
