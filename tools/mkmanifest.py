#!/usr/bin/env python3
"""Write MANIFEST.json from lib/plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lib"))
import plan
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    if pid in plan.PLAN:
        mods = sorted({x["module"] for x in plan.PLAN[pid]["parts"]})
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid} quick",
            "thorough_cmd": f"python3 check.py {pid} thorough",
            "technique": f"TLA+ specification ({', '.join(mods)}) checked with TLC; its behaviours replayed into the real code",
            "level": "model_checking",
            "level_note": plan.PLAN[pid].get("note") or
            "TLC checks the specification exhaustively for small constants; random behaviours of the specification with larger "
            "constants are replayed step by step into the code built from /repo, comparing outputs and the projected state.",
        })
    else:
        na.append({"property": pid, "reason": plan.NOT_APPLICABLE.get(pid, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true",
           "hooks": {"guard": "verif", "enable": "no hooks are needed: the drivers use exported interfaces only", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
