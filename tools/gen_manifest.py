#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "checks"))
from table import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if c:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                       "technique": c.get("technique", "stateless model checking of the real code (controlled scheduler, exhaustive within bounds)"),
                       "level": c["level"], "level_note": c["bounds"]})
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "none", "enable": "no source hooks: the harnesses compile /repo's sources with -fsanitize=thread against the explorer's own runtime, or interpose libc symbols", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in CHECKS],
     "notes": "Replay a violation with: python3 run.py <ID> --replay <file>. See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
