#!/usr/bin/env python3
import json, os
from checks import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
try:
    from checks import NOT_APPLICABLE as NA
except ImportError: pass
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
            "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
m["hooks"] = {"guard": "cargo feature verif-hooks (of zkp-marlin)", "enable": "the harness crate's feature marlin turns on zkp-marlin/verif-hooks",
  "source_commits": [l.split()[0] for l in os.popen("git -C /repo log --format='%h %s'").read().splitlines() if "Guarded hook" in l]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
