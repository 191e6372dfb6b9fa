#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    c = CHECKS.get(p)
    src = (c or {}).get("sources", []) + ([c["python"]] if c and c.get("python") else [])
    if not c or not src or not all(os.path.exists(os.path.join(V, s)) for s in src):
        na.append(dict(property=p, reason="no check built yet"))
        continue
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
                       thorough_cmd="python3 check.py %s --tier thorough" % p,
                       technique=c["technique"], level=c["level"], level_note=c["note"]))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
