#!/usr/bin/env python3
"""Regenerate /verif/MANIFEST.json from properties.jsonl and props/."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from check import module_consts
TECH = json.load(open(os.path.join(H, "tools", "techniques.json")))
NA = {}
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(H, "props", p.lower() + ".py")):
        m = module_consts(p)
        checks.append({
            "property": p,
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
            "technique": "runtime monitoring: " + TECH[p],
            "level": "exploration",
            "level_note": "Held on every observed execution (counts in the evidence file); no claim beyond the explored workloads. "
                          + "Trusts the independent reference in /verif/lib and props. " + "; ".join(m.get("ASSUMES", [])),
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": na,
           "notes": "Harness in /verif, one worker process per shard importing /repo directly; no hooks in /repo."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
