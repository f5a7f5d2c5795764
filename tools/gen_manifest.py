#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run by hand after editing; output is committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stages
checks = []
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
na = []
for p in props:
    i = p["id"]
    if not stages.stages(i, "quick"):
        na.append({"property": i, "reason": stages.PENDING.get(i, "machinery not built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick python3 /verif/check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py %s" % i,
        "technique": stages.technique(i),
        "level": stages.level(i),
        "level_note": stages.level_note(i),
    })
json.dump({"version": 1, "setup_cmd": "python3 /verif/check.py --setup", "checks": checks, "not_applicable": na},
          open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "na")
