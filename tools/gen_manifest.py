#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_config.py (run after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks_config as cfg

titles = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    titles[d["id"]] = d["title"]
checks = []
for p in sorted(cfg.PROPERTIES):
    s = cfg.PROPERTIES[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": s["technique"],
        "level": "exploration",
        "level_note": s["note"],
    })
na = [{"property": p, "reason": cfg.NOT_APPLICABLE.get(p, "check not built yet")} for p in sorted(titles) if p not in cfg.PROPERTIES]
m = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: monitors observe the public API, and delay injection uses compiler-inserted function entry calls (-finstrument-functions). Every check rebuilds its harnesses from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
