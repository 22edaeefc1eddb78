#!/usr/bin/env python3
import re
"""Writes /verif/MANIFEST.json from the table of claims below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(here, "tools", "claims.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    c = NOTE["claims"].get(i)
    if c is None:
        na.append({"property": i, "reason": NOTE["not_applicable"].get(i, "check not built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: " + re.sub(r"^(deterministic simulation( with fault injection)?: |fault injection: )", "", c["technique"]),
        "level": "exploration",
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTE["notes"]}
if NOTE.get("hooks"):
    m["hooks"] = NOTE["hooks"]
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
