#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand, output is committed)."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = json.load(open(os.path.join(here, "tools", "checks.json")))
checks, na = [], []
for p in props:
    t = TECH.get(p["id"])
    if t is None:
        na.append(dict(property=p["id"], reason="check not built yet")); continue
    if "na" in t:
        na.append(dict(property=p["id"], reason=t["na"])); continue
    checks.append(dict(property=p["id"], quick_cmd="./check.sh %s" % p["id"],
        thorough_cmd="VERIF_TIER=thorough ./check.sh %s" % p["id"],
        technique=t["technique"], level="exploration", level_note=t["note"]))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none: no hooks are needed, all monitors observe the public API, the process allocator and sanitizer reports",
               enable="plain path dependency on /repo", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="check.sh ID builds the harness (harness/, one binary) against /repo's working tree and runs the monitors of one property; VERIF_SEED and VERIF_TIER select seed and depth.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
