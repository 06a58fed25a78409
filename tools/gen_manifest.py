#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from checks.json and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 run.py --build",
       "hooks": {"guard": "none", "enable": "no hooks: the checks use /repo's public API through go test -overlay", "source_commits": []},
       "checks": [], "not_applicable": []}
for p in props:
    c = checks.get(p["id"])
    if not c:
        out["not_applicable"].append({"property": p["id"], "reason": "no check built yet"})
        continue
    out["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
        "thorough_cmd": "python3 run.py %s thorough" % p["id"],
        "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
out["notes"] = "Property-based testing with a vendored copy of pgregory.net/rapid; see DESIGN.md."
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
