#!/usr/bin/env python3
"""add_check.py ID pkg[,pkg] 'technique' 'note' [Test=n ...]: registers a check."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "checks.json"); c = json.load(open(p))
e = {"packages": sys.argv[2].split(",")}
sh = dict(a.split("=") for a in sys.argv[5:])
if sh: e["shards"] = {k: int(v) for k, v in sh.items()}
e["technique"], e["note"] = sys.argv[3], sys.argv[4]
c[sys.argv[1]] = e
json.dump({k: c[k] for k in sorted(c)}, open(p, "w"), indent=1)
