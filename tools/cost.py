#!/usr/bin/env python3
"""Runs every check and notes obligations and seconds in tools/cost.json (by hand, for DESIGN.md)."""
import json, os, subprocess, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = {}
for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]:
    t = time.time()
    rc = subprocess.run(["./check.sh", c["property"]], cwd=V, stdout=subprocess.DEVNULL).returncode
    e = json.load(open(os.path.join(V, c["evidence_file"])))
    s = json.dumps(e)
    import re
    n = re.search(r'"obligations?[a-z_]*": (\d+)', s)
    r[c["property"]] = [n.group(1) if n else "?", round(time.time() - t)]
    print(c["property"], rc, r[c["property"]], flush=True)
json.dump(r, open(os.path.join(V, "tools", "cost.json"), "w"), indent=0)
