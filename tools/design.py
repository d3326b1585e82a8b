#!/usr/bin/env python3
"""Rewrites the per-property section of DESIGN.md from properties.jsonl and the EXPLAIN/ASSUME texts of sa/props."""
import json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, Z = "<!-- properties: begin (tools/design.py) -->", "<!-- properties: end -->"


def const(f, k):
    m = re.search(r'^%s\s*=\s*(.*?)(?=^\S)' % k, f, re.S | re.M)
    return eval(m.group(1)) if m else None


cost = json.load(open(os.path.join(V, "tools", "cost.json")))
out = []
for l in sorted(open(os.path.join(V, "properties.jsonl")), key=lambda l: json.loads(l)["id"]):
    p = json.loads(l)
    path = os.path.join(V, "sa", "props", p["id"].lower() + ".py")
    out.append("### %s: %s\n" % (p["id"], p["title"]))
    if not os.path.exists(path):
        out.append("Not decided here, see 'Not applicable'.\n")
        continue
    f = open(path).read()
    a = const(f, "ASSUME")
    out.append("*How.* %s\n" % re.sub(r"\s+", " ", const(f, "EXPLAIN")))
    out.append("*Within.* %s.\n" % ("; ".join(a) if a else "no assumption beyond the trusted base"))
    out.append("*Why tests cannot.* %s\n" % p["why_tests_cant"])
    if p["id"] in cost:
        out.append("*Cost.* %s obligations, %s s.\n" % tuple(cost[p["id"]]))
d = open(os.path.join(V, "DESIGN.md")).read()
i, j = d.index(A), d.index(Z)
open(os.path.join(V, "DESIGN.md"), "w").write(d[:i + len(A)] + "\n\n" + "\n".join(out) + "\n" + d[j:])
