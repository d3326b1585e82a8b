#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state, observe=observe))


VF = "gated value-flow analysis of MIR "
TRUST = (" Trusts the MIR extraction, the models of standard-library, glam and rayon functions in sa/models.py, and the value algebra; "
         "arithmetic is over the reals.")

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert os.path.exists(os.path.join(V, "sa", "props", p["id"].lower() + ".py")), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s" % p["id"], "thorough_cmd": "./check.sh %s --thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they read the MIR that the nightly compiler's front end produces from /repo's current "
                    "source and never run the library. No hooks in /repo are needed. Exit 1 also when a construct cannot be analysed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
