#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), check=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=list(observe), check=check, na=na))


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
checks = []
na = []
for p in P:
    if p["check"]:
        s, tech, level, note = p["check"]
        checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py" % s, "thorough_cmd": "python3 checks/%s.py" % s,
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'lib'); import common; common.build_engine()\"",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check reads /repo's sources (C via clang bitcode of the whole program, R via R's parser, Rd and NAMESPACE) and runs none of them. Exit 3 with ANALYSIS-BROKEN means an anchor of the analysis vanished."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties;", len(checks), "claimed;", len(na), "not applicable")
