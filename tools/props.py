#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
FIX = "stateless model checking of the implementation under a controlled scheduler"
SEQ = "exhaustive bounded enumeration of operation sequences/inputs on the implementation against a reference model"

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id, statement)
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), technique, note))

exec(open(os.path.join(ROOT, "tools/props_data.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
    for p in NA:
        f.write(json.dumps(p[0]) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "go build -overlay (no source hooks; /repo is instrumented in a scratch overlay by tools/rewrite at check time)",
               "enable": "run.sh builds tools/rewrite, rewrites every /repo package the check uses into a scratch directory and builds the check with go build -overlay", "source_commits": []},
     "checks": [], "not_applicable": [{"property": p[0]["id"], "reason": p[1]} for p in NA]}
for p, t, n in P:
    i = p["id"]
    m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                        "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
