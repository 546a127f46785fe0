#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (kept in step)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id -> dict(title, statement, over, text, why, files, mech[(name,where)], state, observe, technique, level, note) ; claimed if "technique"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), technique=None, level="model_checking", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=list(observe), state=list(state), technique=technique, level=level, note=note, na=na))

exec(open(os.path.join(V, "gen", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], "more than three sentences")
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        d["anchors"]["hook_needed"] = None
        f.write(json.dumps(d) + "\n")

m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
         notes="Every check is ./run.sh <id> quick|thorough; it overlays /repo's package at build time (net -> controllable network, sync -> controllable locks), so no change to /repo is needed to observe or schedule it. ./run.sh replay FILE re-executes one counterexample.")
for p in P:
    if p["technique"]:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
                                evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
