#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
M = "programs/mango-v4/src/"

def prop(id, title, statement, over, qtext, why, files, mech, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=[f if f.startswith(("programs/", "lib/", "bin/")) else M + f for f in files],
                  mech=mech, technique=technique, note=note, na=na))

exec(open(os.path.join(V, "tools", "prop_list.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        for f in p["files"]:
            assert os.path.exists("/repo/" + f), f
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "hook_needed": None},
        }) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none: no hooks in /repo (the harness links the unmodified sources)",
              "enable": "not needed", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": p["technique"], "level": "model_checking", "level_note": p["note"],
    } for p in sorted(P, key=lambda p: p["id"]) if not p["na"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
