#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json."""
import json
import os
import subprocess

P = []


def prop(id, title, statement, over, text, why, files, mech, check=None,
         level="exploration", technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, check=check, level=level,
                  technique=technique, note=note, na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())

root = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks = json.load(open(os.path.join(root, "checks", "checks.json")))
m = {"version": 1, "setup_cmd": "python3 build.py --tools",
     "hooks": {"guard": "none", "enable": "the checks need no hooks: /repo carries none",
               "source_commits": []},
     "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in checks:
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 check.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"],
                                    "reason": p["na"] or "no check has been built for it yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
