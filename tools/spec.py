#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
def P(id, title, statement, text, why, files, mech, technique, note, over=("programs", "inputs"), na=None, observe=("the LLVM module the compiler writes",)):
    PROPS.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, technique=technique, note=note, over=list(over), na=na, observe=list(observe)))

exec(open(os.path.join(here, "tools", "props_table.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert re.match(r"^[A-Z][0-9]{2,3}$", p["id"])
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in PROPS:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"], "thorough_cmd": "bash run.sh %s thorough" % p["id"],
            "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
