#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = "crates/flowistry/src/"
IDE = "crates/flowistry_ide/src/"
P = []
NA = {}

def prop(id, title, statement, over, text, why, files, mech, observe=None, check=None, technique=None, note=None, na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, note, na))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")

HOOKS = json.load(open(os.path.join(ROOT, "tools", "hooks.json"))) if os.path.exists(os.path.join(ROOT, "tools", "hooks.json")) else None
m = {"version": 1, "setup_cmd": "bash build.sh"}
if HOOKS:
    m["hooks"] = HOOKS
m["checks"] = [{
    "property": d["id"],
    "quick_cmd": f"bash check.sh {d['id']} quick",
    "thorough_cmd": f"bash check.sh {d['id']} thorough",
    "evidence_file": f"evidence/{d['id']}.json",
    "technique": t, "level": "exploration", "level_note": n,
} for d, t, n, na in P if not na]
m["not_applicable"] = [{"property": d["id"], "reason": na} for d, t, n, na in P if na]
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not")
