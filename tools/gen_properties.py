#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so the file stays valid)."""
import json, os
S = "src/serializer/"
def P(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

props = []
exec(open(os.path.join(os.path.dirname(__file__), "properties_table.py")).read())
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props), "properties")
