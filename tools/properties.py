#!/usr/bin/env python3
"""Source of properties.jsonl: run to regenerate."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [dict(zip(("name", "where"), m)) for m in mech]}}
    if state: d["anchors"]["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    for f in files: assert "*" in f or os.path.exists("/repo/"+f), f
    P.append(d)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_src.py")).read())
ids = [d["id"] for d in P]
assert len(ids) == len(set(ids))
P.sort(key=lambda d: d["id"])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
