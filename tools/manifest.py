#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from props/*/meta.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = {}
for d in sorted(os.listdir(os.path.join(V, "props"))):
    p = os.path.join(V, "props", d, "meta.json")
    if os.path.exists(p):
        meta.update(json.load(open(p)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in meta:
        m = meta[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check " + i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "technique": m["technique"], "level": m["level"], "level_note": m["level_note"]})
    else:
        na.append({"property": i, "reason": "its specification and conformance driver are not finished; not claimed yet"})
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC. No hooks in /repo: drivers enter through go test -overlay."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
