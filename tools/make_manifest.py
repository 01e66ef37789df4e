#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/properties.json and properties.jsonl."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(os.path.join(V, "harness/properties.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "harness/not_applicable.json"))) \
    if os.path.exists(os.path.join(V, "harness/not_applicable.json")) else {}
m = {
    "version": 1,
    "setup_cmd": "python3 run.py all --build-only",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 run.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s --tier thorough" % i,
        "technique": props[i]["technique"],
        "level": "exploration",
        "level_note": props[i]["level_note"],
    } for i in ids if i in props],
    "not_applicable": [{
        "property": i,
        "reason": NA.get(i, "Not built yet."),
    } for i in ids if i not in props],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
