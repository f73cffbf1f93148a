#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
import checks
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "bash engine/build.sh && engine/build/symx selftest", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.PROPS:
        s = checks.PROPS[i]
        c = {"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
             "technique": s.get("technique", checks.TECHNIQUE), "level": s.get("level", "model_checking"), "level_note": s.get("note") or checks.note(i)}
        out["checks"].append(c)
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "no symbolic check built for it yet")})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
