#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.json, properties.jsonl and tools/not_applicable.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(f"{V}/tools/checks.json"))
na = json.load(open(f"{V}/tools/not_applicable.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/axv.py list",
     "hooks": {"guard": "none", "enable": "", "source_commits": []}, "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    c = checks.get(i)
    if c and not c.get("off"):
        level = c.get("level", "proof")
        t = "contract-based deductive verification (Verus/Z3) of the functions extracted from /repo on every run"
        if c.get("drivers"):
            t += ", with a seeded search on the compiled real crates for failing inputs (bounded)"
        if level != "proof":
            t = c["technique"]
        m["checks"].append({"property": i, "quick_cmd": f"python3 tools/axv.py check {i} --tier quick", "thorough_cmd": f"python3 tools/axv.py check {i} --tier thorough",
                            "technique": t, "level": level, "level_note": c.get("level_note", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check built yet")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
