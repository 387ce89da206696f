#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.tsv (id, level, technique, note) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
rows = {}
for l in open(f"{V}/tools/checks.tsv"):
    l = l.rstrip("\n")
    if l and not l.startswith("#"):
        i, level, tech, note = l.split("\t")
        rows[i] = (level, tech, note)
na = {}
if os.path.exists(f"{V}/tools/not_applicable.tsv"):
    for l in open(f"{V}/tools/not_applicable.tsv"):
        l = l.rstrip("\n")
        if l:
            i, why = l.split("\t")
            na[i] = why
checks, nots = [], []
for p in props:
    i = p["id"]
    if i in rows:
        level, tech, note = rows[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}", "technique": tech, "level": level, "level_note": note})
    else:
        nots.append({"property": i, "reason": na.get(i, "the check for it is not built yet")})
m = {"version": 1, "setup_cmd": "HOOKED=1 SEM=1 ./build.sh", "checks": checks, "not_applicable": nots}
if os.path.exists(f"{V}/tools/hooks.json"):
    m["hooks"] = json.load(open(f"{V}/tools/hooks.json"))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")
