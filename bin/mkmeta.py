#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/*.py (one PROPS list per file)."""
import glob
import json
import os
import runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
na = []
for f in sorted(glob.glob(os.path.join(HERE, "meta", "*.py"))):
    g = runpy.run_path(f)
    props += g.get("PROPS", [])
    na += g.get("NA", [])
props.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        if len(q["statement"].rstrip(".").split(". ")) > 3:
            print("long statement", q["id"])
        f.write(json.dumps(q) + "\n")
checks = []
naids = {n["property"] for n in na}
for p in props:
    if p["id"] in naids:
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p["id"],
                   "technique": p.get("technique", "TLA+ specification; TLC-generated call sequences replayed on the library and recorded sessions, every event judged by TLC trace validation"),
                   "level": "model_checking",
                   "level_note": p["note"]})
man = {"version": 1, "setup_cmd": "python3 bin/setup.py",
       "hooks": {"guard": "CHAINLADDER_VERIF (unused: the public API already exposes the abstract state)", "enable": "no hooks; checks import /repo's working tree directly", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "Every check: TLC explores the specification (spec/*.tla) and judges every event recorded from the real code."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties", len(checks), "checks")
