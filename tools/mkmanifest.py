#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
NOTES = checks.NOTES
out = dict(version=1, setup_cmd="python3 -m py_compile run.py tools/vp.py tools/checks.py", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        tech, note = NOTES.get(i) or NOTES[i[0]]
        out["checks"].append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
                                  evidence_file="evidence/%s.json" % i, technique=tech, level="model_checking", level_note=note))
    else:
        out["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(out, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "claimed", len(out["not_applicable"]), "not")
