#!/usr/bin/env python3
"""Writes MANIFEST.json from check.py's MODULES, properties.jsonl and the notes below."""
import json, os, re, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.registry import MODULES, NOTES, NOT_APPLICABLE
props=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
m=dict(version=1, setup_cmd="python3 setup.py",
  checks=[dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough", evidence_file=f"evidence/{p}.json",
     technique=NOTES[p][0], level="model_checking", level_note=NOTES[p][1]) for p in props if p in MODULES],
  not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, "No check has been built for it yet.")) for p in props if p not in MODULES],
  notes="TLA+ specifications in spec/, checked with TLC; behaviours generated by TLC are replayed into the weaver binary built from /repo's working tree, whose observable results must be those of the specification.")
json.dump(m, open(V+"/MANIFEST.json","w"), indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
