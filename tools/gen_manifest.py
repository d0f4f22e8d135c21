#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and families.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from families import PROP, FAM, MC
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROP:
        fams, mcs = PROP[i]
        fams = [f.split('/')[0] for f in fams]
        specs = sorted({FAM[f][1] for f in fams})
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": "TLA+ specification model-checked with TLC; histories of the real code under a controlled scheduler validated against it by TLC (trace validation)",
            "level": "model_checking",
            "level_note": "Design: " + ", ".join(MC[m][0] for m in mcs) + " exhaustively for its constants. Code: every recorded history of the real library (families "
                          + ", ".join(fams) + ", seeded schedules over every atomic and conflicting access) must be a behaviour of " + ", ".join(s + ".tla" for s in specs)
                          + ". Trusted: engine/simrt.cpp (sequentially consistent interleavings), the scenario generators, TLC; bounded by the histories explored.",
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the library is observed through its public interface only. See DESIGN.md."}, open(H + "/MANIFEST.json", "w"), indent=1)
