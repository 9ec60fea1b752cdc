#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the units that exist."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
from units import UNITS, PROPS
NOTES = json.load(open(V + "/lib/levels.json"))
HOOK = "334a79e"
full = subprocess.run(["git", "-C", "/repo", "rev-parse", HOOK], capture_output=True, text=True).stdout.strip()
checks, na = [], []
for p in PROPS:
    if p in UNITS and p in NOTES:
        checks.append({"property": p,
                       "quick_cmd": f"python3 check.py {p} --tier quick",
                       "thorough_cmd": f"python3 check.py {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": NOTES[p]["technique"],
                       "level": "model_checking",
                       "level_note": NOTES[p]["note"]})
    else:
        na.append({"property": p, "reason": NOTES.get(p, {}).get("na", "No check built yet.")})
json.dump({"version": 1,
           "setup_cmd": "python3 setup_check.py",
           "hooks": {"guard": "TFHEPP_VERIF_PARAMS", "enable": "-DTFHEPP_VERIF_PARAMS='\"/verif/params/tiny.hpp\"'", "source_commits": [full]},
           "checks": checks, "not_applicable": na,
           "notes": "Stateless bounded-exhaustive model checking of the real code under scripted randomness, inputs and schedules; see DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed;", len(na), "not claimed")
