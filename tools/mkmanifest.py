#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and the notes below."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN
from notes import NOTES
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in hooks.splitlines() if "verif hook" in l]
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p in PLAN:
        technique, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": technique,
                       "level": PLAN[p]["level"], "level_note": note})
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "--cfg fast_paths_verif (rustc cfg flag)",
               "enable": "RUSTFLAGS=\"--cfg fast_paths_verif\" cargo build, done by run.py for every variant",
               "source_commits": hooks},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "no check yet"} for p in props if p not in PLAN]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
