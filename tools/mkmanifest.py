#!/usr/bin/env python3
import json, os, subprocess, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from plan import PLAN
NA = {}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json", level="model_checking",
            technique=PLAN[i].get("technique", "TLA+ specification checked with TLC; TLC-generated behaviours replayed into the real code"),
            level_note=PLAN[i].get("note", "Every behaviour of the specification up to the stated bounds (exhaustive trees) and seeded random behaviours beyond them are replayed into the code built from /repo and compared step by step; assumes the specification's test units stand for all units and that bounds are representative.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="cd harness && RUSTFLAGS='--cfg fundsp_verif -Awarnings' cargo build --offline --quiet --features all", checks=checks, not_applicable=na)
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if " hook:" in c]
m["hooks"] = dict(guard="--cfg fundsp_verif", enable="RUSTFLAGS='--cfg fundsp_verif' (set by check.py when it builds the harness)", source_commits=hooks)
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
