#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
T = "bounded exhaustive model checking of the implementation: every input/configuration in the stated bounds is executed and compared with a reference model"
N = ("Exhaustive inside the enumerated spaces (listed with measured sizes in the evidence file), run on the real code compiled from the working "
     "tree with address and undefined-behaviour sanitizers. Trusts the compiler, the sanitizers and the reference model in src/. Larger inputs are not covered.")
m = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: /repo is compiled as it is; the OpenMP runtime is replaced at link time", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": c.get("technique", T), "level": "model_checking", "level_note": c.get("note", N)})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
