#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and keeps it in step with properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "symbolic execution of the crate's LLVM IR (own executor, Z3 decides branches and assertions), native replay of counterexamples"
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "checks": [{"property": i, "quick_cmd": "python3 /verif/tools/check.py %s" % i, "thorough_cmd": "python3 /verif/tools/check.py %s --tier thorough" % i,
                 "evidence_file": "/verif/evidence/%s.json" % i, "technique": SPECS[i].get("technique", TECH), "level": "model_checking",
                 "level_note": SPECS[i].get("note", "All paths within the stated bounds are explored; every branch and assertion is decided for all values by domain reasoning or Z3. Bounds and what lies outside are in the evidence file.")} for i in ids if i not in NA],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
     "notes": "setup builds the executor and std bitcode; every check rebuilds the IR from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
