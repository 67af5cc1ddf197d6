#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample natively against the current /repo."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
r = json.load(open(sys.argv[1]))
n = check.Native(r.get("crate", "harness")).run(r["entry"], r["params"], r["inputs"], repeat=5000, want=r["signature"])
print(json.dumps(r["decoded"]))
print(json.dumps(n))
sys.exit(1 if n["status"] == "violation" and n["sig"] == r["signature"] else 0)
