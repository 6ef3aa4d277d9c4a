#!/usr/bin/env python3
"""replay.py FILE : runs a replay file against /repo's current tree; exit 1 if the violation is there."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check
from catalog import CHECKS
text = "".join(l for l in open(sys.argv[1]) if not l.startswith("#"))
prop = check.parse(text)["prop"]
k, cls, det, _ = check.Sim(build.build(CHECKS[prop].get("surr", False))).run_text(text, timeout=300)
print(k, cls, det)
if k == "VIOL": print("VIOLATION property=%s replay=%s" % (prop, sys.argv[1]))
sys.exit({"OK": 0, "VIOL": 1}.get(k, 2))
