#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample against /repo's current tree."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
d = json.load(open(sys.argv[1]))
bad = False
for mode in ("dev", "release", "asan"):
    k, msg, out = vlib.native(vlib.build_replay(mode), d["harness"], d["params"], d["values"])
    print(mode, k, msg)
    bad |= k not in ("ok", "mismatch")
sys.exit(1 if bad else 0)
