#!/usr/bin/env python3
"""Builds the executor and warms the build caches."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print(vlib.build_engine())
vlib.build_ir(os.path.join(vlib.BUILD, "setup.ll"))
os.unlink(os.path.join(vlib.BUILD, "setup.ll"))
for m in ("dev", "release", "asan"):
    print(vlib.build_replay(m))
