#!/usr/bin/env python3
"""Compiles the Java evaluation of BigNat and compares it with the TLA+ definitions."""
import sys
sys.dont_write_bytecode = True
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.build_java()
import itertools
for s in ("BigNatSelf", "TowerSelf", "PolySelf"):
  rc, out = check.tlc(s, s, timeout=300)
  if rc != 0:
    print(out[-3000:])
    sys.exit(1)
print("BigNat self test passed")
