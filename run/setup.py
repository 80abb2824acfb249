#!/usr/bin/env python3
"""Warms the Go build cache for the harnesses and checks that TLC answers."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import Run, HARNESS
run = Run("setup", "quick", 1)
try:
    for h in sorted(os.listdir(HARNESS)):
        if h != "base" and any(f.endswith(".go") for f in os.listdir(os.path.join(HARNESS, h))):
            run.build(h)
    code, out = run.tlc("Export", "Empty.cfg")
    if code != 0:
        print(out)
        sys.exit(1)
finally:
    run.close()
print("ready")
