#!/usr/bin/env python3
"""Builds every tool of the checks once (the checks rebuild what depends on /repo themselves)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
from common import *
import build
ok = True
for r in (cargo_build("engine", ["--bin", "mathc", "--bin", "geoc", "--bin", "vconc"]), build.symgeo()):
    if not r[0]:
        print(r[1][-3000:])
        ok = False
sys.exit(0 if ok else 1)
