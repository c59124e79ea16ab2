#!/usr/bin/env python3
"""Compile the TLC override and check that every specification module parses."""
import glob
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "py"))
import vlib
print(vlib.build_java())
cp = vlib.build_java() + ":" + vlib.JARS
for f in sorted(glob.glob(os.path.join(vlib.SPEC, "*.tla"))):
    p = subprocess.run(["java", "-DTLA-Library=" + vlib.SPEC, "-cp", cp, "tla2sany.SANY", f], capture_output=True, text=True, cwd="/tmp")
    if p.returncode or "*** Errors" in p.stdout:
        print(p.stdout[-2000:])
        sys.exit(1)
print("specification modules parse")
