#!/usr/bin/env python3
"""Builds the harness once (fills the Go build cache) and parses the specifications."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build()
for m in sorted(os.listdir(vlib.SPEC)):
    if m.endswith(".tla"):
        rc, o, e = vlib.run(["java", "-cp", vlib.JAVA_CP, "tla2sany.SANY", m], 120, cwd=vlib.SPEC)
        if rc != 0 or "Semantic errors" in o or "Fatal errors" in o:
            print(o, e)
            sys.exit(1)
print("ok")
