#!/usr/bin/env python3
"""Checks that the toolchain is there and builds the harnesses once."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vf"))
import build, tlc
for t in ("clang++", "java"):
    if not shutil.which(t):
        sys.exit("missing: " + t)
if not os.path.exists(tlc.JAR):
    sys.exit("missing: " + tlc.JAR)
try:
    build.build(build.ALL)
except build.BuildError as e:
    print("note: the harnesses do not build yet:", str(e)[:500])
print("ok")
