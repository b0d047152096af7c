#!/usr/bin/env python3
"""Sanity of the toolchain; the checks themselves build everything they need from /repo."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("g++", "java", "python3") if not shutil.which(t)]
if missing or not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    sys.exit("missing tools: %s" % missing)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("ok")
