#!/usr/bin/env python3
"""Checks that the tools the monitors need are there. Checks build themselves."""
import os, shutil, subprocess, sys
ok = True
for t in ("clang++", "ld.lld", "llvm-symbolizer-18"):
    if not shutil.which(t):
        print("missing tool", t); ok = False
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("setup ok" if ok else "setup incomplete")
sys.exit(0 if ok else 1)
