#!/usr/bin/env python3
"""Nothing needs building ahead: each check builds its harness from /repo. This only checks the tools."""
import os, shutil, sys
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
if missing:
    print("missing: " + ", ".join(missing))
    sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".build"), exist_ok=True)
print("ready")
