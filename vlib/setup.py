#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are here (each check builds what it needs from /repo itself)."""
import os, shutil, sys
missing = [t for t in ("clang++", "g++", "cmake", "ninja", "python3") if not shutil.which(t)]
for p in ("/opt/llvm/bin/clang", "/opt/llvm/bin/clang++", "/opt/llvm/bin/llvm-config"):
    if not os.path.exists(p):
        missing.append(p)
if missing:
    print("missing: " + ", ".join(missing))
    sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build"), exist_ok=True)
print("ok")
