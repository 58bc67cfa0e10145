#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt; verifies that the tools the checks rely on are here."""
import shutil, sys, os
need = ["gcc", "clang", "as", "ld", "objdump", "make", "python3"]
opt = ["x86_64-w64-mingw32-as", "x86_64-w64-mingw32-objdump"]
bad = [t for t in need if not shutil.which(t)]
print("missing tools: %s" % bad if bad else "tools present")
for t in opt:
    if not shutil.which(t):
        print("optional tool missing:", t)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
sys.exit(1 if bad else 0)
