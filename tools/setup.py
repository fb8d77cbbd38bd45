#!/usr/bin/env python3
"""nothing to build: only checks that the tools the analyses need are there"""
import shutil, sys
for t in ("clang", "bison", "git"):
    if not shutil.which(t):
        print("missing", t)
        sys.exit(1)
print("ok")
