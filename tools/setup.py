#!/usr/bin/env python3
"""setup_cmd: checks that the tools needed are present (each check builds its own harnesses from /repo)"""
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
if missing:
    print("missing: %s" % missing)
    sys.exit(1)
print("ok")
