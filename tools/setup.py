#!/usr/bin/env python3
"""Nothing needs installing: every check compiles what it needs from /repo's current tree. Verifies the tool chain."""
import shutil, sys
missing = [t for t in ("clang", "clang++", "g++", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: %s" % missing)
print("ok")
