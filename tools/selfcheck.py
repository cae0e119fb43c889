#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are present."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
if missing:
    print("missing tools:", missing); sys.exit(1)
print("ok")
