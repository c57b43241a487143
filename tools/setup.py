#!/usr/bin/env python3
"""Checks that the tools the checks need are here. Every check builds its own harness from /repo."""
import shutil, sys
missing = [t for t in ("g++", "ninja") if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")
