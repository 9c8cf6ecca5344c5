#!/usr/bin/env python3
"""Offline sanity check of the tools the checks need; the checks build by themselves."""
import shutil, sys
missing = [t for t in ("clang", "clang++", "python3") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
