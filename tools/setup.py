#!/usr/bin/env python3
"""Every check builds what it needs itself; this only verifies that the toolchain is there."""
import shutil, sys
missing = [t for t in ("clang++", "g++") if not shutil.which(t)]
if missing:
    sys.exit("missing: %s" % missing)
print("toolchain present")
