#!/usr/bin/env python3
"""Nothing to build ahead: every check builds from /repo's working tree.  This
only makes sure that the tools are there."""
import shutil, sys
miss = [t for t in ("cbmc", "goto-cc", "gcc", "clang") if not shutil.which(t)]
print("missing: %s" % miss if miss else "ok")
sys.exit(1 if miss else 0)
