#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (every check builds from /repo's working tree); verifies the toolchain is there."""
import shutil, sys
missing = [t for t in ("g++", "mpicxx", "mpiexec", "gcc") if not shutil.which(t)]
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)
