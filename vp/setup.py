#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt; checks that the tools are there."""
import os
import shutil
import sys

os.environ["PATH"] += ":/root/.cargo/bin"
missing = [t for t in ("cargo", "cargo-kani", "z3-new") if not shutil.which(t)]
print("tools:", "missing " + ", ".join(missing) if missing else "ok")
sys.exit(bool(missing))
