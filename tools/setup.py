#!/usr/bin/env python3
"""Setup: checks that the tools are there and warms the build of the mirror crate."""
import os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
import check, mirror  # noqa: E402

for t in ("verus", "cargo"):
    if not shutil.which(t, path=check.load_env()["PATH"]):
        sys.exit("missing: " + t)
os.makedirs(check.BUILD, exist_ok=True)
print("setup: ok")
