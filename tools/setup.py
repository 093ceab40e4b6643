#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (every check builds from /repo itself); only
verify that the tools the checks need are there and fail early otherwise."""
import os, shutil, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "out", "evidence"):
    os.makedirs(os.path.join(here, d), exist_ok=True)
missing = [t for t in ("cmake", "ninja", "gcc") if not shutil.which(t)]
if not os.path.exists("/opt/dlite-venv/bin/python3"):
    missing.append("/opt/dlite-venv")
print("setup ok" if not missing else "missing: %s" % missing)
sys.exit(1 if missing else 0)
