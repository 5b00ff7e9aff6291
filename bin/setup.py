#!/usr/bin/env python3
"""Builds the harness and the server once (fills the build cache) and parses the specifications."""
import glob
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import check

os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
c = check.Check("setup")
try:
    c.build()
except check.CheckError as e:
    print(e)
    sys.exit(3)
finally:
    import shutil
    shutil.rmtree(c.work, ignore_errors=True)
