#!/usr/bin/env python3
"""setup: nothing to build ahead; make sure that the tools answer and that the headers can be generated."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
for t in ("cbmc", "goto-cc", "goto-instrument", "gcc", "clang"):
    subprocess.run([t, "--version"], stdout=subprocess.DEVNULL, check=True)
d = tempfile.mkdtemp(prefix="vp-")
try:
    run.gen_headers(d)
finally:
    shutil.rmtree(d, ignore_errors=True)
os.makedirs(run.EVID, exist_ok=True)
print("ok:", len(run.all_harnesses()), "harnesses")
