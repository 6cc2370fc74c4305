#!/usr/bin/env python3
"""Run a stored counterexample against the real code: replay.py evidence/replay/.../counterexample.json"""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
c = json.load(open(sys.argv[1]))
base = c["harness"].split("[")[0]
h = next(x for x in run.all_harnesses() if os.path.basename(x.file) == c["file"] and x.name == base)
d = tempfile.mkdtemp(prefix="vp-")
try:
    run.gen_headers(d)
    o = run.resolve(h, "quick")
    o["D"] = c["defs"]
    o["defs"] = ["-D" + x.replace(":", "=", 1) for x in c["defs"]]
    gb, srcs = run.compile_goto(h, o, d, "replay")
    exes = run.native_build(h, o, d, srcs, "replay")
    why, notes = run.replay(exes, [("", v) for v in c["inputs_in_order"]],
                            {"description": c["assertion"], "property": ""})
finally:
    shutil.rmtree(d, ignore_errors=True)
print(c["assertion"], "at", c["at"])
print("reproduced: " + why if why else "not reproduced: %s" % notes)
sys.exit(1 if why else 0)
