#!/usr/bin/env python3
"""replay.py FILE: run a stored counterexample against a native build of /repo's current tree."""
import json, glob, os, sys, tempfile, shutil
sys.argv, f = sys.argv[:1], sys.argv[1]
import run as R
v = json.load(open(f)); h = glob.glob("%s/harness/%s*.cpp" % (R.HERE, v["property"]))[0]
w = tempfile.mkdtemp(prefix="rpl")
try:
    c = R.confirm(R.Native(w, h, R.repo_sources()), v, v["tier"])
    print(("REPRODUCED: %s\n%s" % (c[0], c[1]["output"])) if c else "not reproduced")
    sys.exit(1 if c else 0)
finally:
    shutil.rmtree(w, ignore_errors=True)
