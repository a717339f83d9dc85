#!/usr/bin/env python3
"""mkseed.py SPEC.py: make seeded/<id>/ from a spec (id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text), verifying it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 if the behaviour is right; run with cwd = the repository, after its build
set -u
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w %s -include cstdint -I include -I src -DDATA_DIR='"."' "$here/demo.cpp" src/Layers/*.cpp src/MNISTReader.cpp src/timerConfig.cpp -pthread -o "$t/demo" || exit 99
cd "$t" && timeout 120 ./demo >/dev/null
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(s):
    d = HERE + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed"); r = w + "/repo"
    try:
        sh("cp -a /repo %s" % r)
        for f, o, n in s["edits"]:
            t = open(r + "/" + f).read()
            if t.count(o) != 1: print(s["id"], "pattern occurs", t.count(o), "times in", f); return False
            open(r + "/" + f, "w").write(t.replace(o, n))
        diff = sh("git -C %s diff" % r).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(DEMO % s.get("flags", "")); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        good = sh("bash %s/demo.sh" % d, cwd="/repo"); bad = sh("bash %s/demo.sh" % d, cwd=r)
        print(s["id"], "clean:", good.returncode, "patched:", bad.returncode, (good.stdout + bad.stdout)[-600:])
        return good.returncode == 0 and bad.returncode not in (0, 99)
    finally: shutil.rmtree(w, ignore_errors=True)
def tests(id):
    """build and test /repo with the patch applied"""
    p = HERE + "/seeded/%s/patch.diff" % id
    if sh("git -C /repo apply " + p).returncode: print("does not apply"); return False
    try:
        b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seed.json"); l = [x for x in t.stdout.split("\n") if "passed" in x]
        print(id, "build", b.returncode, l[-1:]); return b.returncode == 0 and l and " 0 failed" in l[-1]
    finally: sh("git -C /repo checkout -- ."); 
if __name__ == "__main__":
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    for s in ns["SPECS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
        ok = make(s) and tests(s["id"]); print(s["id"], "OK" if ok else "BAD")
    sh("bash /opt/vp/build.sh")
