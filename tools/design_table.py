#!/usr/bin/env python3
"""Prints the per-property table of DESIGN.md from the harness annotations."""
import glob, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE + "/tools")
from properties import P
for p in P:
    h = glob.glob("%s/harness/%s_*.cpp" % (HERE, p["id"]))[0]; t = open(h).read()
    g = lambda k: re.findall(r"^//@ %s (.*)$" % k, t, re.M)
    print("### %s — %s\n" % (p["id"], p["title"]))
    print("Harness `harness/%s`; entries %s." % (os.path.basename(h), ", ".join("`%s`" % e.split()[0] + (" (IEEE, abstracted)" if "fp=abs" in e else " (bit-precise IEEE)" if "fp=ieee" in e else "") for e in g("entry"))))
    for b in g("bounds"): print("- Bounds, " + b)
    for a in g("assume"): print("- Assumes: " + a)
    print("- " + p["note"] + "\n")
