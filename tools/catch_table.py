#!/usr/bin/env python3
"""Table of the planted bugs and the check that reports each (tools/catch.sh verifies it)."""
import json, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("\n## Planted bugs\n\nEvery one is reported by the quick check of its property (`tools/catch.sh`).\n\n| Bug | Check | Needs in order to show |\n|---|---|---|")
for n in sorted(os.listdir(d), key=lambda n: (json.load(open(d + "/%s/meta.json" % n))["property"], n)):
    m = json.load(open(d + "/%s/meta.json" % n)); print("| %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
