#!/bin/bash
# catch.sh [id...]: run each planted bug's property (quick) against a copy of /repo with the patch applied; prints exit codes
cd "$(dirname "$0")/.."; R=${REPO:-/repo}
for d in ${@:-$(ls seeded)}; do p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
t=$(mktemp -d); git -C $R archive HEAD | tar x -C $t; git -C $t init -q; (cd $t && git apply --unsafe-paths "$OLDPWD/seeded/$d/patch.diff") || { echo "$d does not apply"; rm -rf "$t"; continue; }
VERIF_REPO=$t timeout 900 python3 run.py $p quick >/tmp/catch.out 2>&1; r=$?; rm -rf "$t"
echo "$d $p exit=$r $(grep -m1 VIOLATION /tmp/catch.out)"; done
