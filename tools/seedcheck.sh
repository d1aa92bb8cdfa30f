#!/bin/bash
# usage: seedcheck.sh <seed id> [property...]: applies the planted change in /repo, runs build + stable tests + demo + the check(s), undoes it
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
props=${*:-$prop}
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
bash $d/demo.sh >/tmp/w/demo0.log 2>&1; echo "demo on clean tree: $? (want 0)"
git apply $d/patch.diff || exit 2
bash /tmp/w/rt.sh
bash $d/demo.sh >/tmp/w/demo1.log 2>&1; echo "demo with the change: $? (want != 0)"; tail -2 /tmp/w/demo1.log | cut -c1-200
for p in $props; do (cd /verif; python3-vt check.py $p 2>&1 | tail -4 | cut -c1-330; echo "check $p: exit ${PIPESTATUS[0]}"); done
git checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; git status --short
