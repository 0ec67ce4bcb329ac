#!/bin/bash
# t2.sh ID PROP..: tests + checks against a patched copy (no change in /repo)
id=$1; shift
W=/tmp/seedw/tt-$id
rm -rf /tmp/seedw/tt-$id; cp -a /repo $W
cd $W && git apply /tmp/seedw/out/$id/patch.diff || exit 1
python3 -m py_compile $(git diff --name-only | grep '\.py$') 2>&1 | tail -2
(cd $W && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -1)
cd /verif
for p in "$@"; do n=${p#C}; n=$((10#$n)); if [ $n -le 10 ]; then NODE_GYP_REPO=$W timeout 900 node jssim/run.js --property $p --tier quick 2>&1 | tail -2 | cut -c1-300; else NODE_GYP_REPO=$W timeout 900 python3 pysim/run.py --property $p --tier quick 2>&1 | tail -2| cut -c1-300; fi; done
rm -rf /tmp/seedw/tt-$id
