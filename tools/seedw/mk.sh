#!/bin/bash
# mk.sh ID : takes the diff of /tmp/seedw/wt as patch of ID, verifies it
set -e
id=$1; D=/tmp/seedw/out/$id
cd /tmp/seedw/wt
git diff > $D/patch.diff
[ -s $D/patch.diff ]
echo "--- verify $id"
git checkout -q -- .
bash $D/demo.sh > /tmp/seedw/o1 2>&1 && echo "clean: demo 0" || { echo "BAD: demo fails on clean"; tail -5 /tmp/seedw/o1; }
git apply $D/patch.diff
if bash $D/demo.sh > /tmp/seedw/o2 2>&1; then echo "BAD: demo passes with patch"; tail -5 /tmp/seedw/o2; else echo "patched: demo nonzero"; tail -2 /tmp/seedw/o2; fi
git checkout -q -- .
