#!/bin/bash
# tools/bug.sh NAME [nocheck]: confirm seeded/NAME in a scratch copy (/tmp/bw-NAME): applies, builds, stable test passes,
# demo 0 without / nonzero with; then run the property's check on the copy.
N=$1; S=/verif/seeded/$N; W=/tmp/bw-$N
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit 3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CC=/usr/bin/gcc CXX=/usr/bin/g++
timeout 300 bash "$S/demo.sh" >/tmp/bug-$N.log 2>&1 || { echo "$N: demo FAILS on clean"; tail -5 /tmp/bug-$N.log; }
git apply "$S/patch.diff" || { echo "$N: patch does not apply"; exit 3; }
if grep -q '_lib/' "$S/patch.diff"; then rm -rf build pyEdgeEval/_lib/*.so pyEdgeEval/_lib/{correspond_pixels,nms}.cpp; /opt/venv/bin/python setup.py -q build_ext --inplace >/dev/null 2>&1 || echo "$N: build fails"; fi
timeout 300 bash "$S/demo.sh" >/tmp/bug-$N.log 2>&1 && echo "$N: demo PASSES with the patch"
PYTHONPATH=$W /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_bsds500.py >/tmp/bug-$N.test 2>&1 || { echo "$N: stable test fails"; tail -5 /tmp/bug-$N.test; }
if [ "$2" != nocheck ]; then
  VP_REPO=$W timeout 900 python3 /verif/harness/vp.py $P quick >/tmp/bug-$N.chk 2>&1; rc=$?
  echo "$N: $P rc=$rc $(grep -h -m2 -E 'rejected:|MACHINERY' /tmp/bug-$N.chk | tr '\n' ' ')"
fi
rm -rf "$W"
