#!/bin/bash
# usage: tryseed.sh NAME [notest] -- in the scratch copy: demo passes on clean, patch applies, builds, stable tests pass, demo fails
n=$1; d=/verif/seeded/$n
[ -d /tmp/sw/repo ] || { mkdir -p /tmp/sw; cp -a /repo /tmp/sw/repo; }
cd /tmp/sw/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
(cd /tmp/sw/repo; bash $d/demo.sh) >/tmp/sw/demo_clean.log 2>&1; echo "demo clean rc=$?"
git apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ "$2" != notest ]; then
sed 's#/repo#/tmp/sw/repo#' /opt/vp/env.sh > /tmp/sw/env.sh
( . /tmp/sw/env.sh; export PROPTEST_RNG_SEED=1 PROPTEST_DISABLE_FAILURE_PERSISTENCE=true; timeout 840 cargo test $SCOPE --no-fail-fast --offline -- --test-threads 8 > /tmp/sw/test.log 2>&1; python3 /opt/vp/results.py /tmp/sw/out.json cargo:/tmp/sw/test.log )
python3 - <<'P'
import json
o=json.load(open('/tmp/sw/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[x for x in b['stable'] if x not in o['passed']]
print("stable tests failing:",bad[:5], len(bad))
P
fi
(cd /tmp/sw/repo; bash $d/demo.sh) >/tmp/sw/demo_bad.log 2>&1; echo "demo patched rc=$?"; tail -3 /tmp/sw/demo_bad.log
git checkout -q -- .
