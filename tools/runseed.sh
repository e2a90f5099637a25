#!/bin/bash
# usage: runseed.sh NAME [tier] -- applies the planted change to /repo, runs its property's check, undoes it
n=$1; d=/verif/seeded/$n; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 9
bash /verif/check.sh $p ${2:-quick} > /tmp/seed.$n.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$n $p rc=$rc $(grep -c '^VIOLATION' /tmp/seed.$n.log) violations"; grep -m1 -A1 '^VIOLATION' /tmp/seed.$n.log | cut -c1-300
