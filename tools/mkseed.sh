#!/bin/bash
# usage: mkseed.sh NAME PROPERTY "needs" "what"   -- takes the diff of the scratch copy /tmp/sw/repo and /tmp/sw/demo.rs
set -e
n=$1; d=/verif/seeded/$n; mkdir -p $d
git -C /tmp/sw/repo diff > $d/patch.diff
cp /tmp/sw/demo.rs $d/demo.rs; cp /verif/tools/demo_template.sh $d/demo.sh
grep -q doodle_formats $d/demo.rs || echo "doodle-formats" >> $d/omit.tmp
grep -q doodle_gencode $d/demo.rs || echo "doodle_gencode" >> $d/omit.tmp
[ -f $d/omit.tmp ] && mv $d/omit.tmp $d/omit
python3 - "$d" "$2" "$3" "$4" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
