#!/bin/bash
# plant.sh ID [CHECK...]: confirm a planted bug on /repo (apply, build, tests, demo, checks, undo)
id=$1; shift; d=/verif/seeded/$id; cd /repo || exit 9
git diff --quiet HEAD || { echo "/repo dirty"; exit 9; }
t=$(mktemp -d /tmp/plant.XXXX); cp -r $d/. $t/; rm -f $t/*.diff $t/meta.json
bash /opt/vp/build.sh > $t/b0.log 2>&1 || { echo "clean build fails"; exit 9; }
(timeout 300 bash $t/demo.sh > $t/demo0.log 2>&1); echo "$id demo clean: $?"
git apply $d/patch.diff || { echo "patch does not apply"; exit 9; }
bash /opt/vp/build.sh > $t/b1.log 2>&1 || { echo "BUILD FAILS"; tail -5 $t/b1.log; }
(timeout 300 bash $t/demo.sh > $t/demo1.log 2>&1); echo "$id demo bug: $?"; tail -2 $t/demo1.log
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $t/o.json > $t/t.log 2>&1; python3 - $t/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
s=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
p=set(o['passed']); print("stable", len(s), "missing", len(s-p), list(s-p)[:3], "failed", len(o['failed']))
P
fi
for c in "$@"; do (cd /verif; ./check $c 2>&1 | cut -c1-200 | tail -4); done
git checkout -q -- . ; bash /opt/vp/build.sh > /dev/null 2>&1
rm -rf "$t"
