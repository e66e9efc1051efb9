#!/bin/bash
# mp.sh ID [CHECK...]: run checks (default: the bug's own) on a scratch copy of /repo's sources with a planted bug
id=$1; shift; d=$(mktemp -d /tmp/mut_XXXXXX); cp -r /repo/src /repo/include /repo/tools $d/
(cd $d && git init -q . && git apply /verif/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; rm -rf "$d"; exit 9; }
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd /verif; for c in "$@"; do SA_REPO=$d timeout 800 python3 -B sa/main.py $c 2>&1 | grep -v "^VIOL\|^note\|^KNOWN" | cut -c1-220 | tail -3 | sed "s/^/$id /"; done
rm -rf "$d"
