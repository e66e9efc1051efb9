#!/usr/bin/env python3
"""mkbug.py ID...: writes /verif/seeded/<ID> from dev/bugs.py (patch from textual edits, demo from streams and drive command lines); expected output recorded on the clean build"""
import sys, os, subprocess, shutil, json, re, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS
DEMO = '''#!/bin/bash
# decodes the streams beside this file through the public API and compares what the application sees with the recorded outcome
d=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
t=$(mktemp -d) || exit 99; trap 'rm -r -- "$t"' EXIT
gcc -w -g -O1 -I"$R/include" -I"$R/_build/include" -I"$R/_build/include/dav1d" "$d/drive.c" -o "$t/drive" -L"$R/_build/src" -ldav1d -Wl,-rpath,"$R/_build/src" || exit 99
cd "$d" || exit 99
export MALLOC_PERTURB_=165
run() { timeout ${T:-60} "$t/drive" "$@" 2>/dev/null; r=$?; [ $r = 0 ] || echo "exit $r"; }
{
%s
} > "$t/out" 2>/dev/null
[ -n "$RECORD" ] && cp "$t/out" "$RECORD"
diff "$d/expect.txt" "$t/out" || exit 1
exit 0
'''
def edit(root, edits):
    for f, old, new in edits:
        p = root + "/" + f; s = open(p).read()
        m = re.match(r"(\d+)@", old); n = 1
        if m: n = int(m.group(1)); old = old[m.end():]
        assert s.count(old) >= n, (f, old)
        if not m: assert s.count(old) == 1, (f, old, s.count(old))
        i = -1
        for _ in range(n): i = s.index(old, i + 1)
        open(p, "w").write(s[:i] + new + s[i + len(old):])
for bid in sys.argv[1:]:
    b = BUGS[bid]; d = "/verif/seeded/" + bid
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(prefix="mkbug", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (t, t), shell=True, check=True)
    edit(t, b["edits"])
    p = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(p); shutil.rmtree(t)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if "files" in b:
        for n, s in b["files"].items():
            s = s() if callable(s) else s
            open(d + "/" + n, "wb" if isinstance(s, bytes) else "w").write(s)
    if "demo" in b: open(d + "/demo.sh", "w").write(b["demo"])
    else:
        for n, fn in b["streams"].items(): open(d + "/" + n, "wb").write(fn())
        shutil.copy("/verif/dev/drive.c", d + "/drive.c")
        open(d + "/demo.sh", "w").write(DEMO % "\n".join(x if x.startswith("!") else "run " + x for x in b["runs"]).replace("\n!", "\n").lstrip("!"))
        open(d + "/expect.txt", "w").write("")
        subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", env=dict(os.environ, RECORD=d + "/expect.txt"), stdout=subprocess.DEVNULL)
        print(open(d + "/expect.txt").read()[:int(os.environ.get("N", "1500"))])
    os.chmod(d + "/demo.sh", 0o755)
