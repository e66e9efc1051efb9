#!/usr/bin/env python3
"""Development helper: run checks on a scratch copy of /repo's sources with one textual replacement.
   mut.py ID[,ID...] FILE OLD NEW   (OLD may be prefixed with N@ to choose the N-th occurrence, 1-based)"""
import sys, os, shutil, subprocess, tempfile, re
ids, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
try:
    for x in ("src", "include", "tools"): shutil.copytree("/repo/" + x, d + "/" + x)
    p = d + "/" + f; s = open(p).read()
    m = re.match(r"(\d+)@", old); n = 1
    if m: n = int(m.group(1)); old = old[m.end():]
    old = old.replace("\\n", "\n"); new = new.replace("\\n", "\n")
    if s.count(old) < n: sys.exit("pattern occurs %d times" % s.count(old))
    if not m and s.count(old) > 1: print("note: %d occurrences, first replaced" % s.count(old))
    i = -1
    for _ in range(n): i = s.index(old, i + 1)
    open(p, "w").write(s[:i] + new + s[i + len(old):])
    for c in ids.split(","):
        subprocess.run([sys.executable, "-B", "/verif/sa/main.py", c], env=dict(os.environ, SA_REPO=d))
finally:
    shutil.rmtree(d)
