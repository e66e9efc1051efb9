#!/usr/bin/env python3
"""Runner: ./check <ID>.  Exit 0 held, 1 violation, 2 could not decide (broken check / unparsable tree)."""
import sys, os, time, json, importlib, traceback, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)
import front
from ir import Prog, loc_str

class CheckError(Exception):
    """the rule lost its footing (an anchor it is stated over is gone): neither held nor violated"""

class Ctx:
    def __init__(self, pid):
        self.pid = pid; self.tier = os.environ.get("VERIF_TIER", "quick"); self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.viol = []; self.cov = {}; self.notes = []; self.assumptions = []; self.samples = []
        self._progs = {}
        self.rule = ""
    # --- programs
    def prog(self, units=None, inline=(), noinline=(), unroll=0, max_inline=1500, inline_static=True, ndebug=True, extra=()):
        units = front.lib_units() if units is None else units
        key = (tuple(units), tuple(inline), tuple(noinline), unroll, max_inline, inline_static, ndebug, tuple(extra))
        p = self._progs.get(key)
        if p is None:
            bcs = front.compile_units(units, ndebug=ndebug, extra=extra)
            p = self._progs[key] = Prog(front.export(bcs, inline=inline, noinline=noinline, unroll=unroll, max_inline=max_inline, inline_static=inline_static))
            self.cov.setdefault("translation_units", len(units))
        return p
    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n
    def setc(self, k, v): self.cov[k] = v
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def require(self, cond, what):
        if not cond: raise CheckError(what)
    def violation(self, where, msg, fn="", kind="", path=()):
        """one violated construct; key (kind|fn|msg) identifies it independently of line numbers"""
        k = "%s|%s|%s" % (kind, fn, msg)
        if any(v["key"] == k and v["where"] == where for v in self.viol): return
        self.viol.append(dict(where=where, msg=msg, fn=fn, kind=kind, key=k, path=list(path)))

def known_findings():
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("finding: "):
                m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)$", l)
                if m: out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out

def run_one(pid):
    t0 = time.time()
    ctx = Ctx(pid)
    ev = os.path.join(ROOT, "evidence"); os.makedirs(ev, exist_ok=True)
    rc = 2
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(ctx)
        rc = 0
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
    except front.BuildError as e:
        print("CHECK-ERROR property=%s cannot analyse the tree: %s" % (pid, e))
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s internal error" % pid)
    known = known_findings().get(pid, {})
    new = []
    hit = set()
    for v in ctx.viol:
        if v["key"] in known: hit.add(v["key"])
        else: new.append(v)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    if new:
        rc = 1
        rd = os.path.join(ev, "replay"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s.txt" % pid)
        with open(rp, "w") as f:
            for v in new:
                f.write("VIOLATED %s: %s\n  at %s\n" % (pid, v["msg"], v["where"]))
                if v["fn"]: f.write("  function analysed: %s\n" % v["fn"])
                f.write("  key=[%s]\n" % v["key"])
                for s in v["path"]: f.write("    via %s\n" % s)
                f.write("\n")
        for v in new[:20]:
            print("%s: %s [%s]" % (v["where"], v["msg"], v["fn"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    cov = dict(ctx.cov)
    cov["explanation"] = (ctx.rule or "").strip()
    if ctx.samples: cov["samples"] = ctx.samples
    if ctx.notes: cov["notes"] = ctx.notes
    json.dump(dict(property=pid, tier=ctx.tier if ctx.tier in ("quick", "thorough") else "quick", seed=ctx.seed, level="other",
                   coverage=cov, assumptions=ctx.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new)),
              open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    summ = " ".join("%s=%s" % (k, v) for k, v in ctx.cov.items() if isinstance(v, (int, str)))
    print("%s %s (%.1f s) %s" % (pid, {0: "held", 1: "VIOLATED", 2: "UNDECIDED"}[rc], time.time() - t0, summ))
    return rc

def main():
    ids = sys.argv[1:]
    if len(ids) == 1 and ids[0] != "all":
        return run_one(ids[0])
    if ids == ["all"]:
        m = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
        ids = [c["property"] for c in m["checks"]]
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    def one(i):
        r = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), i], capture_output=True, text=True)
        return i, r
    worst = 0
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(one, ids):
            sys.stdout.write(r.stdout if r.returncode else "".join(l + "\n" for l in r.stdout.splitlines()[-1:] if l)); 
            if r.returncode not in (0, 1): sys.stdout.write(r.stderr[-1500:])
            worst = max(worst, r.returncode)
    return worst

sys.modules["main"] = sys.modules["__main__"]
sys.exit(main())
