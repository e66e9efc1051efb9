"""C09: no library code writes a process-global variable outside one-time initialisation."""
from scan import *
import front
from main import CheckError

NONREENTRANT = {"strtok", "rand", "srand", "random", "srandom", "drand48", "setenv", "putenv", "unsetenv", "setlocale", "localtime", "gmtime",
                "asctime", "ctime", "signal", "sigaction", "chdir", "umask", "tmpnam", "setvbuf", "freopen", "atexit", "srand48", "lrand48"}
# process-wide by documented design: the CPU mask API
ALLOWED = {("dav1d_set_cpu_flags_mask", "dav1d_cpu_flags_mask")}

def run(ctx):
    ctx.rule = ("Every memory write of the library (stores, atomics, memcpy/memset; through parameters, loaded pointers and returned pointers by an "
                "inclusion-style points-to over the mutable globals) whose target may be a mutable global or function-static object must lie in a function "
                "that runs only under pthread_once with a static control. The once call must precede every allocation in dav1d_open, and public "
                "functions without a decoder argument must not read the initialised tables.")
    ctx.assumptions += ["assembly kernels write only through their pointer arguments", "CPU mask setter dav1d_set_cpu_flags_mask is process-wide by its documented contract"]
    P = ctx.prog(inline_static=False)
    mut = {n for n in P.globals if not P.gv(n)["const"] and not P.gv(n)["decl"]}
    fns = list(P.functions())
    byname = {f.name: f for f in fns}
    # --- points-to of mutable globals
    val = {}       # (fn, ssa) -> set
    slot = {}      # field class or global -> set
    ret = {}
    wparam = {}
    changed = True
    def pts(f, v):
        o = set()
        for r in roots(f, v):
            if r[0] == "g":
                if r[1] in mut: o.add(r[1])
            elif r[0] == "arg": o |= val.get((f.name, r[1]), set())
            else: o |= val.get((f.name, r[1]), set())
        return o
    def slotkey(f, a):
        c, b = addr_class(f, a)
        if c and not c.startswith("*"): return c
        rs = roots(f, a)
        if len(rs) == 1:
            r = next(iter(rs))
            if r[0] == "g": return ("g", r[1])
            if r[0] == "i" and f.insts[r[1]].op == "alloca": return ("al", f.name, r[1])
        return None
    # static initialisers holding addresses of mutable globals
    def ginit(n, v):
        if isinstance(v, list) and v:
            if v[0] == "g" and v[1] in mut: slot.setdefault(("g", n), set()).add(v[1])
            else:
                for w in v:
                    if isinstance(w, list): ginit(n, w)
    for n in P.globals: ginit(n, P.gv(n).get("init"))
    while changed:
        changed = False
        def add(d, k, s):
            nonlocal changed
            if not s: return
            x = d.setdefault(k, set())
            if not s <= x: x |= s; changed = True
        for f in fns:
            for i in f.all_insts():
                if i.op == "store":
                    s = pts(f, i.a[0])
                    if s:
                        k = slotkey(f, i.a[1])
                        if k: add(slot, k, s)
                elif i.op == "load" and i.ty == "ptr":
                    k = slotkey(f, i.a[0])
                    if k: add(val, (f.name, i.id), slot.get(k, set()))
                    for g in pts(f, i.a[0]): add(val, (f.name, i.id), slot.get(("g", g), set()))
                elif i.op == "call" and i.callee in byname:
                    g = byname[i.callee]
                    for k, a in enumerate(i.a):
                        if k < len(g.args): add(val, (g.name, k), pts(f, a))
                    add(val, (f.name, i.id), ret.get(g.name, set()))
                elif i.op == "ret" and i.a: add(ret, f.name, pts(f, i.a[0]))
    # --- functions that only run once
    cl = callers(P); taken = addr_taken(P)
    once_roots, controls = {}, set()
    for f, i in cl.get("pthread_once", []):
        ctl = roots(f, i.a[0])
        fn = i.a[1][1] if isinstance(i.a[1], list) and i.a[1][0] == "g" else None
        if fn and len(ctl) == 1 and next(iter(ctl))[0] == "g" and next(iter(ctl))[1] in mut:
            g = next(iter(ctl))[1]
            once_roots.setdefault(fn, set()).add(g); controls.add(g)
        else:
            ctx.violation(i.where(), "pthread_once is used with a control object that is not a static variable", f.src, "once-control")

    once = set(byname)
    ch = True
    while ch:
        ch = False
        for n in list(once):
            ok = bool(cl.get(n)) or n in once_roots
            for f, i in cl.get(n, []):
                if f.name not in once or f.name == n: ok = ok and f.name in once and True
            if n in once_roots:
                if len(once_roots[n]) > 1: ok = False
                for f, i, k in taken.get(n, []):
                    if i.callee != "pthread_once": ok = False
            elif taken.get(n): ok = False
            if n in API: ok = False
            if not ok: once.discard(n); ch = True
    # a function reached only through recursion from itself cannot sneak in: require a path from a once root
    g = call_graph(P)
    once &= reach(g, once_roots)
    nw = 0
    for f in fns:
        for i, a in writes(f):
            s = pts(f, a)
            nw += 1
            for gname in sorted(s):
                gv = P.gv(gname)
                if gname in controls: continue
                if (f.name, gname) in ALLOWED: continue
                if f.name in once: continue
                # a write through a parameter is blamed on the caller that passed the global, unless every such caller is once-only
                rs = roots(f, a)
                if all(r[0] == "arg" for r in rs):
                    bad = blame(P, f, rs, gname, cl, byname, pts, once)
                    for bf, bi in bad:
                        if (bf.name, gname) in ALLOWED: continue
                        ctx.violation(bi.where(), "mutable global '%s' is passed to %s, which writes it, outside one-time initialisation" % (gv["src"], f.src), bf.src, "global-write")
                    continue
                ctx.violation(i.where(), "writes mutable %s '%s' outside one-time initialisation" % ("function-static variable" if gv.get("fn") else "global", gv["src"]), f.src, "global-write")
        for i in f.calls():
            if i.callee in NONREENTRANT:
                ctx.violation(i.where(), "calls %s, which changes process-wide state" % i.callee, f.src, "non-reentrant")
    # atomics/stores to the control itself
    ctx.setc("mutable_globals", len(mut)); ctx.setc("writes_examined", nw); ctx.setc("functions", len(fns)); ctx.setc("once_only_functions", len(once))
    for n in sorted(once)[:8]: ctx.sample("runs once: " + n)
    # --- every decoder is created after initialisation
    Q = ctx.prog()
    f = Q.fn("dav1d_open")
    ctx.require(f is not None, "dav1d_open not found")
    ob = [i.bb for i in f.calls() if i.callee == "pthread_once"]
    n = 0
    for i in f.calls():
        if i.callee in ("malloc", "calloc", "posix_memalign", "aligned_alloc", "memalign", "pthread_create"):
            n += 1
            if not any(f.dominates(b, i.bb) for b in ob):
                ctx.violation(i.where(), "a decoder is set up on a path that has not run the one-time initialisation", "dav1d_open", "once-order")
    ctx.setc("open_sites_after_once", n)
    written = set()
    for fn in fns:
        if fn.name in once:
            for i, a in writes(fn): written |= pts(fn, a)
    g2 = call_graph(P)
    nr = 0
    for n in sorted(API):
        fn = byname.get(n)
        if fn is None or n in ("dav1d_open", "dav1d_set_cpu_flags_mask"): continue
        if any(P.tname(P.ty(a[2])["to"] if False else a[2]) == "Dav1dContext" for a in fn.args if a[2] != -1 and not isinstance(a[2], list)): continue
        if any(pointee_name(P, a) in ("Dav1dContext", "Dav1dContext*") for a in fn.args): continue
        for m in reach(g2, [n]):
            h = byname.get(m)
            if h is None: continue
            for i in h.all_insts():
                if i.op == "load":
                    nr += 1
                    for gname in pts(h, i.a[0]) & (written - {"dav1d_cpu_flags"}):
                        ctx.violation(i.where(), "'%s' is read by %s, which needs no open decoder, so possibly before it is initialised" % (gname, n), h.src, "uninitialised-read")
    ctx.setc("reads_without_decoder", nr)

def pointee_name(P, a):
    t = a[2]
    if t == -1 or isinstance(t, list): return None
    return P.type_str(t)

def blame(P, f, rs, gname, cl, byname, pts, once, seen=None):
    seen = seen if seen is not None else set()
    out = []
    if f.name in seen: return out
    seen.add(f.name)
    for g, i in cl.get(f.name, []):
        for r in rs:
            k = r[1]
            if k < len(i.a) and gname in pts(g, i.a[k]):
                if g.name in once: continue
                r2 = roots(g, i.a[k])
                if r2 and all(x[0] == "arg" for x in r2): out += blame(P, g, r2, gname, cl, byname, pts, once, seen)
                else: out.append((g, i))
    return out

API = public_api(front.REPO)
