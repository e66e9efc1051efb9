"""Lockset analysis shared by C05, C06, C07."""
from engine import *
from effects import Effects
from scan import *
from main import CheckError

LOCK, UNLOCK, WAIT = "pthread_mutex_lock", "pthread_mutex_unlock", ("pthread_cond_wait", "pthread_cond_timedwait")
SIG = ("pthread_cond_signal", "pthread_cond_broadcast")
OPS = (LOCK, UNLOCK, "pthread_mutex_trylock") + WAIT + SIG

def has_ops(f):
    return any(i.callee in OPS for i in f.calls())

class LockRule(Rule):
    """held: frozenset of mutex classes; log of everything seen per instruction"""
    def __init__(self, E, entry, acq):
        self.modsets = E; self.entry = entry; self.acq = acq
        self.calls = {}      # inst id -> (inst, set of locksets at the call)
        self.access = {}     # inst id -> [inst, class, write, must lockset]
        self.edges = {}      # (held, acquired) -> inst
        self.waits = []      # (inst, cond class, mutex class)
        self.ops = 0
        self.seen_calls = {}
    waitmod = None
    def start(self, st): st.r["h"] = frozenset(self.entry)
    def key(self, st, b): return st.r["h"]
    def on_initial(self, st, inst, loc, t):
        # established when the decoder is opened and never written again (checked by analyse)
        if self.eng.cls(loc) in ("Dav1dContext.n_fc", "Dav1dContext.n_tc"): self.eng.clamp(st, t, 1, INF)
    def merge(self, b, A, B, M, J): M.r = dict(A.r)
    def name(self, a):
        l = loc_of(a)
        if a[0] == "g": return a[1]
        c = self.eng.cls(l)
        return c
    def on_access(self, st, inst, a, write):
        c = self.eng.cls(loc_of(a))
        b = loc_of(a)[0]
        if b[0] == "al": return
        r = self.access.get(inst.id)
        if r is None: self.access[inst.id] = [inst, c, write, st.r["h"]]
        else:
            r[3] = r[3] & st.r["h"]; r[2] = r[2] or write
    def edge(self, st, inst, c):
        for h in st.r["h"]: self.edges.setdefault((h, c), inst)
    def on_call(self, st, inst, name, args):
        R = self.eng; h = st.r["h"]
        if name == LOCK or name == "pthread_mutex_trylock":
            self.ops += 1
            c = self.name(args[0])
            if c in h: R.report(st, inst, "%s is locked while already held" % c, "relock")
            else: self.edge(st, inst, c)
            st.r = dict(st.r); st.r["h"] = h | {c}
        elif name == UNLOCK:
            self.ops += 1
            c = self.name(args[0])
            if c not in h: R.report(st, inst, "%s is unlocked while not held" % c, "unlock")
            st.r = dict(st.r); st.r["h"] = h - {c}
        elif name in WAIT:
            self.ops += 1
            cv, mx = self.name(args[0]), self.name(args[1])
            self.waits.append((inst, cv, mx))
            if mx not in h: R.report(st, inst, "waits on %s without holding %s" % (cv, mx), "wait")
            for o in sorted(h - {mx}): R.report(st, inst, "waits on %s while also holding %s" % (cv, o), "wait2")
            # whatever the worker threads write may change while waiting
            R.clobber(st, inst, self.waitmod)
            st.env[inst.id] = R.fresh(st, inst)
            return True
        else:
            tg = [name] if name else list(self.modsets.targets(inst.fn, inst) or ())
            r = self.calls.setdefault(inst.id, (inst, tg, set()))
            r[2].add(h)
            for t in tg:
                for c in self.acq.get(t, ()):
                    if c in h: R.report(st, inst, "%s is locked again inside the call while already held (call to %s)" % (c, t), "relock")
                    else: self.edge(st, inst, c)
        return None
    def on_ret(self, st, inst, v):
        h = st.r["h"]
        for c in sorted(h - frozenset(self.entry)): self.eng.report(st, inst, "returns while still holding %s" % c, "leak")
        for c in sorted(frozenset(self.entry) - h): self.eng.report(st, inst, "returns having released %s, which its callers hold" % c, "leak")

class Result: pass

def thread_entries(fns):
    out = set()
    for f in fns:
        for i in f.calls():
            if i.callee == "pthread_create" and isinstance(i.a[2], list) and i.a[2][0] == "g": out.add(i.a[2][1])
    return out

def analyse(ctx, mk=LockRule, also=lambda f: False):
    """run the lockset analysis over the whole library; returns per-function rules and reports"""
    import front
    P0 = ctx.prog(inline_static=False)
    inl = focus(P0, lambda f: has_ops(f) or also(f))
    P = ctx.prog(inline=tuple(inl), inline_static=False)
    E = Effects(P)
    fns = {f.name: f for f in P.functions() if not (f.internal and f.name in inl)}
    ctx.setc("inlined_static_helpers", len(inl))
    opsf = [n for n in fns if has_ops(fns[n])]
    ctx.require(opsf, "no pthread mutex operation found in the library")
    def lockname(f, i):
        c, b = addr_class(f, i.a[0])
        if c: return c
        return b[1] if isinstance(b, list) else "?"
    calls = {n: {c for c in E.calls.get(n, ()) if c in fns} for n in fns}
    threads = thread_entries(fns.values())
    ctx.require(threads, "no pthread_create call found")
    roots_ = set(threads)          # functions whose callers are unknown: no lock is known to be held
    for f in fns.values():
        for i in f.all_insts():
            for a in i.a:
                if isinstance(a, list) and a[0] == "g" and a[1] in fns and not (i.op == "store" and E.slot_users.get(a[1])): roots_.add(a[1])
    api = public_api(front.REPO)
    worker = E.reach(threads)
    caller = {}
    for n, cs in calls.items():
        for c in cs: caller.setdefault(c, set()).add(n)
    order = [comp for comp in sccs(list(fns), {n: list(calls[n]) for n in fns})]
    order.reverse()   # callers before callees
    acq = {n: set() for n in fns}
    direct = {n: {lockname(fns[n], i) for i in fns[n].calls() if i.callee == LOCK} for n in opsf}
    entry = {}; wentry = {}
    res = Result(); res.P = P; res.E = E; res.fns = fns; res.api = api; res.worker = worker; res.threads = threads; res.opsf = opsf; res.calls = calls
    def fix_acq():
        for n in fns: acq[n] = set(direct.get(n, ())) - set(entry.get(n, ()))
        ch = True
        while ch:
            ch = False
            for n in fns:
                for c in calls[n]:
                    d = acq[c] - acq[n] - set(entry.get(n, ()))
                    if d: acq[n] |= d; ch = True
    for n in fns:
        if n != "dav1d_open" and E.direct[n] & {"Dav1dContext.n_fc", "Dav1dContext.n_tc"}: raise CheckError("thread counts are written outside dav1d_open: %s" % n)
    waitmod = set()
    for t in threads: waitmod |= E.trans.get(t, set())
    for rnd in range(2):
        fix_acq()
        site = {}; wsite = {}; res.rules = {}; res.reports = []; steps = 0
        for comp in order:
            for n in comp:
                known = len(comp) == 1 and n not in api and n not in roots_ and caller.get(n)
                s = site.get(n); w = wsite.get(n)
                entry[n] = e = frozenset.intersection(*s) if known and s else frozenset()
                wentry[n] = we = (frozenset.intersection(*w) if known and w else frozenset())
                f = fns[n]
                if n in opsf:
                    r = mk(E, e, acq); r.waitmod = waitmod; r.res = res; g = Engine(P, f, r); g.run(); steps += g.steps
                    res.rules[n] = r; res.reports += [dict(x, fname=n) for x in g.reports]
                    for i, tg, hs in r.calls.values():
                        for t in tg:
                            site.setdefault(t, []).extend(hs)
                            if n in worker: wsite.setdefault(t, []).extend(h | we for h in hs)
                else:
                    for c in calls[n]:
                        site.setdefault(c, []).append(e)
                        if n in worker: wsite.setdefault(c, []).append(we)
    res.entry = entry; res.wentry = wentry; res.acq = acq; res.steps = steps
    ctx.setc("functions", len(fns)); ctx.setc("functions_with_lock_operations", len(opsf)); ctx.setc("block_visits", steps)
    return res
