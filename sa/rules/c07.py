"""C07: waits re-test their predicate; wake-ups follow the change."""
from locks import *

TTD = "TaskThreadData.lock"
F = "Dav1dFrameContext.task_thread."
WORK = "TaskThreadData.cond"
SIGFLAG = "TaskThreadData.cond_signaled"
RESET = "TaskThreadData.reset_task_cur"
MERGE = F + "pending_tasks.merge"
HEAD = F + "task_head"
# who makes a condition true: (field, value stored or None for any, side) -> (condition variable, wake-up kinds that reach every waiter that can be there)
WAKE = [
    ("Dav1dFrameContext.n_tile_data", 0, "worker", F + "cond", SIG),
    ("TaskThreadData.delayed_fg.finished", 1, "worker", "TaskThreadData.delayed_fg.cond", SIG),
    ("Dav1dTaskContext.task_thread.flushed", 1, "worker", "thread_data.cond", SIG),
    ("Dav1dTaskContext.task_thread.die", 1, "main", WORK, ("pthread_cond_broadcast",)),
    ("TaskThreadData.delayed_fg.exec", 1, "main", WORK, SIG),
    (HEAD, None, "main", WORK, SIG),
    (MERGE, 1, "main", WORK, SIG),
]
PROGRESS = ("Dav1dTileState.progress[]", "Dav1dFrameContext.frame_thread.deblock_progress", "Dav1dFrameContext.frame_thread.entropy_progress")

class WakeRule(LockRule):
    """r: h lockset; p pending wake-ups (frozenset of (cond, kinds, field)); cs the value fetched from the signalled flag that still obliges;
    z flag cleared under the current lock; nr/ns progress published without scheduler reset / wake-up"""
    def __init__(self, *a):
        super().__init__(*a)
        self.sig = []; self.obl = {}; self.waitat = []
    def side(self): return "worker" if self.eng.fn.name in self.res.worker else "main"
    def start(self, st):
        super().start(st)
        st.r.update(p=frozenset(), cs=None, z=False, nr=False, ns=False)
    def key(self, st, b): return (st.r["h"], st.r["p"], st.r["z"], st.r["nr"], st.r["ns"], st.r["cs"] is not None)
    def merge(self, b, A, B, M, J):
        M.r = dict(A.r)
        if A.r["cs"] != B.r["cs"]: M.r["cs"] = B.r["cs"]
    def mentions(self, st, s): return st.r["cs"] is not None and s in syms(st.r["cs"])
    def substitute(self, st, s, n):
        if st.r["cs"] is not None and s in syms(st.r["cs"]):
            st.r = dict(st.r); st.r["cs"] = subst(st.r["cs"], s, n) if n is not None else None
    def live_syms(self, st): return syms(st.r["cs"]) if st.r["cs"] is not None else frozenset()
    def set(self, st, **k):
        st.r = dict(st.r); st.r.update(k)
    def flush_cs(self, st, inst, what):
        cs = st.r["cs"]
        if cs is None: return
        if self.eng.rng(st, cs)[0] <= 0 <= self.eng.rng(st, cs)[1] and 0 not in st.ne.get(cs, ()):
            self.eng.report(st, inst, "the signalled flag was found clear but nobody is signalled before %s" % what, "flag")
        self.set(st, cs=None)
    def need(self, st, inst, what, ret=False):
        for cond, kinds, fld in sorted(st.r["p"]):
            self.eng.report(st, inst, "%s is set but %s is not %s before %s" % (fld, cond, "broadcast" if kinds == ("pthread_cond_broadcast",) else "signalled", what), "wake")
        self.set(st, p=frozenset())
    def wrote(self, st, inst, a, v):
        c = self.eng.cls(loc_of(a))
        if c == "TaskThreadData.delayed_fg.exec" and TTD not in st.r["h"]: return
        side = self.side()
        for fld, val, sd, cond, kinds in WAKE:
            if c != fld or sd != side: continue
            if val is not None:
                r = self.eng.rng(st, v)
                if not (r[0] <= val <= r[1]): continue
            elif v == NULL: continue       # a list is emptied, not filled
            self.obl[(fld, inst.id)] = inst
            self.set(st, p=st.r["p"] | {(cond, kinds, fld)})
        if c == SIGFLAG:
            self.set(st, z=(v == C(0)) and TTD in st.r["h"])
        if c == MERGE and v != C(0): self.set(st, nr=False)
        if c in PROGRESS and side == "worker": self.set(st, nr=True, ns=TTD not in st.r["h"])
        if c == RESET: self.set(st, nr=False)
    def on_branch(self, st, inst, c, want):
        cs = st.r["cs"]
        if cs is not None:
            r = self.eng.rng(st, cs)
            if r[0] > 0 or r[1] < 0 or 0 in st.ne.get(cs, ()): self.set(st, cs=None)
        return True
    def on_store(self, st, inst, a, v):
        self.wrote(st, inst, a, v)
        return None
    def on_atomicrmw(self, st, inst, a, v):
        c = self.eng.cls(loc_of(a))
        if c == RESET: self.set(st, nr=False)
        if c == SIGFLAG:
            self.flush_cs(st, inst, "the flag is tested again")
            s = self.eng.fresh(st, inst)
            self.set(st, cs=s, z=False, ns=False)
            self.set(st, p=frozenset(x for x in st.r["p"] if x[0] != WORK or x[1] != SIG))   # the flag protocol takes over
            return s
        return None
    def on_call(self, st, inst, name, args):
        R = self.eng
        if name in SIG:
            c = self.name(args[0]); self.sig.append((inst, c))
            self.set(st, p=frozenset(x for x in st.r["p"] if not (x[0] == c and name in x[1])))
            if c == WORK: self.set(st, cs=None, ns=False)
            return None
        if name in WAIT:
            cv = self.name(args[0])
            self.need(st, inst, "this thread goes to sleep")
            self.flush_cs(st, inst, "this thread goes to sleep")
            if cv == WORK and not st.r["z"]: R.report(st, inst, "goes to sleep without having cleared the signalled flag under the same lock, so the next wake-up is skipped", "flag")
            if st.r["nr"] and cv == WORK: R.report(st, inst, "progress was published without making the scheduler look at waiting tasks again", "reset")
            self.set(st, z=False, nr=False, ns=False)
            r = super().on_call(st, inst, name, args)
            return r
        if name == UNLOCK and self.name(args[0]) == TTD:
            if st.r["nr"]: R.report(st, inst, "progress was published without making the scheduler look at waiting tasks again", "reset")
            r = super().on_call(st, inst, name, args)
            self.set(st, z=False, nr=False)
            return r
        if name == LOCK and self.name(args[0]) == TTD:
            self.flush_cs(st, inst, "taking the mutex")
            self.set(st, ns=False)
            return super().on_call(st, inst, name, args)
        # real work while other workers sleep
        tg = [name] if name else list(self.modsets.targets(inst.fn, inst) or ())
        if TTD not in st.r["h"] and self.work(inst, name, tg):
            self.flush_cs(st, inst, "more work is done")
            if st.r["ns"]: R.report(st, inst, "progress was published but more work is done before anyone is woken", "sig")
            if st.r["nr"]: R.report(st, inst, "progress was published but more work is done before the scheduler looks at waiting tasks again", "reset")
            self.set(st, ns=False, nr=False)
        # callee makes a condition true and leaves the wake-up to its caller
        for t in tg:
            if t in self.res.fns and t not in self.res.opsf and self.side() == "worker":
                for fld, val, sd, cond, kinds in WAKE:
                    if sd == "worker" and fld in self.modsets.trans.get(t, ()):
                        self.obl[(fld, inst.id)] = inst
                        self.set(st, p=st.r["p"] | {(cond, kinds, fld)})
        # callee queues tasks without waking anyone
        for t in tg:
            if t in self.res.fns and t not in self.res.threads and queues(self.res.fns[t]) and self.side() == "main" and not self.signals(t):
                self.obl[(MERGE, inst.id)] = inst
                self.set(st, p=st.r["p"] | {(WORK, SIG, MERGE)})
        return super().on_call(st, inst, name, args)
    def work(self, inst, name, tg):
        """decoding or filtering: reaches the DSP dispatch tables"""
        h = self.res.__dict__.setdefault("heavy", {})
        for t in tg:
            if t not in self.res.fns: continue
            if t not in h: h[t] = any(self.modsets.indirect.get(x) for x in self.modsets.reach([t]))
            if h[t]: return True
        return False
    def signals(self, t):
        return any(i.callee in SIG for i in self.res.fns[t].calls())
    def on_ret(self, st, inst, v):
        super().on_ret(st, inst, v)
        if self.side() == "main":
            # functions that queue tasks for their caller to announce are checked at the caller
            self.set(st, p=frozenset(x for x in st.r["p"] if not (x[2] == MERGE and not self.signals(self.eng.fn.name))))
        self.need(st, inst, "the function returns")
        self.flush_cs(st, inst, "the function returns")

def queues(f):
    return any(i.op == "store" and addr_class(f, i.a[1])[0] == MERGE and const_int(i.a[0]) != 0 for i in f.all_insts())

def touches_flags(f):
    w = {RESET, SIGFLAG, MERGE, HEAD} | set(PROGRESS) | {x[0] for x in WAKE}
    return any(addr_class(f, a)[0] in w for i, a in writes(f))

def signalled_by(res, cond):
    return {n for n, r in res.rules.items() if any(c == cond for i, c in r.sig)}

def slice_loads(f, v, seen=None, depth=0):
    """loads the value depends on (through arithmetic, comparisons, phis)"""
    seen = set() if seen is None else seen
    if not isinstance(v, int) or v in seen or v not in f.insts: return set()
    seen.add(v); i = f.insts[v]
    if i.op in ("load", "atomicrmw", "cmpxchg"): return {v}
    if i.op == "call":
        return {v} if not (i.callee or "").startswith("llvm.") else set().union(*[slice_loads(f, w, seen) for w in i.a if isinstance(w, int)] or [set()])
    out = set()
    for w in i.a:
        if isinstance(w, int): out |= slice_loads(f, w, seen)
    if i.op == "phi":
        # a phi of constants stands for the branches that select it (short-circuit conditions)
        for v2, pb in zip(i.a, i.x):
            t = f.blocks[pb][-1]
            if t.op == "br" and len(t.x) == 2: out |= slice_loads(f, t.a[0], seen)
    return out

def loop_check(ctx, res, n, f, w, cond):
    """the wait is inside a loop, and no path leaves the loop after the wait without a fresh test of something the signallers write"""
    L = None
    for h, body in f.loops().items():
        if w.bb in body and (L is None or len(body) < len(L)): L = body
    if L is None:
        ctx.violation(w.where(), "waits on %s outside a loop: a spurious or early wake-up is taken for the event" % cond, n, "loop"); return
    sg = signalled_by(res, cond)
    written = set()
    for s in sg: written |= res.E.trans.get(s, set())
    good = set()    # predicate loads in the loop
    for b in L:
        for i in f.blocks[b]:
            if i.op in ("load", "atomicrmw", "cmpxchg"):
                c = addr_class(f, i.a[0])[0]
                o = None
                if c is None or c.startswith("*"):
                    a = i.a[0]
                    while isinstance(a, int) and a in f.insts and f.insts[a].op == "getelementptr": a = f.insts[a].a[0]
                    o = addr_class(f, f.insts[a].a[0])[0] if isinstance(a, int) and a in f.insts and f.insts[a].op == "load" else None
                if c in written or o is not None: good.add(i.id)
    exits = []
    for b in L:
        t = f.blocks[b][-1]
        outs = [s for s in f.succ[b] if s not in L and s not in f.dead_blocks()]
        if outs: exits.append((b, t))
    # forward from the wait, not crossing a predicate load
    start = (w.bb, w.idx + 1)
    seen = set(); st = [start]; hit = []
    deps = {}
    for b, t in exits:
        deps[b] = slice_loads(f, t.a[0]) & good if t.a else set()
    def fresh_reach(target_loads):
        """blocks of L reachable from the wait without executing one of target_loads"""
        seen = set(); st = [start]; out = set()
        while st:
            b, k = st.pop()
            if (b, k > 0) in seen: continue
            seen.add((b, k > 0))
            stop = False
            for i in f.blocks[b][k:]:
                if i.id in target_loads: stop = True; break
            if stop: continue
            out.add(b)
            for s in f.succ[b]:
                if s in L: st.append((s, 0))
        return out
    for b, t in exits:
        d = deps[b]
        if not d:
            # leaving on something else is fine only if it cannot be reached from the wait before a predicate test
            allp = set().union(*deps.values()) if deps else set()
            if b in fresh_reach(allp):
                ctx.violation(t.where(), "the loop that waits on %s can be left without testing the awaited condition again" % cond, n, "retest")
        elif b in fresh_reach(d):
            ctx.violation(t.where(), "the loop that waits on %s is left on a condition evaluated before the wait" % cond, n, "retest")
    ctx.count("wait_loop_exits_checked", len(exits))
    return sorted({addr_class(f, f.insts[x].a[0])[0] or "*" for d in deps.values() for x in d})

def run(ctx):
    ctx.rule = ("(1) Every condition wait sits in a loop each of whose exits reachable from the wait depends on a load, executed after the wait, of a field that a function signalling that condition writes. "
                "(2) Each condition is always paired with one mutex, held at the wait. (3) Typestate on every path: after a store that makes an awaited condition true (frame finished, grain job finished, worker parked, "
                "shutdown, job or task queued) the matching condition is signalled (broadcast for shutdown) before the thread sleeps or returns; a thread that finds the signalled flag clear signals; a worker clears that flag under "
                "the mutex right before sleeping; progress published by a worker makes the scheduler revisit waiting tasks and wakes another worker before the worker goes on with other work.")
    ctx.assumptions += ["the table WAKE in sa/rules/c07.py names the events and the conditions their waiters sleep on", "a decoder has at least one frame context and one task context"]
    R = analyse(ctx, WakeRule, touches_flags)
    pair = {}; waits = {}
    for n, r in R.rules.items():
        for i, cv, mx in r.waits:
            waits[i.id, n] = (i, cv)
            pair.setdefault(cv, {}).setdefault(mx, []).append((n, i))
    ctx.require(waits, "no condition wait found")
    for cv, m in pair.items():
        if len(m) > 1:
            worst = min(m.values(), key=len)
            for n, i in worst: ctx.violation(i.where(), "%s is waited on with different mutexes" % cv, n, "pair")
    for (x, n), (i, cv) in sorted(waits.items()):
        p = loop_check(ctx, R, n, R.fns[n], i, cv)
        ctx.sample("%s: wait on %s re-tests %s" % (i.where(), cv, ", ".join(p or [])))
    for x in R.reports:
        if x["kind"] in ("wake", "flag", "reset", "sig", "wait", "wait2"): ctx.violation(x["where"], x["msg"], x["fname"], x["kind"], x["path"])
    obl = {}
    for n, r in R.rules.items():
        for (fld, i), inst in r.obl.items(): obl[fld] = obl.get(fld, 0) + 1
    ctx.setc("waits", len(waits)); ctx.setc("wake_obligations", sum(obl.values())); ctx.setc("wake_obligations_by_field", obl)
    ctx.setc("signal_sites", len({(n, i.id) for n, r in R.rules.items() for i, c in r.sig}))
    ctx.require(len(obl) >= 4, "the events of the wake-up table no longer occur in this tree")
