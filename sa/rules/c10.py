"""C10: picture callbacks: thread and pairing."""
from engine import *
from effects import Effects
from scan import *

ALLOC = "Dav1dPicAllocator.alloc_picture_callback"
REL = "Dav1dPicAllocator.release_picture_callback"
COOKIE = "Dav1dPicAllocator.cookie"
ADATA = "Dav1dPicture.allocator_data"

def slot_calls(E, P, cls):
    out = []
    for f in P.functions():
        for i in f.all_insts():
            if i.op == "call" and i.callee is None and E.slot_of(f, i) == cls: out.append((f, i))
    return out

class PairRule(Rule):
    def __init__(self, E, relfns):
        self.modsets = E; self.relfns = relfns; self.n = 0
    def start(self, st): st.r["s"] = None
    def key(self, st, b): return st.r["s"]
    def merge(self, b, A, B, M, J): M.r = dict(A.r)
    def live_syms(self, st): return frozenset()
    def slot_base(self, st, inst, cls):
        """address of the allocator structure the called pointer was loaded from"""
        v = inst.x[1]
        i = self.eng.fn.insts.get(v) if isinstance(v, int) else None
        if i is None or i.op != "load": return None
        a = self.eng.val(st, i.a[0])
        b, p = loc_of(a)
        if not p or p[-1] != cls: return None
        return ("a", b, p[:-1]) if p[:-1] else b
    def on_call(self, st, inst, name, args):
        R = self.eng
        if name is None:
            c = self.modsets.slot_of(inst.fn, inst)
            if c == ALLOC:
                self.n += 1
                base = self.slot_base(st, inst, ALLOC)
                ck = R.load(st, inst, addr(base, (COOKIE,)), "ptr") if base is not None else None
                if base is not None and args[1] != ck:
                    R.report(st, inst, "the allocation callback is not given the cookie of its own allocator", "cookie")
                if st.r["s"] is not None: R.report(st, inst, "a second picture is allocated while the first is still pending", "pair")
                # remember what release must get back
                rel = R.load(st, inst, addr(base, (REL,)), "ptr") if base is not None else None
                R.default_call(inst, st, name, args)
                b0, p0 = loc_of(args[0])
                for l in [l for l in st.mem if l[0] == b0 and is_prefix(p0, l[1]) and l[1][len(p0):] and l[1][-1] in (ADATA,)]: del st.mem[l]
                res = st.env[inst.id]
                o = st.copy()
                out = []
                if R.clamp(o, res, -INF, -1):
                    o.r = dict(o.r); o.r["s"] = ("failed", args[0], base, rel, ck); out.append(o)
                if R.clamp(st, res, 0, 0):
                    st.r = dict(st.r); st.r["s"] = ("live", args[0], base, rel, ck); out.append(st)
                return out
            if c == REL:
                self.consume(st, inst, "direct", args)
        return None
    def consume(self, st, inst, how, args=None):
        R = self.eng; s = st.r["s"]
        if s is None: return
        if s[0] == "failed": R.report(st, inst, "the release callback is armed or called for a picture whose allocation failed", "pair")
        elif s[0] == "done": R.report(st, inst, "the picture is handed to the release callback twice", "pair")
        if s[0] == "live" and how == "ref":
            ok_rel = ok_ck = ok_pic = False
            pic_ad = R.load(st, inst, addr(s[1], (ADATA,)), "ptr")
            pb = loc_of(s[1])
            for l, t in st.mem.items():
                if not l[1] or l[0] == loc_of(s[2])[0] and is_prefix(loc_of(s[2])[1], l[1]): continue
                if l[1][-1] == REL and t == s[3]: ok_rel = True
                if l[1][-1] == COOKIE and t == s[4]: ok_ck = True
                if l[1][-1] == ADATA and t == pic_ad and not (l[0] == pb[0] and is_prefix(pb[1], l[1])): ok_pic = True
            if not ok_rel: R.report(st, inst, "the buffer context does not remember the release callback of the allocator that provided the picture", "pair")
            if not ok_ck: R.report(st, inst, "the buffer context does not remember the cookie of the allocator that provided the picture", "pair")
            if not ok_pic: R.report(st, inst, "the buffer context does not hold the picture (allocator data) as the allocation callback returned it", "pair")
        st.r = dict(st.r); st.r["s"] = ("done",) + s[1:]
    def on_store(self, st, inst, a, v):
        if self.eng.cls(loc_of(a)) == "Dav1dRef.free_callback" and v[0] == "g" and v[1] in self.relfns:
            self.consume(st, inst, "ref")
        return None
    def on_ret(self, st, inst, v):
        s = st.r["s"]
        if s is None or v is None: return
        r = self.eng.rng(st, v)
        if s[0] == "live": self.eng.report(st, inst, "returns without handing the allocated picture to a reference or to the release callback", "pair")
        if s[0] == "failed" and not (r[1] < 0): self.eng.report(st, inst, "the allocation callback failed but the function does not return an error", "pair")

class RelRule(Rule):
    """the free callback of a picture buffer"""
    def __init__(self, E): self.modsets = E
    def start(self, st): st.r["n"] = 0; st.r["gone"] = False
    def key(self, st, b): return (st.r["n"], st.r["gone"])
    def merge(self, b, A, B, M, J): M.r = dict(A.r)
    def on_call(self, st, inst, name, args):
        R = self.eng
        if name is None and self.modsets.slot_of(inst.fn, inst) == REL:
            v = inst.x[1]; i = R.fn.insts[v]
            b, p = loc_of(R.val(st, i.a[0]))
            base = ("a", b, p[:-1]) if p[:-1] else b
            ck = R.load(st, inst, addr(base, (COOKIE,)), "ptr")
            if args[1] != ck: R.report(st, inst, "the release callback is not given the cookie stored with its allocator", "cookie")
            if loc_of(args[0])[0] != b: R.report(st, inst, "the release callback is not given the picture stored with its allocator", "pic")
            if st.r["gone"]: R.report(st, inst, "the release callback runs after the block that holds its arguments was returned to its pool", "order")
            st.r = dict(st.r); st.r["n"] += 1
            if st.r["n"] > 1: R.report(st, inst, "the release callback is called twice for one picture", "twice"); st.r["n"] = 2
        elif name in ("dav1d_mem_pool_push", "free"):
            st.r = dict(st.r); st.r["gone"] = True
        return None
    def on_ret(self, st, inst, v):
        if st.r["n"] == 0: self.eng.report(st, inst, "the picture buffer is freed without calling its release callback", "never")

def run(ctx):
    ctx.rule = ("(1) No function reachable in the call graph (direct calls and function-pointer slots) from a pthread_create entry calls through the "
                "alloc_picture_callback slot. (2) Path-sensitive typestate in every function that calls the allocation callback: on failure the function returns the error and never "
                "arms a release; on success the picture, allocator release callback and cookie are saved and exactly one release is armed (or called) on every path. (3) Every function that calls "
                "the release callback is such a free callback and calls it exactly once on every path, with the saved picture and cookie, before its own block is recycled.")
    P = ctx.prog(); E = Effects(P)
    entries = set()
    for f in P.functions():
        for i in f.calls():
            if i.callee == "pthread_create" and isinstance(i.a[2], list) and i.a[2][0] == "g": entries.add(i.a[2][1])
    ctx.require(entries, "no pthread_create call found")
    al = slot_calls(E, P, ALLOC); rl = slot_calls(E, P, REL)
    ctx.require(al, "no call through the allocation callback found")
    ctx.require(rl, "no call through the release callback found")
    alf = {f.name for f, i in al}
    R = E.reach(entries)
    ctx.setc("thread_entries", sorted(entries)); ctx.setc("worker_reachable_functions", len(R))
    ctx.setc("allocation_call_sites", len(al)); ctx.setc("release_call_sites", len(rl))
    for n in sorted(alf & R):
        p = path_to(E.calls, next(e for e in entries if n in E.reach([e])), n)
        i = [i for f, i in al if f.name == n][0]
        ctx.violation(i.where(), "the picture allocation callback can run on a worker thread", n, "thread", path=p or ())
    # --- pairing
    relf = {f.name for f, i in rl}
    armed = set()
    for f in P.functions():
        for i in f.all_insts():
            for k, v in enumerate(i.a):
                if isinstance(v, list) and v[0] == "g" and v[1] in relf and not (i.op == "call" and i.callee == v[1]): armed.add(v[1])
    runs = 0
    for n in sorted(alf):
        r = PairRule(E, relf); e = Engine(P, P.fn(n), r); e.run(); runs += e.steps
        for x in e.reports: ctx.violation(x["where"], x["msg"], n, x["kind"], x["path"])
        ctx.sample("%s: %d allocation calls, %d block visits" % (n, r.n, e.steps))
    for n in sorted(relf - alf):
        if n not in armed and n not in {c for cs in E.calls.values() for c in cs}: pass
        r = RelRule(E); e = Engine(P, P.fn(n), r); e.run(); runs += e.steps
        for x in e.reports: ctx.violation(x["where"], x["msg"], n, x["kind"], x["path"])
        ctx.sample("%s: free callback, %d block visits" % (n, e.steps))
    ctx.setc("block_visits", runs)
