"""C15: no error is dropped on its way to the application."""
from errs import *
from decworld import *

class ErrRule(Rule):
    def __init__(self, E, P, F, name, kind, records):
        self.modsets = E; self.P = P; self.F = F; self.me = name; self.kind = kind; self.records = records
        self.sites = {}; self.ends = 0; self.memo = {}
    init = None
    def start(self, st):
        st.r["p"] = None
        if self.init is not None:
            self.eng.clamp(st, st.env[self.init[0]], *self.init[1]); st.r["p"] = ("arg", self.init[1][0] > 0)
    def key(self, st, b): return st.r["p"]
    def fallible(self, inst, name):
        if name: return self.F.get(name)
        return SLOTS.get(self.modsets.slot_of(inst.fn, inst))
    def done(self, st):
        if st.r["p"] is not None: st.r = dict(st.r); st.r["p"] = None; self.ends += 1
    def on_call(self, st, inst, name, args):
        R = self.eng
        for k in self.records[2].get(name, ()) if name else ():
            if k < len(args): self.positive(st, inst, None, args[k])
        if st.r["p"] is not None and name and not name.startswith("llvm."):
            if name in self.records[0] and name not in self.records[1]: self.done(st)      # told to record, with or without the error itself
            else:
                for k in range(len(args)):
                    if args[k][0] == "g" or not self.intarg(inst.a[k]): continue
                    r = R.rng(st, args[k])
                    if (r[1] < 0 or r[0] > 0) and (k in self.records[1].get(name, ()) or self.absorbs(name, k, r[0] > 0)): self.done(st); break
        if st.r["p"] is not None and (name in WAITS or self.fallible(inst, name)):
            self.bad(st, self.eng.fn.insts.get(st.r["p"][0]), " before %s" % ("the thread waits for work" if name in WAITS else "%s is started" % (name or "an allocation")))
            st.r = dict(st.r); st.r["p"] = None
        k = self.fallible(inst, name)
        if k is None: return None
        self.sites[inst.id] = inst
        R.default_call(inst, st, name, args)
        if inst.ty == "void": return True
        res = st.env[inst.id]
        out = []; o = st.copy()
        if k == "neg":
            if R.clamp(o, res, -4095, -1): out.append(o)      # error codes are negated errno values
            if R.clamp(st, res, 0, 0 if name in self.records[3] else INF): out.append(st)
        else:
            o2 = st.copy()
            for q, lo, hi in ((o, -INF, -1), (o2, 1, INF)):
                if R.clamp(q, res, lo, hi): out.append(q)
            if R.clamp(st, res, 0, 0): out.append(st)
        for q in out:
            # which sign the result has is part of the key, so that "not zero" survives joins
            if q is not st and q.r["p"] is None: q.r = dict(q.r); q.r["p"] = (inst.id, R.rng(q, res)[0] > 0)
        return out
    def intarg(self, op):
        if isinstance(op, list): return op[0] == "c"
        i = self.eng.fn.insts.get(op)
        t = i.ty if i is not None else self.eng.fn.args[op][0]
        return t.startswith("i")
    def record(self, st, a, v):
        R = self.eng
        if st.r["p"] is None: return
        l = loc_of(a)
        if l[0][0] == "al" or not is_cell(R.cls(l)): return
        r = R.rng(st, v)
        if r[0] > 0 or r[1] < 0: self.done(st)
    def on_store(self, st, inst, a, v): self.record(st, a, v); self.positive(st, inst, loc_of(a), v); return None
    def on_atomicrmw(self, st, inst, a, v): self.record(st, a, v); return None
    def positive(self, st, inst, l, v):
        """results remembered for the application are negative"""
        if l is not None and (l[0][0] == "al" or not is_result(self.eng.cls(l))): return
        r = self.eng.rng(st, v)
        if r[0] > 0 and r[1] < 4096: self.eng.report(st, inst, "a positive value is remembered as a failure", "sign")
    def on_ret(self, st, inst, v):
        p = st.r["p"]
        if p is None: return
        R = self.eng; ok = False
        if v is not None:
            r = R.rng(st, v)
            if self.kind == "neg": ok = r[1] < 0
            elif self.kind == "nz": ok = r[1] < 0 or r[0] > 0
            elif self.kind == "null": ok = R.isnull(st, v) is True
        # an error is already waiting to be reported
        if not ok: ok = any(is_cell(R.cls(l)) and l[0][0] != "al" and (lambda x: x[0] > 0 or x[1] < 0 or 0 in st.ne.get(t, ()))(R.rng(st, t)) for l, t in st.mem.items())
        if ok: self.ends += 1; return
        i = self.eng.fn.insts.get(p[0])
        self.bad(st, i)
    def absorbs(self, name, k, positive):
        """does the function, given the error in its k-th argument, record it on every path?"""
        key = (name, k, positive); m = self.memo
        if key in m: return m[key]
        f = self.P.fn(name); m[key] = False
        if f is None or not f.internal or k >= len(f.args): return False
        r = ErrRule(self.modsets, self.P, self.F, name, self.F.get(name), self.records); r.memo = m
        r.init = (k, (1, 4095) if positive else (-4095, -1))
        e = Engine(self.P, f, r, time_limit=60)
        try: e.run()
        except Budget: return False
        m[key] = not e.reports
        return m[key]
    def bad(self, st, i, when=""):
        if i is None: self.eng.report(st, None, "the error it is given is neither passed on nor remembered%s" % when, "dropped"); return
        self.eng.report(st, i, "a failure of %s is neither passed on nor remembered%s" % (i.callee or "the picture allocation callback", when), "dropped")

WAITS = ("pthread_cond_wait", "pthread_cond_timedwait")

def is_result(c): return is_cell(c) and c.rsplit(".", 1)[-1].split("[")[0] != "error"

def recorders(P):
    o, a = recorders_of(P, is_cell); return o, a, recorders_of(P, is_result)[1], never_positive(P)

def never_positive(P):
    """functions that return zero or an error code, judged by their constants and the functions whose result they pass on"""
    R = {f.name: returns(f) for f in P.functions()}
    N = {n for n, (cs, fs, ld, other) in R.items() if cs | fs | ld and all(c <= 0 for c in cs) and not other and all(c and is_result(c) for c in ld)}
    ch = True
    while ch:
        ch = False
        for n in list(N):
            if any(not isinstance(x, str) or x not in N for x in R[n][1]): N.discard(n); ch = True
    return N

def recorders_of(P, is_cell):
    """(functions that store a non-zero error constant into an error field on every path, {function: arguments it stores there on every path})"""
    out = set(); arg = {}
    fs = list(P.functions())
    def strip(f, v):
        """a non-zero constant, an argument (possibly replaced by a non-zero constant on some paths), or None"""
        src = set(); seen = set(); st = [v]
        while st:
            x = st.pop()
            if isinstance(x, int) and x in f.insts:
                if x in seen: continue
                seen.add(x); d = f.insts[x]
                if d.op in ("sext", "trunc", "zext", "freeze"): st.append(d.a[0])
                elif d.op == "phi": st += d.a
                elif d.op == "select": st += d.a[1:3]
                else: return None
            elif isinstance(x, int): src.add(x)
            elif const_int(x): src.add("k")
            else: return None
        a = src - {"k"}
        return "*" if not a else a.pop() if len(a) == 1 else None
    ch = True
    while ch:
        ch = False
        for f in fs:
            always = None; per = {}
            for i in f.all_insts():
                v = None
                if i.op == "store": v, a = i.a[0], i.a[1]
                elif i.op == "atomicrmw" and i.x[1] in ("or", "xchg"): v, a = i.a[1], i.a[0]
                elif i.op == "call" and i.callee:
                    if i.callee in out: per.setdefault("*", []).append(i)
                    for k in arg.get(i.callee, ()):
                        if k < len(i.a):
                            w = strip(f, i.a[k])
                            if w is not None: per.setdefault(w, []).append(i)
                    continue
                else: continue
                if not is_cell(addr_class(f, a)[0]): continue
                v = strip(f, v)
                if v is not None: per.setdefault(v, []).append(i)
            if not per: continue
            rets = [i.bb for i in f.all_insts() if i.op == "ret"]
            for k, ss in per.items():
                if not rets or not any(all(f.dominates(s.bb, b) for b in rets) for s in ss): continue
                if k == "*":
                    if f.name not in out: out.add(f.name); ch = True
                elif k not in arg.setdefault(f.name, set()): arg[f.name].add(k); ch = True
    return out, arg

def propagation(ctx):
    P = ctx.prog(inline_static=False); E = Effects(P)
    F, R = fallible(P, E)
    rec = recorders(P)
    ctx.setc("recording_functions", sorted(rec[0] | set(rec[1])))
    def calls(f): return [i for i in f.calls() if (i.callee in F if i.callee else E.slot_of(f, i) in SLOTS)]
    memo = {}
    def analyse(f, kind):
        r = ErrRule(E, P, F, f.name, kind, rec); r.memo = memo
        e = Engine(P, f, r); e.run()
        return r, e
    # functions that report failure by a non-zero result or a null pointer and contain no error constant: those that need their result to pass a failure on
    cand = [f for f in P.functions() if f.name not in F and calls(f)]
    kinds = {}
    changed = True
    while changed:
        changed = False
        for f in [f for f in P.functions() if f.name not in F and f.name not in kinds and calls(f)]:
            rt = next((i for i in f.all_insts() if i.op == "ret" and i.a), None)
            if rt is None: continue
            v = rt.a[0]
            ty = f.insts[v].ty if isinstance(v, int) and v in f.insts else ("ptr" if isinstance(v, list) and v[0] in ("n", "z") else "i32")
            r, e = analyse(f, None)
            if not e.reports: kinds[f.name] = None; continue
            if ty == "ptr": kinds[f.name] = "null"
            else: F[f.name] = "nz"; changed = True
    ctx.setc("fallible_functions", sorted(n for n in F if n not in EXT))
    n = 0
    for f in P.functions():
        cs = calls(f)
        if not cs: continue
        n += 1
        kind = F.get(f.name) or kinds.get(f.name)
        r, e = analyse(f, kind)
        ctx.count("functions_checked"); ctx.count("fallible_calls", len(r.sites)); ctx.count("block_visits", e.steps); ctx.count("failures_followed_to_their_end", r.ends)
        for x in e.reports: ctx.violation(x["where"], x["msg"], f.name, x["kind"], x["path"])
        ctx.sample("%s (%s): %d fallible calls, %d block visits" % (f.name, kind, len(r.sites), e.steps))
    ctx.require(n > 10, "almost no fallible call was found")

def waiting(c, w, mem):
    """an error is remembered for the next call of the application"""
    return w.read(mem, c.rw.at("c", "cached_error"), "i32") != 0

def worlds(ctx):
    P = obu_program(ctx); L = Lay(P)
    def work(c):
        w, f, res = c.run()
        where = "%s:%d" % (f.file, f.line)
        ptr = next((i.a[0] for i in f.all_insts() if i.op == "ret" and i.a), None)
        for ev, rv, mem in res:
            why = c.rw.failed(ev)
            if c.kind == "api" and f.name in PUBLIC_INT:
                ctx.count("public_results")
                if isinstance(rv, int) and rv > 0 or rv is UNK: ctx.violation(where, "%s returns something other than zero or a negative error [%s]" % (c.fn, c.cfg), c.fn, "result")
            if "pending" in c.info and (c.info["pending"] == -12 or any(e[0] == "parse" for e in ev)):
                ctx.count("remembered_errors")
                left = w.read(mem, c.rw.at("c", "cached_error"), "i32")
                if not (isinstance(rv, int) and rv < 0): ctx.violation(where, "dav1d_get_picture does not report the remembered error [%s]" % c.cfg, c.fn, "remembered")
                elif rv == c.info["pending"]:
                    if left != 0: ctx.violation(where, "dav1d_get_picture reports a remembered error but keeps it [%s]" % c.cfg, c.fn, "remembered")
                elif left != c.info["pending"]: ctx.violation(where, "a remembered error is forgotten without being reported [%s]" % c.cfg, c.fn, "remembered")
            if (c.info.get("delayed") or c.info.get("drained")) == "error" and any(e[0] == "load" and "retval" in (addr_class(e[1].fn, e[1].a[0])[0] or "") and e[3] == -22 for e in ev): why = why + ["a delayed frame turns out to have failed"]
            if not why: continue
            ctx.count("failing_paths")
            if isinstance(rv, int) and rv < 0 or waiting(c, w, mem): continue
            if rv == 0 and f.name in NULLERS: continue
            ctx.violation(where, "%s: %s, but the call succeeds and no error is remembered [%s]" % (c.fn, why[-1], c.cfg), c.fn, "lost")
    parallel(ctx, lambda: all_cases(ctx, P, L), work)

PUBLIC_INT = {"dav1d_send_data", "dav1d_get_picture", "dav1d_apply_grain", "dav1d_get_decode_error_data_props", "dav1d_data_wrap", "dav1d_data_wrap_user_data"}
NULLERS = {"dav1d_data_create"}      # reports failure by a null pointer, as documented

def run(ctx):
    ctx.rule = ("(1) Fallible functions are inferred from the constants they return (negated errno values, or -1 against 0) and from the fallible callees whose result they pass on; functions that return non-zero for failure and the pthread constructors are added. "
                "In every function that calls one, a path-sensitive analysis follows the failing result of each call to the end of the function: there it must have become a failing result of the caller, or have been stored into an error field of the decoder or frame; a positive error number is never stored where results are remembered. "
                "(2) Frame submission, OBU parsing and the public calls are evaluated by constant and symbolic-cell propagation with every fallible step failing in turn: each such path must end with a negative result or with an error remembered for the next call.")
    ctx.assumptions += ["negative results of fallible functions are negated errno values, so they survive narrowing to int"]
    propagation(ctx)
    worlds(ctx)
