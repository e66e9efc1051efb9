"""C11: no header value indexes outside a fixed-size table."""
from engine import *
from effects import Effects
from scan import addr_class, writes, const_int
from decworld import SUBPARSERS
from main import CheckError

BIG = 1 << 62
FEW = 2
SPLIT = {"tiles": "Dav1dFrameHeader.tiling.min_log2_cols", "refs": "Dav1dFrameHeader.primary_ref_frame", "seq": "Dav1dSequenceHeader.order_hint"}

class Types:
    """array dimensions along an access path"""
    def __init__(self, P):
        self.P = P; self.memo = {}
        self.hdr = {d["name"] for d in P.types if d and d.get("k") == "struct" and d.get("name") and d.get("file", "").endswith("headers.h")}
    def member(self, d, name):
        for m in d.get("m", ()):
            if m[0] == name: return self.P.ty(m[3])
        return None
    def elem(self, d, dims): return dict(k="array", elem=d["elem"], dims=dims) if dims else self.P.ty(d["elem"])
    def indexes(self, path, base=None):
        """[(position in the path, index term, number of elements)] for every index into an array of known extent"""
        cur = base; out = []
        for k, e in enumerate(path):
            if isinstance(e, str):
                st, fld = e.split(".", 1)
                d = self.P.struct(st) if st and not st.startswith("?") else cur
                while d and d["k"] == "atomic": d = self.P.ty(d["to"])
                cur = self.member(d, fld) if d and d["k"] in ("struct", "union") else None
                while cur and cur["k"] == "atomic": cur = self.P.ty(cur["to"])
            else:
                if cur and cur["k"] == "array" and cur["dims"] and cur["dims"][0] >= 0 and e[0] == "i":
                    out.append((k, e[1], cur["dims"][0]))
                    cur = self.elem(cur, cur["dims"][1:])
                    while cur and cur["k"] == "atomic": cur = self.P.ty(cur["to"])
                elif cur and k == 0 and e[0] == "p": pass      # another object of the same kind
                else:
                    if cur and cur["k"] == "array" and e[0] == "p": out.append((k, None, 0))
                    cur = None
        return out

class Index(Rule):
    """ranges of header fields and of every index"""
    def __init__(self, P, E, T, inv, fixed, parsing, summary=None):
        self.P = P; self.modsets = E; self.T = T; self.inv = inv; self.fixed = fixed; self.parsing = parsing
        self.stored = {}; self.obl = {}; self.rets = {}; self.nret = 0; self.pair = True; self.start0 = {}; self.readers = summary or {}
    # --- partitioning
    def setup(self):
        e = self.eng; f = e.fn
        self.small = {}
        for h, body in e.loops.items():
            if len(body) <= 3 and not any(i.op == "call" and not (i.x[0] or "").startswith("llvm.") or i.op == "store" for b in body for i in f.blocks[b]):
                for b in body: self.small[b] = [i.id for i in f.blocks[h] if i.op == "phi" and i.ty != "ptr"]
        self.few = {}              # counters of loops that run a small, fixed number of times
        for h, body in e.loops.items():
            few = FEW
            if self.parsing == "refs":
                if any(i.op in ("load", "store") and self.about_refs(i) for b in body for i in f.blocks[b]): few = 8
            ph = {i.id for i in f.blocks[h] if i.op == "phi" and i.ty != "ptr"}
            step = {i.id: i.a[0] for b in body for i in f.blocks[b] if i.op == "add" and isinstance(i.a[0], int) and i.a[0] in ph and const_int(i.a[1]) == 1}
            for b in body:
                for i in f.blocks[b]:
                    if i.op == "icmp" and isinstance(i.a[0], int) and (i.a[0] in step or i.a[0] in ph) and 0 < (const_int(i.a[1]) or 0) <= few:
                        for x in body: self.few.setdefault(x, set()).add(step.get(i.a[0], i.a[0]))
        self.split = set()          # SSA values stored as the smallest number of tile columns
        for i in f.all_insts():
            if i.op == "store" and addr_class(f, i.a[1])[0] == SPLIT.get(self.parsing):
                v = i.a[0]
                while isinstance(v, int) and v in f.insts and f.insts[v].op in ("trunc", "zext", "sext"): v = f.insts[v].a[0]
                if isinstance(v, int): self.split.add(v)
        ks = set()
        for i in f.all_insts():
            if i.op == "icmp" or i.op == "switch":
                for a in i.a:
                    c = const_int(a)
                    if c is not None and abs(c) < BIG: ks |= {c - 1, c, c + 1}
        for d in self.T.P.types:
            if d and d["k"] == "array":
                for n in d["dims"]:
                    if 0 <= n < 4096: ks |= {n - 1, n}
        e.thresholds = sorted(ks); e.widen_at = set(f.loops()); e.inner_first = True
        self.own = {}
    def about_refs(self, i):
        c, b = addr_class(self.eng.fn, i.a[1] if i.op == "store" else i.a[0])
        return c == "Dav1dFrameHeader.refidx[]" or isinstance(b, int) and b in self.eng.fn.insts and self.eng.fn.insts[b].op == "alloca" and c is not None
    def key(self, st, b):
        k = []
        for v in self.small.get(b, ()):
            t = st.env.get(v)
            k.append(t[1] if t is not None and t[0] == "c" and abs(t[1]) <= 16 else None)
        for v in sorted(self.few.get(b, ())):
            t = st.env.get(v)
            if t is not None and t[0] == "c": k.append((v, t[1]))
        if self.parsing in SPLIT:
            sg = []
            for v in sorted(self.split):
                t = st.env.get(v)
                if t is not None and t[0] == "c": k.append(("m", t[1]))
            for l, t in st.mem.items():
                if not l[1]: continue
                c = self.eng.cls(l)
                if c == "Dav1dFrameHeader.refidx[]" and self.parsing == "refs":
                    r = self.eng.rng(st, t)
                    if r[0] < 0: sg.append((str(l[1][-1]), r[1] < 0))
                elif c == SPLIT.get(self.parsing):
                    r = self.eng.rng(st, t)
                    if r[0] == r[1]: k.append(("m", r[0]))
                elif c == "Dav1dFrameHeader.frame_ref_short_signaling":
                    r = self.eng.rng(st, t)
                    if r[0] == r[1]: k.append(("s", r[0]))
            k.append(tuple(sorted(sg)))
            if self.parsing == "refs": k.append(st.r.get("refs", 0))
        return tuple(k)
    # --- memory
    def rng_of(self, c): return self.inv.get(c, (0, 0))
    def is_hdr(self, c): return c.split(".")[0] in self.T.hdr
    def on_initial(self, st, inst, loc, t):
        if not loc[1]: return
        c = self.eng.cls(loc)
        if self.is_hdr(c) and t[0] == "v" and t[2] != "ptr":
            lo, hi = self.rng_of(c); f = self.eng.default_rng(t)
            self.own[t] = c
            st.facts[t] = (max(lo, f[0]), min(hi, f[1]))
        elif c in self.fixed and t[0] == "v": st.facts[t] = self.fixed[c]; self.own[t] = c
    def load(self, st, inst, a):
        """an element whose index is not known: the union of the elements it may be, when all are known"""
        b, p = loc_of(a)
        sym = [k for k, e in enumerate(p) if isinstance(e, tuple) and e[1][0] != "c"]
        if len(sym) != 1 or (b, p) in st.mem: return None
        k = sym[0]; r = self.eng.rng(st, p[k][1])
        if r[0] < 0 or r[1] - r[0] > 15: return None
        lo, hi = INF, -INF
        for n in range(int(r[0]), int(r[1]) + 1):
            t = st.mem.get((b, p[:k] + ((p[k][0], C(n)),) + p[k + 1:]))
            if t is None: return None
            q = self.eng.rng(st, t); lo = min(lo, q[0]); hi = max(hi, q[1])
        s = self.eng.fresh(st, inst, "el")
        if s[2] == "ptr": return None
        st.facts[s] = (lo, hi); self.own[s] = self.eng.cls((b, p))
        return s
    def note(self, c, r):
        o = self.stored.get(c)
        self.stored[c] = r if o is None else (min(o[0], r[0]), max(o[1], r[1]))
    def on_store(self, st, inst, a, v):
        loc = loc_of(a)
        if loc[1]:
            c = self.eng.cls(loc)
            if self.is_hdr(c): self.note(c, self.fld(st, inst, v))
            if c == "Dav1dSequenceHeader.order_hint": st.r["oh"] = 1
            if c == "Dav1dFrameHeader.refidx[]" and self.parsing == "refs": st.r["refs"] = 1
        return None
    def fld(self, st, inst, v):
        r = self.eng.rng(st, v)
        u = self.unsigned(inst)
        if u and r[0] < 0: return (0, (1 << u) - 1)
        return r
    def unsigned(self, inst): return 0
    def on_copy(self, st, inst, d, s, size, leaves):
        for l in leaves:
            p = loc_of(d)[1] + tuple(l[0])
            if not p: continue
            c = cls_of(p); c2 = cls_of(loc_of(s)[1] + tuple(l[0])) if loc_of(s)[1] + tuple(l[0]) else None
            if self.is_hdr(c) and c != c2: self.note(c, (-INF, INF))
        loc = loc_of(d)
        if not leaves and loc[1] and any(isinstance(x, str) and x.split(".")[0] in self.T.hdr for x in loc[1]) and cls_of(loc[1]) != (cls_of(loc_of(s)[1]) if loc_of(s)[1] else None):
            self.note(cls_of(loc[1]), (-INF, INF))
    # --- calls
    def on_call(self, st, inst, name, args):
        e = self.eng
        for a in args:
            if a[0] == "a": self.judge(st, inst, a)
        w = self.readers.get(name)
        if w is not None:
            lo, hi = w(e, st, args)
            e.default_call(inst, st, name, args)
            if inst.id in st.env: st.facts[st.env[inst.id]] = (lo, hi)
            return [st]
        return None
    # --- obligations
    def on_access(self, st, inst, a, write): self.judge(st, inst, a)
    def base_ty(self, b):
        if b[0] == "g":
            g = self.P.gv(b[1])
            return self.P.ty(g.get("ty", -1)) if g else None
        if b[0] == "al":
            i = self.eng.fn.insts.get(b[1])
            return self.P.ty(i.pt) if i is not None and not isinstance(i.pt, list) else None
        return None
    def judge(self, st, inst, a):
        b, p = loc_of(a)
        if not any(isinstance(e, tuple) for e in p): return
        for k, t, n in self.T.indexes(p, self.base_ty(b)):
            if t is None: r = (-INF, INF); c = None; key = (inst.id, k, n)
            else: r = self.eng.rng(st, t); key = (inst.id, k, n)
            o = self.obl.get(key)
            src = self.sources(t) if t is not None else frozenset()
            d = t
            while d is not None and d[0] in ("z", "sx", "tr"): d = d[2]
            d = d in self.own
            nm = ("%s%s" % (b[1], path_str(p[:k + 1])) if b[0] == "g" else path_str(p[:k + 1]).lstrip(".") or "local array")
            if o is None: self.obl[key] = [r[0], r[1], n, inst, nm, src, d]
            else:
                o[0] = min(o[0], r[0]); o[1] = max(o[1], r[1]); o[2] = min(o[2], n); o[5] = o[5] | src; o[6] = o[6] and d
    def sources(self, t): return frozenset(self.own[s] for s in syms(t) if s in self.own)
    # --- loops that advance in strides
    def merge(self, b, A, B, M, J):
        M.r = dict(A.r); M.r.update(B.r)
        if b not in self.eng.loops: return
        e = self.eng
        xs = []
        for s, (ta, tb) in J.items():
            if ta == C(0) and s not in self.start0: self.start0[s] = True
            elif ta != s and ta != C(0): self.start0[s] = False
        for s, (ta, tb) in J.items():
            if not self.start0.get(s): continue
            if ta == s or ta == C(0):
                w = self.stride(s, tb)
                if w is None: continue
                for t, v in B.facts.items():
                    if v == (1, 1) and t[0] == "cmp" and t[1] in ("slt", "ult") and t[3] in (s, tb):
                        n = self.strides(e, B, t[4], w)
                        if n is not None: xs.append((s, n if t[3] == s else max(n - 1, 0)))
        if not xs: return
        n = min(x[1] for x in xs)
        for s, (ta, tb) in J.items():
            if self.start0.get(s) and self.counts(s, tb):
                r = M.facts.get(s, e.default_rng(s))
                if n < r[1]: M.facts[s] = (max(0, r[0]), n)
    def stride(self, s, tb):
        if tb[0] == "op" and tb[1] == "add" and tb[3] == s: return tb[4]
        if tb[0] == "op" and tb[1] == "add" and tb[4] == s: return tb[3]
        if tb[0] == "+" and tb[2][0] == "op" and tb[2][1] == "add" and s in (tb[2][3], tb[2][4]): return ("+", tb[1], tb[2][4] if tb[2][3] == s else tb[2][3], tb[3])
        return None
    def counts(self, s, tb):
        while tb[0] in ("tr", "z", "sx"): tb = tb[2]
        if tb[0] != "+" or tb[3] != 1: return False
        x = tb[2]
        while x[0] in ("tr", "z", "sx"): x = x[2]
        return x == s
    def strides(self, e, st, S, w):
        """most steps of w from 0 while below S, when w is 1 + ((S - 1) >> k) or (S + (1 << k) - 1) >> k: 1 << k"""
        if w == S: return 1
        k = None
        if w[0] == "+" and w[3] == 1 and w[2][0] == "op" and w[2][1] in ("ashr", "lshr"):
            x = w[2][3]
            if x[0] == "+" and x[2] == S and x[3] == -1: k = w[2][4]
        elif w[0] == "op" and w[1] in ("ashr", "lshr"):
            x = w[3]
            if x[0] == "+" and x[3] == -1 and x[2][0] == "op" and x[2][1] == "add" and S in (x[2][3], x[2][4]):
                y = x[2][4] if x[2][3] == S else x[2][3]
                if y[0] == "op" and y[1] == "shl" and y[3] == C(1) and y[4] == w[4]: k = w[4]
        if k is None: return None
        r = e.rng(st, k)
        return 1 << int(r[1]) if 0 <= r[0] and r[1] < 31 else None
    # --- finished headers
    def on_ret(self, st, inst, v):
        if v is not None and self.eng.rng(st, v)[1] < 0: return
        self.nret += 1
        got = {}; one = {}
        for l, t in st.mem.items():
            if not l[1]: continue
            c = self.eng.cls(l)
            if c == "Dav1dFrameHeader.refidx[]":
                if l[1][-1][1][0] == "c": got[l[1][-1][1][1]] = self.eng.rng(st, t)
            elif c in ("Dav1dSequenceHeader.order_hint", "Dav1dSequenceHeader.order_hint_n_bits"): one[c.split(".")[1]] = self.eng.rng(st, t)
        if st.r.get("refs"):
            q = self.rets.setdefault("Dav1dFrameHeader.refidx[]", set())
            q.add((min(r[0] for r in got.values()), max(r[1] for r in got.values())) if len(got) == 7 else None)
        if self.parsing == "seq" and st.r.get("oh") and one.get("order_hint", (1, 1))[1] != 0 and one.get("order_hint_n_bits", (0, 0))[0] < 1: self.pair = False

def summaries(ctx, P, E, T):
    """what dav1d_get_bits and dav1d_get_bit return, from their code"""
    out = {}
    tab = {}
    def value(fn, arg):
        f = P.fn(fn)
        ctx.require(f is not None, "%s is gone" % fn)
        class R(Rule):
            def __init__(s): s.modsets = E; s.r = None
            def arg(s, k, a): return C(arg) if k == 1 else None
            def on_ret(s, st, inst, v):
                r = s.eng.rng(st, v); s.r = r if s.r is None else (min(r[0], s.r[0]), max(r[1], s.r[1]))
        r = R(); e = Engine(P, f, r); e.widen_at = set(f.loops()); e.run()
        return r.r or (-INF, INF)
    for n in range(1, 33): tab[n] = value("dav1d_get_bits", n)
    bit = value("dav1d_get_bit", 0)
    ctx.setc("reader_ranges", {"dav1d_get_bit": str(bit), "dav1d_get_bits(3)": str(tab[3])})
    def bits(e, st, args):
        r = e.rng(st, args[1])
        if r[0] < 1 and r[1] >= 1: r = (1, r[1])
        if r[1] < 1: return (0, 0)      # not a width (asserted); no field is ever read with it
        if r[1] > 32 or r[0] > r[1] or r[0] < 1: return (-INF, INF)
        return (min(tab[k][0] for k in range(int(r[0]), int(r[1]) + 1)), max(tab[k][1] for k in range(int(r[0]), int(r[1]) + 1)))
    return {"dav1d_get_bits": bits, "dav1d_get_bit": lambda e, st, args: bit}

def analyse(ctx, P, E, T, inv, fixed, f, parsing, S, kmax=8000, limit=500):
    r = Index(P, E, T, inv, fixed, parsing, S)
    e = Engine(P, f, r, kmax=kmax, time_limit=limit); e.keep_ranges = True
    r.setup()
    e.run()
    return r

G = {}
def job(a):
    """one analysis, in a process of its own"""
    ctx, P, E, T, S = G["x"]
    name, mode, inv, fixed, limit = a
    try: r = analyse(ctx, P, E, T, inv, fixed, P.fn(name), mode, S, limit=limit)
    except Budget as x: return name, mode, None, str(x)
    obl = [(k, v[0], v[1], v[2], v[3].where(), v[4], v[5], v[6]) for k, v in r.obl.items()]
    return name, mode, (r.eng.steps, r.stored, obl, {c: list(set(q)) for c, q in r.rets.items()}, r.nret, r.pair), None

def run(ctx):
    P = ctx.prog(noinline=["dav1d_decode_frame"] + list(SUBPARSERS), unroll=0)
    E = Effects(P); T = Types(P); T.hdr -= {"Dav1dWarpedMotionParams", "Dav1dITUTT35"}
    G["x"] = (ctx, P, E, T, summaries(ctx, P, E, T))
    for n in SUBPARSERS: ctx.require(P.fn(n) is not None, "%s is gone" % n)
    names = {f.name: f for f in P.functions()}
    def touches(f): return any(i.op == "getelementptr" and any(e[0] == "f" and e[1] in T.hdr for e in i.x) for i in f.all_insts())
    W = [f.name for f in P.functions() if any((addr_class(f, a)[0] or "").split(".")[0] in T.hdr for i, a in writes(f))]
    U = [f.name for f in P.functions() if f.name not in SUBPARSERS and touches(f)]
    ctx.setc("functions_that_fill_headers", sorted(W))
    fixed = {"Dav1dContext.operating_point": (0, 31)}
    SB = "Dav1dSequenceHeader.sb128"; OH = "Dav1dSequenceHeader.order_hint"; NB = "Dav1dSequenceHeader.order_hint_n_bits"
    def go(jobs):
        out = []
        import multiprocessing
        with multiprocessing.get_context("fork").Pool(8) as pool:
            for r in pool.imap_unordered(job, jobs): out.append(r)
        for name, mode, res, err in out:
            if res: ctx.count("block_visits", res[0])
        return out
    inv = {}; rounds = 0
    while True:
        jobs = []
        for n in W:
            if n in SUBPARSERS and n != "parse_seq_hdr":
                for sb in (0, 1): jobs.append((n, "tiles", dict(inv, **{SB: (sb, sb)}), {}, 500))
            else: jobs.append((n, "seq" if n in SUBPARSERS else False, inv, fixed, 500))
        jobs.sort(key=lambda j: j[0] != "parse_frame_hdr")
        rs = go(jobs); rounds += 1
        new = dict(inv)
        for name, mode, res, err in rs:
            if res is None: raise CheckError("%s: %s" % (name, err))
            for c, q in res[1].items():
                o = new.get(c, (0, 0)); q = (min(o[0], q[0]), max(o[1], q[1]))
                if rounds > 6 and q != o: q = (-INF, INF)
                new[c] = q
        if new == inv: break
        inv = new
    ctx.setc("rounds", rounds); ctx.setc("header_fields_bounded", sum(1 for r in inv.values() if r[0] > -BIG and r[1] < BIG))
    modes = {}; note = {}
    def take(rs):
        for name, mode, res, err in rs:
            if res is None: continue
            for k, lo, hi, n, where, nm, src, direct in res[2]:
                key = (name,) + k
                note[key] = (where, nm)
                o = modes.setdefault(key, {}).get(mode)
                modes[key][mode] = (lo, hi, n, direct) if o is None else (min(lo, o[0]), max(hi, o[1]), n, direct and o[3])
    take(rs)
    pair = all(res[5] for name, mode, res, err in rs if mode == "seq")
    jobs = []
    for n in SUBPARSERS:
        if n == "parse_seq_hdr": continue
        for oh in (0, 1):
            q = inv.get(NB, (0, 0))
            jobs.append((n, "refs", dict(inv, **{OH: (oh, oh), NB: (max(1, q[0]), q[1]) if oh and pair else q}), {}, 500))
    rs = go(jobs)
    for name, mode, res, err in rs:
        if res is None: raise CheckError("%s: %s" % (name, err))
    take(rs)
    # what a header that was accepted can hold
    done = dict(inv)
    fin = [q for name, mode, res, err in rs if name == "parse_frame_hdr" for q in res[3].get("Dav1dFrameHeader.refidx[]", ())]
    if fin and None not in fin: done["Dav1dFrameHeader.refidx[]"] = (min(0, min(q[0] for q in fin)), max(q[1] for q in fin))
    ctx.setc("refidx_of_accepted_headers", str(done.get("Dav1dFrameHeader.refidx[]")))
    rs = go([(n, "use", done, fixed, 120) for n in U])
    skipped = [name for name, mode, res, err in rs if res is None]
    if skipped: ctx.notes.append("not followed to the end: " + ", ".join(sorted(skipped)))
    take(rs)
    ctx.setc("functions_that_use_headers", len(U) - len(skipped))
    n_par = n_use = 0
    for key in sorted(modes, key=str):
        ms = modes[key]; where, nm = note[key]; fn = key[0]
        parsing = fn in SUBPARSERS
        if not parsing:
            lo, hi, n, direct = ms.get("use") or (0, 0, 1, False)
            if not direct: continue
            n_use += 1; ok = lo >= 0 and hi < n
        else:
            n_par += 1
            ok = any(lo >= 0 and hi < n for lo, hi, n, d in ms.values())
            lo, hi, n, d = max(ms.values(), key=lambda m: (m[0], -m[1]))
        if not ok:
            def s(x): return "?" if abs(x) >= (1 << 31) - 1 else str(int(x))
            ctx.violation(where, "the index of %s is not held to its %d elements (%s to %s)" % (nm, n, s(lo), s(hi)), fn=fn, kind="index")
    ctx.setc("indexes_in_header_parsers", n_par); ctx.setc("indexes_by_header_fields", n_use)
    ctx.require(n_par >= 50, "too few indexes were found in the header parsers (%d)" % n_par)
    ctx.rule = ("In the functions that parse sequence and frame headers, every index into an array whose extent the types give - members of the headers, reference slots, local arrays, constant tables - stays within it on every path and for every value of every bit read. Value ranges are propagated over the compiler's IR (intervals with thresholds, paths kept apart by tile-column bound, reference signs, primary reference and order-hint use); the ranges of header fields are the least ones closed under everything that fills headers; what the bit readers return is derived from their code. Outside the parsers, every index that is itself the value of a header field is held to the range an accepted header can have.")
    ctx.assumptions += ["headers start out zeroed or hold an earlier header", "the operating point setting is 0 to 31 (decided by C14/C18)",
                        "a shift by a negative amount, which C leaves undefined, has no value"]
