"""C04: memory exhaustion is reported, never dereferenced."""
from decworld import *
from errs import *
import c15

NEVER = {"malloc", "calloc", "realloc", "aligned_alloc", "memalign", "strdup"}

def nullable(P):
    """functions whose result may be a null pointer because an allocation failed"""
    N = set(NEVER)
    ch = True
    while ch:
        ch = False
        for f in P.functions():
            if f.name in N: continue
            hit = False
            for i in f.all_insts():
                if i.op != "ret" or not i.a: continue
                st = [i.a[0]]; seen = set(); null = call = False
                while st:
                    v = st.pop()
                    if isinstance(v, list):
                        null = null or bool(v) and v[0] in ("n", "z"); continue
                    if v in seen: continue
                    seen.add(v); j = f.insts.get(v)
                    if j is None or j.ty != "ptr": continue
                    if j.op == "phi": st += j.a
                    elif j.op == "select": st += j.a[1:]
                    elif j.op == "getelementptr": st.append(j.a[0])
                    elif j.op == "call" and j.callee in N: call = True
                if call: hit = True
                elif null and any(c.callee in N or c.callee == "posix_memalign" for c in f.calls()): hit = True
            if hit: N.add(f.name); ch = True
    return N

class Alloc(c15.ErrRule):
    """each failing allocation is followed to the end of the function"""
    def __init__(self, E, P, F, name, kind, records, N): c15.ErrRule.__init__(self, E, P, F, name, kind, records); self.N = N; self.derefs = 0; self.reported = set()
    def fallible(self, inst, name):
        if name in self.N: return "null"
        if name == "posix_memalign": return "nz"
        return None
    def on_call(self, st, inst, name, args):
        R = self.eng
        k = self.fallible(inst, name)
        p = st.r["p"]
        if p is not None and name and k is None and not name.startswith("llvm."):
            for j, a in enumerate(args):
                if R.isnull(st, a) is True and self.nullarg(name, j): self.deref(st, inst, p)
        if k != "null": return c15.ErrRule.on_call(self, st, inst, name, args) if k or p is not None else None
        if p is not None and self.owed(st, p): self.bad(st, R.fn.insts.get(p[0]), " before %s" % (name or "an allocation"))
        self.sites[inst.id] = inst
        R.default_call(inst, st, name, args)
        res = st.env[inst.id]
        o = st.copy(); out = []
        if R.clamp(o, res, 0, 0):
            o.r = dict(o.r); o.r["p"] = (inst.id, False); out.append(o)
        st.r = dict(st.r); st.r["p"] = None
        if R.clamp(st, res, 1, INF): out.append(st)
        return out
    def owed(self, st, p): return False      # a second block may be asked for before the first one is tested
    def nullarg(self, name, j):
        """does the callee use its argument without testing it?"""
        key = ("use", name, j); m = self.memo
        if key in m: return m[key]
        f = self.P.fn(name); m[key] = False
        if f is None or j >= len(f.args): return False
        r = Deref(self.modsets, j); e = Engine(self.P, f, r, time_limit=30)
        try: e.run()
        except Budget: return False
        m[key] = r.hit
        return r.hit
    def deref(self, st, inst, p):
        if inst.id in self.reported: return
        self.reported.add(inst.id)
        a = self.eng.fn.insts.get(p[0]) if p else None
        self.eng.report(st, inst, "the block %s did not deliver is used" % (a.callee if a is not None else "an allocation"), "null")
    def on_access(self, st, inst, a, write):
        if st.r["p"] is None: return
        self.derefs += 1
        b = loc_of(a)[0]
        if b == NULL or b[0] != "al" and b[0] != "g" and self.eng.isnull(st, b) is True: self.deref(st, inst, st.r["p"])
    def on_memset(self, st, inst, d, v, size, leaves): self.on_access(st, inst, d, True)
    def on_copy(self, st, inst, d, s, size, leaves): self.on_access(st, inst, d, True); self.on_access(st, inst, s, False)

class Deref(Rule):
    """is the null argument accessed on some path?"""
    def __init__(self, E, k): self.modsets = E; self.k = k; self.hit = False
    def start(self, st): self.eng.clamp(st, st.env[self.k], 0, 0)
    def on_access(self, st, inst, a, write):
        b = loc_of(a)[0]
        if b == NULL or b[0] not in ("al", "g") and self.eng.isnull(st, b) is True: self.hit = True
    def on_memset(self, st, inst, d, v, size, leaves): self.on_access(st, inst, d, True)
    def on_copy(self, st, inst, d, s, size, leaves): self.on_access(st, inst, d, True); self.on_access(st, inst, s, False)

def sites(ctx):
    P = ctx.prog(inline_static=False); E = Effects(P)
    F, R = fallible(P, E); rec = c15.recorders(P); N = nullable(P)
    ctx.setc("allocating_functions", sorted(N - NEVER))
    memo = {}
    todo = [f for f in P.functions() if any(i.callee in N or i.callee == "posix_memalign" for i in f.calls())]
    for f in todo:
        kind = F.get(f.name)
        if kind is None:
            rt = next((i for i in f.all_insts() if i.op == "ret" and i.a), None)
            if rt is not None:
                v = rt.a[0]
                ty = f.insts[v].ty if isinstance(v, int) and v in f.insts else ("ptr" if isinstance(v, list) and v[0] in ("n", "z") else "i32")
                kind = "null" if ty == "ptr" else "nz"
        r = Alloc(E, P, F, f.name, kind, rec, N); r.memo = memo
        e = Engine(P, f, r); e.run()
        ctx.count("functions_followed"); ctx.count("allocation_calls", len(r.sites)); ctx.count("failures_followed_to_their_end", r.ends); ctx.count("accesses_after_a_failure", r.derefs); ctx.count("block_visits", e.steps)
        ctx.sample("%s (%s): %d allocation calls" % (f.name, kind, len(r.sites)))
        for x in e.reports: ctx.violation(x["where"], x["msg"], f.name, x["kind"], x["path"])
    ctx.require(len(todo) > 8, "almost no allocation was found")

# --- worlds: no null block is touched when any step fails
def tile_cases(ctx, P, L):
    """a frame whose tile table is missing or too small for the pending tiles"""
    for nfc in (1, 2):
        for have, pend in ((0, 1), (1, 2), (1, 3)):
            rw = frame_world(ctx, P, L, nfc, 0, 1)
            for n in range(nfc):
                rw.set("fc", "n_tile_data_alloc", have, n)
                if not have: rw.set("fc", "tile", 0, n)
            for j in range(1, pend): rw.fill_handle("tile", "data", "td%d" % j, "Dav1dData", idx=j)
            rw.set("c", "n_tile_data", pend); rw.set("c", "n_tiles", pend)
            yield Case("dav1d_submit_frame", rw, {0: O("c")}, "n_fc=%d, room for %d tiles, %d pending" % (nfc, have, pend), "submit", nfc=nfc)

def tables(c, w, ev, mem):
    """a remembered capacity never outlives its table: (what, problem) of every tile table"""
    gone = set()
    for k, e in enumerate(ev):
        if e[0] == "free" and w.ptr(e[2]) and not e[2][2]: gone.add(e[2][1])
    out = []
    for name, st, n in [("c", "Dav1dContext", None)] + [("fc", "Dav1dFrameContext", k) for k in range(c.info.get("nfc") or 1)]:
        cap = w.read(mem, c.rw.at(name, "n_tile_data_alloc", *([n] if n is not None else [])), "i32"); t = w.read(mem, c.rw.at(name, "tile", *([n] if n is not None else [])), "ptr")
        if isinstance(cap, int) and cap > 0:
            if t == 0: out.append((st, "is remembered without a table"))
            elif w.ptr(t) and t[1] in gone: out.append((st, "is remembered for a freed table"))
    return out

def nulls(ctx, P, L):
    def cases():
        for c in all_cases(ctx, P, L): yield c
        for c in tile_cases(ctx, P, L): yield c
    def work(c):
        w, f, res = c.run()
        for ev, rv, mem in res:
            ctx.count("paths_judged")
            for st, how in tables(c, w, ev, mem) if c.fn in ("dav1d_submit_frame", "dav1d_parse_obus") else ():
                why = c.rw.failed(ev)
                ctx.violation("%s:%d" % (f.file, f.line), "the tile capacity of %s %s%s" % (st, how, " after a failure of " + why[-1].replace(" fails", "") if why else ""), c.fn, "capacity")
            for i, how in w.nulls(ev):
                why = c.rw.failed(ev)
                ctx.violation(i.where(), "a missing block is %s in %s%s" % (how, i.fn.name, " after a failure of " + why[-1].replace(" fails", "") if why else ""), c.fn, "null")
    parallel(ctx, cases, work)

# --- worlds: buffers and their remembered capacities over two frames
class Heap:
    """allocation with sizes; blocks are told apart by a running number"""
    def __init__(self, fail): self.fail = fail; self.n = 0
    def block(self, i, ev, size):
        self.n += 1
        r = ("ptr", ("new", "b%d" % self.n), 0)
        return r, [("alloc", i, r, size if isinstance(size, int) else None)]
    def models(self):
        def mk(size, zero=False, align=False, re=False):
            def m(rw, w, i, av, mem, ev):
                r, e = self.block(i, ev, size(av))
                ev.extend(e)
                if zero: mem.fill(r, None, 0)
                if re and w.ptr(av[0]):
                    ev.append(("free", i, av[0])); mem.fill(r, None, ("copy", av[0], mem.copy()))
                ok = (0, None, [(av[0], r)]) if align else (r, None)
                return ("alts", [ok] + ([((12 if align else 0), "allocation at %s fails" % (i.where().split(" ")[0])) + (([(av[0], UNK)],) if align else ())] if self.fail else []))
            return m
        return {"malloc": mk(lambda a: a[0]), "calloc": mk(lambda a: a[0] * a[1] if isinstance(a[0], int) and isinstance(a[1], int) else None, zero=True), "realloc": mk(lambda a: a[1], re=True),
                "posix_memalign": mk(lambda a: a[2], align=True), "aligned_alloc": mk(lambda a: a[1]), "memalign": mk(lambda a: a[1])}

CONFIGS = [      # one 64x64 superblock; more; other tilings, subsampling, depth, scaling, screen content, inter frames
    dict(w=64, h=64, cols=1, rows=1), dict(w=512, h=384, cols=1, rows=1, sb128=1), dict(w=512, h=384, cols=2, rows=2, hbd=1), dict(w=256, h=256, cols=2, rows=1, sct=1, typ=1, lr=1),
    dict(w=256, h=256, cols=1, rows=2, layout=3, sct=1, hbd=1), dict(w=256, h=128, sr=512, cols=1, rows=1, layout=0, lr=1), dict(w=512, h=384, cols=1, rows=4, typ=1, neg=1), dict(w=256, h=512, cols=1, rows=1), dict(w=512, h=256, cols=1, rows=1)]

def buffers_world(ctx, P, L, nfc, ntc, cf, heap):
    rw = RW(ctx, P, L, n_fc=nfc, n_tc=ntc, models=heap.models(), fail=False)
    rw.objs("hdr", "Dav1dFrameHeader", 1); rw.objs("seq", "Dav1dSequenceHeader", 1)
    rw.no_into |= {"dav1d_calc_eih", "dav1d_calc_lf_values", "init_quant_tables", "dav1d_cdf_thread_copy", "dav1d_cdf_thread_update"}
    old = rw.init
    def init(inst, a, ty):
        if a[1] == ("obj", "fc") and (a[1][1], a[2]) not in rw.cells: return 0 if a[2] is not None else UNK      # a frame context starts zeroed
        return old(inst, a, ty)
    rw.init = init
    w_, h_ = cf["w"], cf["h"]; sb128 = cf.get("sb128", 0); hbd = cf.get("hbd", 0); lay = cf.get("layout", 1); sr = cf.get("sr", w_)
    sbsz = 128 if sb128 else 64
    step = 32 if sb128 else 16
    S = lambda p, v: rw.set("fc", p, v)
    S("seq_hdr", O("seq")); S("frame_hdr", O("hdr")); S("cur.frame_hdr", O("hdr"))
    bw, bh = (w_ + 7 >> 3) << 1, (h_ + 7 >> 3) << 1
    S("bw", bw); S("bh", bh); S("w4", (w_ + 3) >> 2); S("h4", (h_ + 3) >> 2); S("sb128w", (bw + 31) >> 5); S("sb128h", (bh + 31) >> 5)
    S("sb_step", step); S("sb_shift", 4 + sb128); S("sbh", (bh + step - 1) >> (4 + sb128)); S("b4_stride", (bw + 31) & ~31)
    sg = -1 if cf.get("neg") else 1
    for pic, ww in (("cur", w_), ("sr_cur.p", sr)):
        S(pic + ".p.layout", lay); S(pic + ".p.w", ww); S(pic + ".p.h", h_); S(pic + ".p.bpc", 10 if hbd else 8)
        ys = ((ww + 127) & ~127) << hbd; us = 0 if lay == 0 else ys >> (lay != 3)
        S(pic + ".stride[0]", sg * ys); S(pic + ".stride[1]", sg * us)
        for k in range(3): S(pic + ".data[%d]" % k, O("pix%d" % k))
    rw.set("seq", "hbd", hbd); rw.set("seq", "sb128", sb128); rw.set("seq", "layout", lay); rw.set("seq", "cdef", 1); rw.set("seq", "order_hint_n_bits", 7)
    H = lambda p, v: rw.set("hdr", p, v)
    H("frame_type", cf.get("typ", 0)); H("width[0]", w_); H("width[1]", sr); H("height", h_); H("allow_screen_content_tools", cf.get("sct", 0))
    if cf.get("lr"): H("restoration.type[0]", 1)
    H("loopfilter.level_y[0]", 5)
    H("tiling.cols", cf["cols"]); H("tiling.rows", cf["rows"])
    nsb = lambda n: (n + sbsz - 1) // sbsz
    for k in range(cf["cols"] + 1): H("tiling.col_start_sb[%d]" % k, nsb(w_) * k // cf["cols"])
    for k in range(cf["rows"] + 1): H("tiling.row_start_sb[%d]" % k, nsb(h_) * k // cf["rows"])
    n = 0
    for r in range(cf["rows"]):
        for c in range(cf["cols"]): n += 1
    for k in range(7): S("refp[%d].p.frame_hdr" % k, O("rhdr"))
    return rw

FN = {"init": ("dav1d_decode_frame_init", lambda nfc: [{0: O("fc")}]), "tasks": ("dav1d_task_create_tile_sbrow", lambda nfc: [{0: O("fc"), 1: 0, 2: 1}] if nfc == 1 else [{0: O("fc"), 1: 1, 2: 0}, {0: O("fc"), 1: 2, 2: 1}])}

class Chain:
    """state of the heap along a path"""
    def __init__(self, size=None, freed=None): self.size = dict(size or {}); self.freed = set(freed or ())
    def copy(self): return Chain(self.size, self.freed)
    def replay(self, w, ev, bad, L):
        last = None
        for k, e in enumerate(ev):
            if e[0] == "alloc":
                self.size[e[2][1]] = e[3]; last = e
            elif e[0] == "alt" and e[3]: self.size.pop(last[2][1], None) if last is not None and last[1] is e[1] else None
            elif e[0] == "free" and w.ptr(e[2]):
                nx = ev[k + 1] if k + 1 < len(ev) else None
                if e[1].callee == "realloc" and nx is not None and nx[0] == "alt" and nx[3]: continue      # the old block stays
                if e[2][1] in self.freed: bad(e[1], "a block is freed twice")
                self.freed.add(e[2][1])
            elif e[0] in ("load", "store") and w.ptr(e[2]):
                b = e[2][1]
                if b in self.freed: bad(e[1], "a freed block is used")
                elif b in self.size and self.size[b] is not None and e[2][2] is not None:
                    n = width(e[1])
                    if e[2][2] < 0 or e[2][2] + n > self.size[b]: bad(e[1], "a block is accessed outside its size")
            elif e[0] in ("set", "copy") and w.ptr(e[2]):
                b = e[2][1]
                if b in self.freed: bad(e[1], "a freed block is used")
                elif b in self.size and self.size[b] is not None and e[2][2] is not None and isinstance(e[4], int) and e[2][2] + e[4] > self.size[b]: bad(e[1], "a block is cleared beyond its size")
        for i, how in w.nulls(ev): bad(i, "a missing block is %s" % how)

def width(i):
    ty = i.ty if i.op == "load" else None
    if ty is None:
        v = i.a[0]
        if isinstance(v, int) and v in i.fn.insts: ty = i.fn.insts[v].ty
        else: return 1
    return 8 if ty == "ptr" else max(1, int(ty[1:]) // 8) if ty[0] == "i" and ty[1:].isdigit() else 1

def pointers(rw, w, mem, L):
    """every pointer of the frame context into an allocated block: path -> (block, offset)"""
    d = {}
    for o, k, p in rw.leaves("Dav1dFrameContext"):
        if k != "ptr" or p.startswith("task_thread.pending_tasks"): continue
        v = w.read(mem, O("fc", o), "ptr")
        if w.ptr(v) and v[1][0] == "new": d[p] = (v[1], v[2])
        elif v == 0: d[p] = None
    for m in ("ts", "a"):      # reached through scalar pointers, included above
        pass
    return d

def buffers(ctx, P, L):
    for kind, (fn, argsets) in FN.items(): ctx.require(P.fn(fn) is not None, "%s is gone" % fn)
    def step(kind, nfc, ntc, cf, mem, chain, fail, heap):
        """the function (both passes for tasks) from the given memory: [(ok, mem, chain, problems, notes)]"""
        fn, argsets = FN[kind]
        heap.fail = fail
        outs = [(True, mem, chain, [], [])]
        for args in argsets(nfc):
            nxt = []
            for ok, m, ch, pr, notes in outs:
                if not ok and kind == "init": nxt.append((ok, m, ch, pr, notes)); continue      # decoding of the frame ends here
                rw = buffers_world(ctx, P, L, nfc, ntc, cf, heap)
                if kind == "tasks":
                    rw.objs("ts", "Dav1dTileState", 8); rw.set("fc", "ts", O("ts"))
                    for r in range(cf["rows"]):
                        for q in range(cf["cols"]): rw.set("ts", "tiling.row_start", ((cf["h"] + 63) // 64) * r // cf["rows"] * 16, r * cf["cols"] + q)
                    if args is argsets(nfc)[0] or args[1] == argsets(nfc)[0][1]:      # the workers have taken the tasks of the frame before
                        m = m.copy()
                        for x in ("head", "tail"): m.store(rw.at("fc", "task_thread.pending_tasks." + x), 0)
                w = rw.world()
                try: res = w.run(P.fn(fn), args, mem=m)
                except Limit as e: ctx.require(False, "%s cannot be evaluated (%s)" % (fn, e))
                ctx.count("paths", len(res)); ctx.count("evaluated_steps", w.steps)
                for ev, rv, m2 in res:
                    c2 = ch.copy(); p2 = list(pr)
                    c2.replay(w, ev, lambda i, msg: p2.append((i, msg)), L)
                    ctx.require(isinstance(rv, int), "the result of %s cannot be followed" % fn)
                    nt = notes + rw.failed(ev)
                    if rv == 0 and rw.failed(ev): p2.append((None, "%s succeeds although an %s" % (fn, rw.failed(ev)[-1])))
                    nxt.append((ok and rv == 0, m2, c2, p2, nt))
            outs = nxt
        return outs, w, rw
    def make():
        for kind in FN:
            for nfc, ntc in ((1, 1), (1, 4), (2, 2), (3, 1)):
                if kind == "tasks" and ntc == 1 and nfc == 1: continue
                for a in [None] + list(range(len(CONFIGS))):
                    for b in range(len(CONFIGS)): yield kind, nfc, ntc, a, b
    memo = {}
    def fresh(kind, nfc, ntc, c, tell):
        """the frame as the first one of a decoder: its buffers and their sizes"""
        k = (kind, nfc, ntc, c)
        if k not in memo:
            res, w, rw = step(kind, nfc, ntc, CONFIGS[c], Mem(), Chain(), False, Heap(False))
            memo[k] = None
            for ok, m, ch, pr, nt in res:
                for i, msg in pr: tell(i, msg, " [first frame]")
                if ok: memo[k] = (pointers(rw, w, m, L), ch.size)
        return memo[k]
    def compare(kind, nfc, ntc, c, state, how, tell):
        """the frame after others: no worse off than as the first one"""
        fn = FN[kind][0]; f = P.fn(fn)
        fr = fresh(kind, nfc, ntc, c, tell)
        if fr is None: ctx.violation("%s:%d" % (f.file, f.line), "the first frame is never set up", fn, "rejected"); return
        want, wsz = fr
        m, ch, heap = state
        res, w, rw = step(kind, nfc, ntc, CONFIGS[c], m, ch, False, heap)
        good = 0
        for ok, m2, ch2, pr, nt in res:
            ctx.count("later_frames")
            for i, msg in pr: tell(i, msg, " after %s" % how)
            if not ok: continue
            good += 1
            got = pointers(rw, w, m2, L)
            by = {}
            for p, v in want.items():
                ctx.count("buffers_compared")
                if v is None: continue
                g = got.get(p)
                if g is None: tell(None, "%s is missing in a frame set up after %s" % (p, how)); continue
                if g[0] in ch2.freed: tell(None, "%s is a freed block in a frame set up after %s" % (p, how)); continue
                sg, sw = ch2.size.get(g[0]), wsz.get(v[0])
                if sg is not None and sw is not None and sg < sw: tell(None, "%s is too small in a frame set up after %s" % (p, how))
                if v[1] is not None and g[1] is not None: by.setdefault(v[0], []).append((v[1], p, g))
            for l in by.values():
                l.sort()
                for (o1, p1, g1), (o2, p2, g2) in zip(l, l[1:]):
                    if g1[0] != g2[0]: tell(None, "%s and %s no longer belong to one block after %s" % (p1, p2, how))
                    elif g2[1] - g1[1] < o2 - o1: tell(None, "%s and %s are closer in their block than the frame needs after %s" % (p1, p2, how))
        if not good: ctx.violation("%s:%d" % (f.file, f.line), "no frame can be set up after %s" % how, fn, "rejected")
    def work(c):
        kind, nfc, ntc, a, b = c
        fn = FN[kind][0]; f = P.fn(fn)
        heap = Heap(False); seen = set()
        def tell(i, msg, tail=""):
            if (i.id if i is not None else None, msg) in seen: return
            seen.add((i.id if i is not None else None, msg))
            ctx.violation(i.where() if i is not None else "%s:%d" % (f.file, f.line), msg + tail, fn, "buffer")
        starts = [(Mem(), Chain())]
        if a is not None:
            res, w, rw = step(kind, nfc, ntc, CONFIGS[a], Mem(), Chain(), False, heap)
            starts = [(m, ch) for ok, m, ch, pr, nt in res if ok]
            for m, ch in starts: compare(kind, nfc, ntc, b, (m, ch, heap), "a frame of another size", tell)
        for m, ch in starts:
            res, w, rw = step(kind, nfc, ntc, CONFIGS[b], m, ch, True, heap)
            for ok, m2, ch2, pr, nt in res:
                ctx.count("frames_with_a_failure" if nt else "frames_without_failure")
                for i, msg in pr: tell(i, msg, " when an allocation fails")
                if ok: continue
                for n in range(len(CONFIGS)): compare(kind, nfc, ntc, n, (m2, ch2, heap), "a failed allocation", tell)
    parallel(ctx, make, work)

def run(ctx):
    ctx.rule = ("(1) Every call that may return a null block (malloc family and the library functions that pass a null on) is followed, with the block missing, to the end of its function by a path-sensitive analysis: no access goes through it, directly or by a callee that does not test, and the function ends with its failure result or with the error recorded. "
                "(2) Frame submission, OBU parsing and the public calls are evaluated (abstract, no execution) with each fallible step failing: no path touches a null block, and no tile capacity stays remembered without its table. "
                "(3) The set-up of per-frame buffers and task arrays is evaluated for sequences of up to three frames of different sizes, tilings, depths and thread counts, with each allocation of the second failing: afterwards every buffer the last frame would have as the first one exists, is not freed, is at least as large, its parts lie at least as far apart, and accesses during set-up stay inside it.")
    sites(ctx)
    P = obu_program(ctx); L = Lay(P)
    nulls(ctx, P, L)
    buffers(ctx, P, L)
