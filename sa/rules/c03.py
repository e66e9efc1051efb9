"""C03: closing the decoder releases everything it allocated."""
import re
from decworld import *
from c04 import CONFIGS, buffers_world

ALIGNED = ("dav1d_alloc_aligned_internal", "dav1d_free_aligned_internal")

class Heap3:
    """blocks with the family of their allocator, and the pthread objects"""
    def __init__(self): self.n = 0; self.fail = True
    def wrap(self, rw):
        old = rw.call
        def call(w, i, av, mem, ev):
            n = re.sub(r"\.\d+$", "", i.callee or "")
            r = self.model(rw, w, i, n, av, mem, ev)
            return old(w, i, av, mem, ev) if r is NotImplemented else r
        rw.call = call
        rw.models["dav1d_mem_pool_pop"] = lambda rw, w, i, av, mem, ev: NotImplemented
    def model(self, rw, w, i, n, av, mem, ev):
        f = self.fail
        if n in ("malloc", "calloc", "realloc", "aligned_alloc", "memalign", "dav1d_alloc_aligned_internal", "posix_memalign"):
            self.n += 1
            r = ("ptr", ("new", "b%d" % self.n), 0)
            ev.append(("alloc", i, r, "a" if n == "dav1d_alloc_aligned_internal" else "m"))
            if n == "calloc": mem.fill(r, None, 0)
            if n == "realloc" and w.ptr(av[0]):
                ev.append(("free", i, av[0], "m")); mem.fill(r, None, ("copy", av[0], mem.copy()))
            if n == "posix_memalign": return ("alts", [(0, None, [(av[0], r)])] + ([(12, "the allocation at %s fails" % i.where(), [(av[0], UNK)])] if f else []))
            return ("alts", [(r, None)] + ([(0, "the allocation at %s fails" % i.where())] if f else []))
        if n in ("free", "dav1d_free_aligned_internal"): ev.append(("free", i, av[0], "m" if n == "free" else "a")); return UNK
        m = re.match(r"pthread_(mutex|cond|attr)_(init|destroy)$", n)
        if m:
            ev.append(("sync", i, m.group(2), m.group(1), av[0]))
            return ("alts", [(0, None)] + ([(12, "%s fails" % n)] if f and m.group(2) == "init" else []))
        if n == "pthread_create":
            ev.append(("thread", i, av[0], av[3]))
            mem.store(av[0], ("thr", av[0]))
            return ("alts", [(0, None)] + ([(11, "pthread_create fails")] if f else []))
        if n == "pthread_join": ev.append(("join", i, av[0])); return 0
        if n == "pthread_cond_broadcast": ev.append(("broadcast", i, av[0])); return 0
        if n == "pthread_cond_wait":
            ev.append(("wait", i, av[0]))
            a = av[0]      # the worker answers the flush
            t = getattr(self, "tc", None)
            if t and w.ptr(a) and a[1] == t[1] and a[2] is not None:
                sz = rw.L.size("Dav1dTaskContext")
                mem.store(("ptr", a[1], a[2] - a[2] % sz + rw.L.off("Dav1dTaskContext", "task_thread.flushed")), 1)
            return 0
        if n == "dlsym": return 0
        return NotImplemented

class Books:
    def __init__(self, o=None):
        self.live = dict(o.live) if o else {}; self.gone = set(o.gone) if o else set()
        self.sync = dict(o.sync) if o else {}; self.threads = dict(o.threads) if o else {}; self.notes = list(o.notes) if o else []
    def copy(self): return Books(self)
    def replay(self, L, w, ev, bad, tcblk=None):
        undo = []
        tsz = L.size("Dav1dTaskContext"); die = L.off("Dav1dTaskContext", "task_thread.die")
        told = set(); woken = set(); joined = set()
        for k, e in enumerate(ev):
            t = e[0]
            if t == "alloc": self.live[e[2][1]] = (e[3], e[1]); undo = [lambda b=e[2][1]: self.live.pop(b, None)]
            elif t == "free":
                if e[2] == 0: continue
                if not w.ptr(e[2]): continue
                b = e[2][1]
                if e[1].callee == "realloc":
                    nx = ev[k + 1] if k + 1 < len(ev) else None
                    if nx is not None and nx[0] == "alt" and nx[3]: continue
                if b in self.gone: bad(e[1], "a block is freed twice"); continue
                if b not in self.live:
                    if b[0] == "new": bad(e[1], "something that was not allocated is freed")
                    continue
                if e[2][2] != 0: bad(e[1], "a block is freed through a pointer that is not its start")
                if self.live[b][0] != e[3]: bad(e[1], "a block from %s is released with %s" % (("the aligned allocator", "the ordinary deallocator") if self.live[b][0] == "a" else ("the ordinary allocator", "the aligned deallocator")))
                self.running(e[1], e[2], tsz, joined, bad, "freed")
                del self.live[b]; self.gone.add(b)
            elif t == "sync":
                if e[2] == "init":
                    self.sync[e[4]] = (e[3], e[1]); undo = [lambda a=e[4]: self.sync.pop(a, None)]
                else:
                    self.running(e[1], e[4], tsz, joined, bad, "destroyed", e[3])
                    x = self.sync.pop(e[4], None)
                    if x is not None and x[0] != e[3]: bad(e[1], "a %s is destroyed as a %s" % (x[0], e[3]))
            elif t == "thread": self.threads[e[2]] = e[1]; undo = [lambda a=e[2]: self.threads.pop(a, None)]
            elif t == "alt":
                if e[3]:
                    self.notes.append(e[3])
                    for u in undo: u()
                undo = []
            elif t == "store" and w.ptr(e[2]) and e[2][2] is not None:
                if e[2][2] % tsz == die and e[3] not in (0,): told.add((e[2][1], e[2][2] // tsz))
            elif t == "broadcast": woken = {(e[2], x) for x in told}
            elif t == "join":
                h = e[2]
                a = h[1] if isinstance(h, tuple) and h[0] == "thr" else None
                if a not in self.threads: bad(e[1], "something that is not a running thread is joined"); continue
                d = (a[1], a[2] // tsz)
                if d not in told: bad(e[1], "a worker is joined that was never told to stop")
                elif not any(x == d for c, x in woken): bad(e[1], "a worker is joined that was not woken after it was told to stop")
                del self.threads[a]; joined.add(d)
    def running(self, i, a, tsz, joined, bad, what, kind=None):
        """something goes away while workers run"""
        if not self.threads or kind == "attr" or not isinstance(a, tuple): return
        if any(a[1] == b and a[2] is not None and a[2] // tsz == k for b, k in joined): return
        if any(t[1] == a[1] for t in self.threads) and any((t[1], t[2] // tsz) == (a[1], a[2] // tsz) for t in self.threads if a[2] is not None): pass
        elif kind is None and a[1] not in self.shared: return
        elif any(a[1] == t[1] for t in self.threads) and kind is not None and not any(t[2] // tsz == a[2] // tsz for t in self.threads):
            return      # the worker this belongs to was never started
        bad(i, "%s is %s while a worker is still running" % ("a " + kind if kind else "a block the workers use", what))
    shared = frozenset()
    def leftover(self, bad, f):
        for b, (k, i) in self.live.items(): bad(i if i is not None else next(f.all_insts()), "the block allocated here is never freed")
        for a, (k, i) in self.sync.items(): bad(i, "the %s created here is never destroyed" % {"cond": "condition variable", "attr": "thread attribute"}.get(k, k))
        for a, i in self.threads.items(): bad(i, "the thread created here is never joined")

def settings(rw, nfc, ntc, custom):
    rw.objs("s", "Dav1dSettings", 1); rw.default0.add("s")
    rw.set("s", "n_threads", ntc); rw.set("s", "max_frame_delay", nfc)
    rw.set("s", "allocator.cookie", O("cookie") if custom else 0)
    for m, g in (("alloc_picture_callback", "dav1d_default_picture_alloc"), ("release_picture_callback", "dav1d_default_picture_release")):
        rw.set("s", "allocator." + m, ("ptr", ("g", "cb_" + m if custom else g), 0))

def run_fn(rw, ctx, P, fn, args, mem):
    f = P.fn(fn); ctx.require(f is not None, "%s is gone" % fn)
    w = rw.world()
    try: res = w.run(f, args, mem=mem)
    except Limit as e: ctx.require(False, "%s cannot be evaluated (%s)" % (fn, e))
    ctx.count("paths", len(res)); ctx.count("evaluated_steps", w.steps)
    return w, res

class Life:
    def __init__(self, ctx, P, L, nfc, ntc, custom):
        self.ctx, self.P, self.L, self.nfc, self.ntc = ctx, P, L, nfc, ntc
        self.heap = Heap3()
        self.custom = custom
        self.cout = O("cout")
    def rw(self):
        rw = RW(self.ctx, self.P, self.L, n_fc=self.nfc, n_tc=self.ntc, fail=self.heap.fail)
        self.heap.wrap(rw)
        rw.no_into |= {n for n in self.P.raw if "dsp_init" in n}
        return rw
    def open(self):
        rw = self.rw(); settings(rw, self.nfc, self.ntc, self.custom)
        w, res = run_fn(rw, self.ctx, self.P, "dav1d_open", {0: self.cout, 1: O("s")}, Mem())
        return w, res
    def close(self, mem, fn="dav1d_close"):
        rw = self.rw()
        f = self.heap.fail; self.heap.fail = False
        self.heap.tc = self.field(rw, mem, "tc")
        try: return run_fn(rw, self.ctx, self.P, fn, {0: self.cout}, mem)
        finally: self.heap.fail = f
    def ctxp(self, mem):
        return World(self.P).read(mem, self.cout, "ptr")
    def field(self, rw, mem, path, ty="ptr"):
        c = self.ctxp(mem)
        o = self.L.off("Dav1dContext", path)
        self.ctx.require(o is not None, "Dav1dContext.%s is gone" % path)
        return World(self.P).read(mem, ("ptr", c[1], c[2] + o), ty)

def lives(ctx, P, L):
    for nfc, ntc in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 4)):
        for custom in (0, 1): yield "open", nfc, ntc, custom, None, None
        for a in range(len(CONFIGS)):
            for b in range(len(CONFIGS)):
                if (nfc, ntc) in ((1, 1), (1, 2), (2, 2)): yield "frames", nfc, ntc, 0, a, b
        yield "full", nfc, ntc, 0, 2, 2
        yield "full", nfc, ntc, 1, 1, 1

def teller(ctx, fn, seen, tail=""):
    def bad(i, msg):
        k = (i.where() if i is not None else "", msg)
        if k in seen: return
        seen.add(k)
        ctx.violation(i.where() if i is not None else "", msg + tail, fn, "teardown")
    return bad

def shared(life, rw, mem):
    s = set()
    c = life.ctxp(mem)
    if c: s.add(c[1])
    for m in ("fc", "tc"):
        v = life.field(rw, mem, m)
        if isinstance(v, tuple): s.add(v[1])
    return frozenset(s)

def work(ctx, P, L, item):
    kind, nfc, ntc, custom, a, b = item
    life = Life(ctx, P, L, nfc, ntc, custom)
    seen = set()
    life.heap.fail = kind == "open"
    w, res = life.open()
    rw0 = life.rw()
    opened = []
    f = P.fn("dav1d_open")
    for ev, rv, mem in res:
        bk = Books()
        bk.shared = {b for e in ev if e[0] == "alloc" for b in [e[2][1]]} - {e[2][1] for e in ev if False}
        bk.replay(L, w, ev, teller(ctx, "dav1d_open", seen))
        ctx.require(isinstance(rv, int), "the result of dav1d_open cannot be followed")
        if rv == 0:
            if bk.notes: ctx.violation("%s:%d" % (f.file, f.line), "the decoder is opened although %s" % re.sub(r" at \S+ \(.*\)", "", bk.notes[-1]), "dav1d_open", "open")
            bk.sync = {k: v for k, v in bk.sync.items()}
            opened.append((mem, bk)); continue
        ctx.count("failed_opens")
        bad = teller(ctx, "dav1d_open", seen, " when opening fails")
        bk.leftover(bad, f)
        if World(P).read(mem, life.cout, "ptr") != 0 and any(e[0] == "store" and e[2] == life.cout for e in ev): bad(next(e[1] for e in ev if e[0] == "store" and e[2] == life.cout), "the application is left with a handle to nothing")
    if not opened: ctx.violation("%s:%d" % (f.file, f.line), "no decoder can be opened", "dav1d_open", "open"); return
    ctx.count("opened", len(opened))
    states = opened
    if kind in ("frames", "full"):
        for n, cfi in enumerate((a, b, (1, 3, 4)[(a + b) % 3])):      # the last one with and without screen content
            for slot in range(min(nfc, 2)):
                states = frame(ctx, P, L, life, states, CONFIGS[cfi], slot, seen, fail=n == 1 and slot == 0 and kind == "frames")
    for mem, bk in states:
        refs = {}
        if kind == "full": mem = mem.copy(); refs = populate(ctx, P, L, life, mem, bk)
        w, res = life.close(mem)
        bad = teller(ctx, "dav1d_close", seen)
        for ev, rv, m2 in res:
            b2 = bk.copy(); b2.shared = shared(life, rw0, mem)
            b2.replay(L, w, ev, bad)
            b2.leftover(bad, P.fn("dav1d_close"))
            ctx.count("closed"); ctx.count("blocks_freed_in_the_end", len(b2.gone))
            if World(P).read(m2, life.cout, "ptr") != 0: bad(ev[-1][1], "the handle still points to the closed decoder")
            if refs:
                dec = {}
                for e in ev:
                    if e[0] == "dec": dec[e[2]] = dec.get(e[2], 0) + 1
                for r, name in refs.items():
                    ctx.count("handles_released")
                    if dec.get(r, 0) != 1:
                        g = P.fn("dav1d_close")
                        ctx.violation("%s:%d" % (g.file, g.line), "%s is released %d times when the decoder is closed" % (name, dec.get(r, 0)), "dav1d_close", "handles")

def frame(ctx, P, L, life, states, cf, slot, seen, fail):
    out = []
    cfh = type("H", (), dict(models=lambda self: {}))()
    for mem, bk in states:
        base = buffers_world(ctx, P, L, life.nfc, life.ntc, cf, cfh)      # header values and geometry
        mem = mem.copy()
        fcp = life.field(base, mem, "fc")
        fp = ("ptr", fcp[1], fcp[2] + slot * L.size("Dav1dFrameContext"))
        first = L.off("Dav1dFrameContext", "tile")
        skip = {L.off("Dav1dFrameContext", x) for x in ("c", "tile", "task_thread.ttd", "n_tile_data_alloc")}
        for (o, off), v in base.cells.items():
            if o == "fc" and off < L.size("Dav1dFrameContext") and off not in skip: mem.store(("ptr", fp[1], fp[2] + off), v)
        for x in ("head", "tail"): mem.store(("ptr", fp[1], fp[2] + L.off("Dav1dFrameContext", "task_thread.pending_tasks." + x)), 0)      # the workers have taken the tasks of the frame before
        life.heap.fail = fail
        steps = [("dav1d_decode_frame_init", {0: fp})]
        if life.ntc > 1: steps += [("dav1d_task_create_tile_sbrow", {0: fp, 1: p, 2: 1}) for p in ((1, 2) if life.nfc > 1 else (0,))]
        cur = [(mem, bk)]
        for fn, args in steps:
            nx = []
            for m, b in cur:
                if "task" in fn:
                    for x in ("head", "tail"): m.store(("ptr", fp[1], fp[2] + L.off("Dav1dFrameContext", "task_thread.pending_tasks." + x)), 0)
                if "task" in fn:      # the rows the tiles start in, which the tile set-up stores
                    ts = World(P).read(m, ("ptr", fp[1], fp[2] + L.off("Dav1dFrameContext", "ts")), "ptr")
                    m = m.copy()
                    for r in range(cf["rows"]):
                        for q in range(cf["cols"]): m.store(("ptr", ts[1], ts[2] + (r * cf["cols"] + q) * L.size("Dav1dTileState") + L.off("Dav1dTileState", "tiling.row_start")), ((cf["h"] + 63) // 64) * r // cf["rows"] * 16)
                rw = buffers_world(ctx, P, L, life.nfc, life.ntc, cf, cfh); life.heap.wrap(rw)
                w, res = run_fn(rw, ctx, P, fn, args, m)
                ctx.require(bool(res), "no path of %s reaches its end" % fn)
                for ev, rv, m2 in res:
                    b2 = b.copy()
                    b2.replay(L, w, ev, teller(ctx, fn, seen))
                    ctx.count("set_up_paths")
                    if rv == 0: nx.append((m2, b2))
                    else: out.append((m2, b2))
            cur = nx
        out += cur
    life.heap.fail = False
    return out

HELD = (("Dav1dContext", ("in", "out", "cache", "seq_hdr_ref", "frame_hdr_ref", "mastering_display_ref", "content_light_ref", "itut_t35_ref", "cached_error_props")
        + tuple("refs[%d].%s" % (j, m) for j in range(8) for m in ("p", "segmap", "refmvs")) + tuple("cdf[%d]" % j for j in range(8))),)

def populate(ctx, P, L, life, mem, bk):
    """every handle of the decoder holds something"""
    rw = life.rw(); refs = {}
    c = life.ctxp(mem)
    def put(base, struct, path):
        r = L.find(struct, path) if path else (0, None, P.struct(struct))
        ctx.require(r is not None, "%s.%s is gone" % (struct, path))
        st = r[2].get("name") if r[2]["k"] == "struct" else None
        for o, k, p in (rw.leaves(st) if st else [(0, "ref", "")]):
            at = ("ptr", base[1], base[2] + r[0] + o)
            nm = ".".join(x for x in (struct, path, p) if x)
            if k == "ref":
                v = O("held:%d:%s" % (len(refs), nm)); refs[v] = nm; mem.store(at, v)
            elif k == "ptr": mem.store(at, ("ptr", ("obj", "held>" + nm), 0))
    # the fields of the decoder that own references, found by type
    owned = [p for o, k, p in rw.leaves("Dav1dContext") if k == "ref"]
    seen = set()
    for p in owned:
        top = handle_of(L, "Dav1dContext", p)
        if top in seen: continue
        seen.add(top); put(c, "Dav1dContext", top)
    ctx.require(len(refs) > 50, "the decoder's handles were not found")
    for m, v in (("n_tile_data", 2), ("n_tile_data_alloc", 2)): mem.store(("ptr", c[1], c[2] + L.off("Dav1dContext", m)), v)
    def block(name):
        b = ("ptr", ("new", name), 0); bk.live[b[1]] = ("m", None); return b
    t = block("tiles"); mem.store(("ptr", c[1], c[2] + L.off("Dav1dContext", "tile")), t)
    for k in range(2): put(("ptr", t[1], k * L.size("Dav1dTileGroup")), "Dav1dTileGroup", "data")
    fc = life.field(rw, mem, "fc")
    for n in range(life.nfc):
        fp = ("ptr", fc[1], fc[2] + n * L.size("Dav1dFrameContext"))
        t = block("tiles of frame context %d" % n); mem.store(("ptr", fp[1], fp[2] + L.off("Dav1dFrameContext", "tile")), t)
        if life.nfc == 1: continue      # a frame context keeps nothing between calls without frame threads (C17)
        mem.store(("ptr", fp[1], fp[2] + L.off("Dav1dFrameContext", "n_tile_data")), 1)
        put(t, "Dav1dTileGroup", "data")
        seen = set()
        for p in [p for o, k, p in rw.leaves("Dav1dFrameContext") if k == "ref"]:
            top = handle_of(L, "Dav1dFrameContext", p)
            if top not in seen: seen.add(top); put(fp, "Dav1dFrameContext", top)
        # the CDF a frame will leave behind exists exactly when its header says it leaves one
        h = O("hdr"); mem.store(("ptr", fp[1], fp[2] + L.off("Dav1dFrameContext", "frame_hdr")), h)
        mem.store(("ptr", h[1], h[2] + L.off("Dav1dFrameHeader", "refresh_context")), 1)
    if life.nfc > 1:
        od = life.field(rw, mem, "frame_thread.out_delayed")
        for n in range(life.nfc): put(("ptr", od[1], od[2] + n * L.size("Dav1dThreadPicture")), "Dav1dThreadPicture", "")
    return refs

def handle_of(L, struct, p):
    """the outermost handle (picture, packet, CDF table) a reference belongs to"""
    parts = p.split(".")
    for n in range(1, len(parts)):
        r = L.find(struct, ".".join(parts[:n]))
        if r and r[2]["k"] == "struct" and r[2].get("name") in ("Dav1dThreadPicture", "Dav1dPicture", "Dav1dData", "Dav1dDataProps", "CdfThreadContext"): return ".".join(parts[:n])
    return p

# --- buffer pools and reference-counted blocks: every history of a few operations
def machine(ctx, P, L, heap):
    rw = RW(ctx, P, L, fail=heap.fail)
    def call(w, i, av, mem, ev):
        n = re.sub(r"\.\d+$", "", i.callee or "")
        r = heap.model(rw, w, i, n, av, mem, ev)
        if r is not NotImplemented: return r
        if i.callee is None:
            tg = ev[-1][3] if ev and ev[-1][0] == "call" else None
            if w.ptr(tg) and tg[1][0] == "g" and tg[1][1] in P.raw: return ("into", tg[1][1])
            ev.append(("user", i, tg, av)); return UNK
        if n.startswith("pthread_"): return 0
        if i.callee in P.raw: return ("into", i.callee)
        return NotImplemented
    rw.call = call
    return rw

def last(f, v): return {len(f.args) - 1: v}

def histories(n):
    """what may happen to a pool: blocks of two sizes taken, given back in either order, the pool ended at any point"""
    import itertools
    for h in itertools.product(("small", "large", "give first", "give last", "end"), repeat=n): yield h

def pool_history(ctx, P, L, h, fail, seen):
    heap = Heap3(); heap.fail = False
    rw = machine(ctx, P, L, heap)
    fi, fpop, fpush, fend = [P.fn(x) for x in ("dav1d_mem_pool_init", "dav1d_mem_pool_pop", "dav1d_mem_pool_push", "dav1d_mem_pool_end")]
    ctx.require(None not in (fi, fpop, fpush, fend), "the buffer pool is gone")
    def call(f, args, mem, bk):
        w = rw.world(); out = []
        try: res = w.run(f, args, mem=mem)
        except Limit as e: ctx.require(False, "%s cannot be evaluated (%s)" % (f.name, e))
        for ev, rv, m in res:
            b = bk.copy(); bad = teller(ctx, f.name, seen)
            for e in ev:
                if e[0] == "free" and w.ptr(e[2]) and e[2][1][0] == "new" and e[2][1] not in b.live and e[2][1] not in b.gone: pass
            use_after(w, ev, b, bad)
            b.replay(L, w, ev, bad)
            out.append((rv, m, b, w))
        ctx.count("pool_steps", len(out))
        if not out: ctx.violation("%s:%d" % (f.file, f.line), "the pool gets into a state its own assertions rule out", f.name, "pool")
        return out
    states = [(m, b, [], False) for rv, m, b, w in call(fi, last(fi, O("pp")), Mem(), Books())]
    W = World(P)
    pool = W.read(states[0][0], O("pp"), "ptr")
    ctx.require(W.ptr(pool), "dav1d_mem_pool_init stores no pool")
    for k, op in enumerate(list(h) + ["settle"]):
        nx = []
        for m, b, held, ended in states:
            if op in ("small", "large"):
                if ended: continue      # not done with an ended pool (the owner is gone)
                heap.fail = fail
                for rv, m2, b2, w in call(fpop, {0: pool, 1: 64 if op == "small" else 192}, m, b):
                    if w.ptr(rv):
                        nx.append((m2, b2, held + [rv], ended))
                        if rv[1] not in b2.live: ctx.violation("%s:%d" % (fpop.file, fpop.line), "a block taken from the pool is not owned by it", fpop.name, "pool")
                        if any(x[1] == rv[1] for x in held): ctx.violation("%s:%d" % (fpop.file, fpop.line), "a block of the pool is handed out twice", fpop.name, "pool")
                    else:
                        if not b2.notes or len(b2.notes) == len(b.notes): ctx.violation("%s:%d" % (fpop.file, fpop.line), "nothing is taken from the pool although no allocation failed", fpop.name, "pool")
                        nx.append((m2, b2, held, ended))
                heap.fail = False
            elif op.startswith("give"):
                if not held: continue
                x = held[0 if op == "give first" else -1]
                for rv, m2, b2, w in call(fpush, {0: pool, 1: x}, m, b): nx.append((m2, b2, [y for y in held if y is not x], ended))
            elif op == "end":
                if ended: continue
                for rv, m2, b2, w in call(fend, {0: pool}, m, b): nx.append((m2, b2, held, True))
            else:
                st = [(m, b, held, ended)]
                if not ended:
                    st = [(m2, b2, held, True) for rv, m2, b2, w in call(fend, {0: pool}, m, b)]
                for m1, b1, h1, _ in st:
                    for x in h1:
                        if x[1] not in b1.live: ctx.violation("%s:%d" % (fend.file, fend.line), "a block still in use is freed with its pool", fend.name, "pool")
                    if h1 and pool[1] not in b1.live: ctx.violation("%s:%d" % (fend.file, fend.line), "the pool goes away while a block of it is in use", fend.name, "pool")
                while st and any(x[2] for x in st):
                    st = [(m2, b2, h1[1:], True) for m1, b1, h1, _ in st for rv, m2, b2, w in call(fpush, {0: pool, 1: h1[0]}, m1, b1)]
                for m1, b1, h1, _ in st: b1.leftover(teller(ctx, fend.name, seen, " after the pool was ended and every block given back"), fend); ctx.count("pool_histories")
        states = nx

def use_after(w, ev, bk, bad):
    """a freed block is not touched"""
    gone = set(bk.gone)
    for e in ev:
        if e[0] == "free" and w.ptr(e[2]): gone.add(e[2][1])
        elif e[0] == "alloc": gone.discard(e[2][1])
        elif e[0] in ("load", "store", "rmw") and w.ptr(e[2]) and e[2][1] in gone: bad(e[1], "a freed block is used")

def ref_history(ctx, P, L, maker, incs, seen):
    heap = Heap3(); heap.fail = True
    rw = machine(ctx, P, L, heap)
    pool = None
    bk = Books(); mem = Mem()
    def run1(fn, args, mem, bk):
        f = P.fn(fn); ctx.require(f is not None, "%s is gone" % fn)
        w = rw.world(); out = []
        try: res = w.run(f, args, mem=mem)
        except Limit as e: ctx.require(False, "%s cannot be evaluated (%s)" % (fn, e))
        for ev, rv, m in res:
            b = bk.copy(); use_after(w, ev, b, teller(ctx, fn, seen)); b.replay(L, w, ev, teller(ctx, fn, seen))
            out.append((rv, m, b, [e for e in ev if e[0] == "user"]))
        ctx.count("reference_steps", len(out))
        if not out: ctx.violation("%s:%d" % (f.file, f.line), "a reference gets into a state the code's own assertions rule out", fn, "pool")
        return out
    heap.fail = False
    fi = P.fn("dav1d_mem_pool_init")
    if maker == "dav1d_ref_create_using_pool" or maker == "dav1d_default_picture_alloc":
        (rv, mem, bk, _), = run1("dav1d_mem_pool_init", last(fi, O("pp")), mem, bk)
        pool = World(P).read(mem, O("pp"), "ptr")
    heap.fail = True
    f = P.fn(maker); ctx.require(f is not None, "%s is gone" % maker)
    if maker == "dav1d_default_picture_alloc":
        rw.objs("pic", "Dav1dPicture", 1)
        for x, v in (("p.w", 64), ("p.h", 64), ("p.layout", incs % 4), ("p.bpc", 8 if incs < 4 else 10)): rw.set("pic", x, v)
        made = run1(maker, {0: O("pic"), 1: pool}, mem, bk)
    elif pool is not None: made = run1(maker, {0: pool, 1: 100}, mem, bk)
    elif maker in ("dav1d_data_create", "dav1d_data_wrap"):
        rw.objs("in", "Dav1dData", 1)
        made = run1(maker, {0: O("in"), 1: 100} if maker == "dav1d_data_create" else {0: O("in"), 1: O("bytes"), 2: 100, 3: ("ptr", ("g", "user_cb"), 0), 4: O("cookie")}, mem, bk)
    else: made = run1(maker, last(f, 100), mem, bk)
    heap.fail = False
    for rv, m, b, us in made:
        st = [(m, b, us)]
        ok = rv == 0 if maker in ("dav1d_default_picture_alloc", "dav1d_data_wrap") else rv != 0
        if ok:
            if maker == "dav1d_default_picture_alloc": st = [x[1:] for x in run1("dav1d_default_picture_release", {0: O("pic"), 1: pool}, m, b)]
            else:
                ref = World(P).read(m, O("in", L.off("Dav1dData", "ref")), "ptr") if maker.startswith("dav1d_data") else rv
                ctx.require(World(P).ptr(ref), "%s makes no reference" % maker)
                cnt = ("ptr", ref[1], ref[2] + L.off("Dav1dRef", "ref_cnt"))
                if World(P).read(m, cnt, "i32") != 1: ctx.violation("%s:%d" % (f.file, f.line), "a new block does not start with one reference", maker, "pool")
                m = m.copy(); m.store(cnt, 1 + incs)
                st = [(m, b, us)]
                for k in range(1 + incs):
                    nx = []
                    for m1, b1, u1 in st:
                        m1 = m1.copy(); m1.store(O("r"), ref)
                        if k == incs and maker.startswith("dav1d_data"):      # the last one through the public call
                            for x in run1("dav1d_data_unref", {0: O("in")}, m1, b1): nx.append((x[1], x[2], u1 + x[3]))
                        else:
                            if ref[1] not in b1.live: ctx.violation("%s:%d" % (f.file, f.line), "a block is freed while references to it are left", maker, "pool")
                            for x in run1("dav1d_ref_dec", {0: O("r")}, m1, b1): nx.append((x[1], x[2], u1 + x[3]))
                    st = nx
                for m1, b1, u1 in st:
                    n = sum(1 for u in u1 if u[2] == ("ptr", ("g", "user_cb"), 0))
                    if maker == "dav1d_data_wrap" and n != 1: ctx.violation("%s:%d" % (f.file, f.line), "the application's memory is given back %d times" % n, maker, "pool")
        for m1, b1, u1 in st:
            end = [(m1, b1)]
            if pool is not None: end = [x[1:3] for x in run1("dav1d_mem_pool_end", {0: pool}, m1, b1)]
            for m2, b2 in end: b2.leftover(teller(ctx, maker, seen, " after the last reference went away"), f); ctx.count("reference_histories")

def t35_history(ctx, P, L, n, seen):
    """freeing T.35 metadata: the context, the array and every payload"""
    heap = Heap3(); heap.fail = False
    f = P.fn("dav1d_picture_free_itut_t35")
    ctx.require(f is not None and P.struct("itut_t35_ctx_context") is not None, "the T.35 metadata has changed")
    rw = machine(ctx, P, L, heap); mem = Mem(); bk = Books()
    B = lambda x: ("ptr", ("new", x), 0)
    def put(b, st, m, v): mem.store(("ptr", b[1], b[2] + L.off(st, m)), v)
    for x in ["ctx", "array"] + ["payload %d" % k for k in range(n)]: bk.live[B(x)[1]] = ("m", None)
    put(B("ctx"), "itut_t35_ctx_context", "itut_t35", B("array")); put(B("ctx"), "itut_t35_ctx_context", "n_itut_t35", n)
    for k in range(n): put(("ptr", B("array")[1], k * L.size("Dav1dITUTT35")), "Dav1dITUTT35", "payload", B("payload %d" % k))
    w = rw.world()
    for ev, rv, m in w.run(f, {0: B("array"), 1: B("ctx")}, mem=mem):
        b = bk.copy(); bad = teller(ctx, f.name, seen)
        use_after(w, ev, b, bad); b.replay(L, w, ev, bad)
        for x in b.live: ctx.violation("%s:%d" % (f.file, f.line), "the %s of T.35 metadata is not freed" % x[1].split(" ")[0], f.name, "pool")
        ctx.count("metadata_histories")

def picture_history(ctx, P, L, item, seen):
    """a picture of an open decoder with a copy and a second reference, given back in any order around the closing of the decoder"""
    nfc, custom, order = item
    life = Life(ctx, P, L, nfc, 2 if nfc > 1 else 1, custom)
    life.heap.fail = False
    w, res = life.open()
    rw0 = life.rw()
    for ev, rv, mem in res:
        if rv != 0: continue
        bk = Books(); bk.replay(L, w, ev, teller(ctx, "dav1d_open", seen))
        mem = mem.copy()
        c = life.ctxp(mem); fc = life.field(rw0, mem, "fc")
        def put(b, st, m, v): mem.store(("ptr", b[1], b[2] + L.off(st, m)), v)
        cnt = L.off("Dav1dRef", "ref_cnt")
        outer = {}
        def counted(name):
            r = O(name); mem.store(O(name, cnt), 1); outer[name] = r
            mem.store(O(name, L.off("Dav1dRef", "free_callback")), ("ptr", ("g", "outer_cb"), 0)); mem.store(O(name, L.off("Dav1dRef", "free_ref")), 0)
            return r
        for x, g in (("alloc_picture_callback", "dav1d_default_picture_alloc"), ("release_picture_callback", "dav1d_default_picture_release")):
            put(c, "Dav1dContext", "allocator." + x, ("ptr", ("g", "cb_" + x if custom else g), 0))
        put(fc, "Dav1dFrameContext", "frame_hdr", O("hdr")); put(fc, "Dav1dFrameContext", "frame_hdr_ref", counted("hdrref"))
        put(fc, "Dav1dFrameContext", "seq_hdr", O("seq")); put(fc, "Dav1dFrameContext", "seq_hdr_ref", counted("seqref"))
        put(fc, "Dav1dFrameContext", "tile", O("tiles")); mem.store(O("tiles", L.off("Dav1dTileGroup", "data.m.user_data.ref")), counted("userref"))
        for m in ("content_light", "mastering_display", "itut_t35"): put(c, "Dav1dContext", m, O(m)); put(c, "Dav1dContext", m + "_ref", counted(m + "ref"))
        put(c, "Dav1dContext", "n_itut_t35", 1)
        for st, o, d in (("Dav1dFrameHeader", "hdr", dict(show_frame=1, showable_frame=1, height=64, spatial_id=0)), ("Dav1dSequenceHeader", "seq", dict(layout=1, hbd=0))):
            mem.fill(O(o), L.size(st), 0)
            for m, v in d.items(): mem.store(O(o, L.off(st, m)), v)
        for k in range(2): mem.store(O("hdr", L.off("Dav1dFrameHeader", "width[%d]" % k)), 64)
        for o in ("dst", "app", "r"): mem.fill(O(o), 8192, 0)
        pic = ("ptr", fc[1], fc[2] + L.off("Dav1dFrameContext", "sr_cur"))
        plain = ("ptr", pic[1], pic[2] + L.off("Dav1dThreadPicture", "p"))
        life.heap.tc = life.field(rw0, mem, "tc")
        states = [(mem, bk, 0, 0, frozenset())]
        NEED = {"dav1d_picture_alloc_copy": "decoder", "dav1d_thread_picture_ref": "decoder", "dav1d_thread_picture_unref": "decoder"}
        steps = [("dav1d_thread_picture_alloc", {0: c, 1: fc, 2: 8}, True), ("dav1d_picture_alloc_copy", {0: c, 1: O("dst"), 2: 64, 3: plain}, True), ("dav1d_thread_picture_ref", {0: O("app"), 1: pic}, False)]
        ends = {"decoder": ("dav1d_thread_picture_unref", {0: pic}), "application": ("dav1d_picture_unref", {0: O("app")}), "copy": ("dav1d_picture_unref", {0: O("dst")}), "close": ("dav1d_close", {0: life.cout})}
        steps += [ends["decoder"] + (False,)] if order[0] == "decoder" else []
        steps += [ends[x] + (False,) for x in order if x != "decoder"]
        for fn, args, fallible in steps:
            f = P.fn(fn); ctx.require(f is not None, "%s is gone" % fn)
            nx = []
            for m, b, na, nr, failed in states:
                if NEED.get(fn) in failed or (fn == "dav1d_picture_unref" and args[0] == O("app") and "decoder" in failed): nx.append((m, b, na, nr, failed)); continue
                rw = machine(ctx, P, L, life.heap)
                base = rw.call
                def call(w, i, av, mm, ev):
                    if i.callee is None and ev and ev[-1][0] == "call":
                        tg = ev[-1][3]
                        if tg == ("ptr", ("g", "cb_alloc_picture_callback"), 0):
                            ev.append(("user", i, tg, av)); mm.store(("ptr", av[0][1], av[0][2] + L.off("Dav1dPicture", "data")), O("pixels")); return ("alts", [(0, None), (-12, "the picture allocator fails")]) if life.heap.fail else 0
                    if i.callee in rw.LEAF or (i.callee or "").startswith("dav1d_log"): return UNK
                    return base(w, i, av, mm, ev)
                rw.call = call
                life.heap.fail = fallible
                w = rw.world()
                try: res2 = w.run(f, args, mem=m)
                except Limit as e: ctx.require(False, "%s cannot be evaluated (%s)" % (fn, e))
                ctx.count("picture_steps", len(res2))
                if not res2: ctx.violation("%s:%d" % (f.file, f.line), "a picture gets into a state the code's own assertions rule out", fn, "picture")
                for ev, rv, m2 in res2:
                    b2 = b.copy(); bad = teller(ctx, fn, seen)
                    b2.shared = shared(life, rw0, m) if World(P).ptr(life.ctxp(m)) else frozenset()
                    use_after(w, ev, b2, bad); b2.replay(L, w, ev, bad)
                    for i, how in w.nulls(ev): bad(i, "a missing block is %s" % how)
                    a2 = na + sum(1 for k, e in enumerate(ev) if e[0] == "user" and e[2] == ("ptr", ("g", "cb_alloc_picture_callback"), 0) and not (ev[k + 1][0] == "alt" and ev[k + 1][3]))
                    r2 = nr + sum(1 for e in ev if e[0] == "user" and e[2] == ("ptr", ("g", "cb_release_picture_callback"), 0))
                    fd = failed
                    if fallible and rv != 0: fd = failed | {"decoder" if fn == "dav1d_thread_picture_alloc" else "copy"}
                    nx.append((m2, b2, a2, r2, fd))
            life.heap.fail = False
            states = nx
        f = P.fn("dav1d_close")
        for m, b, na, nr, failed in states:
            ctx.count("picture_histories")
            b.leftover(teller(ctx, "dav1d_close", seen, " after the last picture was given back and the decoder closed"), f)
            if na != nr: ctx.violation("%s:%d" % (f.file, f.line), "the application's picture allocator was asked for %d pictures and given %d back" % (na, nr), "dav1d_close", "picture")

def blocks(ctx, P, L):
    def make():
        import itertools
        for nfc in (1, 2):
            for custom in (0, 1):
                for o in itertools.permutations(("application", "copy", "close")):
                    yield "picture", (nfc, custom, ("decoder",) + o)
        for n in range(4): yield "t35", n
        for n in (2, 3, 4, 5):
            for h in histories(n):
                if h[0].startswith("give") or h[0] == "end" and n > 2: continue
                yield "pool", h, n < 5
        for mk in ("dav1d_ref_create", "dav1d_ref_create_using_pool", "dav1d_data_create", "dav1d_data_wrap"):
            for incs in (0, 1, 2): yield "ref", mk, incs
        for v in range(8): yield "ref", "dav1d_default_picture_alloc", v
    seen = set()
    parallel(ctx, make, lambda c: pool_history(ctx, P, L, c[1], c[2], seen) if c[0] == "pool" else t35_history(ctx, P, L, c[1], seen) if c[0] == "t35" else picture_history(ctx, P, L, c[1], seen) if c[0] == "picture" else ref_history(ctx, P, L, c[1], c[2], seen))

# --- nothing is lost while decoding: a block allocated on a path is freed or still stored somewhere when the path ends
def lost(ctx, P, L):
    def work(c):
        w, f, res = c.run()
        for ev, rv, mem in res:
            ctx.count("paths_for_lost_blocks")
            live = {}
            for k, e in enumerate(ev):
                if e[0] in ("alloc", "create", "pop"): live[e[2][1]] = e[1]; pend = e[2][1]
                elif e[0] == "alt" and e[3]:
                    if e[3].split(" ")[0] == (e[1].callee or ""):
                        for b in [b for b, i in live.items() if i is e[1]]: live.pop(b)
                elif e[0] in ("free", "push", "dec") and w.ptr(e[2]):
                    if e[0] == "free" and e[1].callee == "realloc": continue
                    live.pop(e[2][1], None)
            # what can still be found: from the objects of the application and the decoder through the blocks they lead to
            refs = {}
            for (b, o), v in mem.cells.items():
                if w.ptr(v): refs.setdefault(root(b), set()).add(root(v[1]))
            for b, o, n, what in mem.ranges:
                if isinstance(what, tuple) and what[0] == "copy" and what[1] is not None:
                    for (b2, o2), v in what[2].cells.items():
                        if b2 == what[1][1] and w.ptr(v): refs.setdefault(root(b), set()).add(root(v[1]))
            have = set(); st = [b for b in refs if b[0] not in ("al", "new")] + ([root(rv[1])] if w.ptr(rv) else [])
            st += [root(e[2][1]) for e in ev if e[0] in ("dec", "push") and w.ptr(e[2])]      # what a released block leads to is released by its callback
            while st:
                b = st.pop()
                if b in have: continue
                have.add(b); st += refs.get(b, ())
            freed = {e[2][1] for e in ev if e[0] == "free" and w.ptr(e[2])}
            freed |= {e[2][0][1] for k, e in enumerate(ev) if e[0] == "call" and e[1].callee == "realloc" and w.ptr(e[2][0]) and not any(x[0] == "alt" and x[1] is e[1] and x[3] for x in ev[k:k + 4])}
            for (host, off), v in c.rw.cells.items():      # the tile arrays the decoder owned at the start
                if host in ("c", "fc") and w.ptr(v) and v[1][0] == "obj" and re.match(r"f?tile\d*$", v[1][1]) and v[1] not in freed and w.read(mem, O(host, off), "ptr") != v and v[1] not in {x for s in (refs.get(("obj", "c"), ()), refs.get(("obj", "fc"), ())) for x in s}:
                    st_ = [e for e in ev if e[0] == "store" and e[2] == O(host, off)]
                    ctx.violation(st_[-1][1].where() if st_ else "", "an array of tile groups is replaced without being freed", c.fn, "lost")
            for b, i in live.items():
                ctx.count("blocks_accounted_for")
                if b in have: continue
                why = c.rw.failed(ev)
                ctx.violation(i.where(), "the block %s delivered is lost in %s%s" % (i.callee, i.fn.name, " after a failure of " + why[-1].replace(" fails", "") if why else ""), c.fn, "lost")
    def make():
        yield from all_cases(ctx, P, L)
        for c in submit_cases(ctx, P, L, frames=FRAMES[:2]):      # more tile groups than the frame context has room for
            for n in range(c.info["nfc"]): c.rw.set("fc", "n_tile_data_alloc", 0, n)
            c.cfg += ", no room for tile groups"; yield c
    parallel(ctx, make, work)

def root(b):
    """the block a derived pointer (its payload) belongs to"""
    while b[0] == "dat": b = b[1]
    return b

def run(ctx):
    ctx.rule = ("dav1d_open is evaluated (abstract, no execution) with each allocation, mutex, condition variable, thread attribute and thread creation failing, for several thread counts; every life of a decoder - open, the buffers of frames of different "
                "shapes set up with each allocation of the second failing, a third one, close - is evaluated to its end. In the end no block, mutex, condition variable, thread or attribute is left, each block is freed once, from its start and by the deallocator of its "
                "family, workers are told to stop, woken and joined before anything they use goes away, and every handle the types say the decoder can hold is released once. "
                "(2) Every history of up to five operations on a buffer pool (blocks of two sizes taken, allocations failing, blocks given back in either order, the pool ended before or after) and of the references to each kind of counted block is evaluated the same way: "
                "nothing is left, nothing is freed early or twice or touched afterwards.")
    P = ctx.prog(noinline=ALIGNED); L = Lay(P)
    parallel(ctx, lambda: lives(ctx, P, L), lambda c: work(ctx, P, L, c))
    blocks(ctx, P, L)
    P = obu_program(ctx); lost(ctx, P, Lay(P))
