"""C17: dav1d_flush leaves nothing of the old stream behind."""
from world import *
from ccp import CCP
from scan import *

HANDLES = {   # verified to release and empty the whole handle by C02
    "dav1d_data_unref_internal": "Dav1dData", "dav1d_data_props_unref_internal": "Dav1dDataProps", "dav1d_thread_picture_unref": "Dav1dThreadPicture",
    "dav1d_picture_unref_internal": "Dav1dPicture", "dav1d_cdf_thread_unref": "CdfThreadContext", "dav1d_ref_dec": None}

# stream state of the decoder: every pointer and counter below these members
CTX = ["in", "out", "cache", "drain", "cached_error", "refs[%d].p", "refs[%d].segmap", "refs[%d].refmvs", "cdf[%d]", "frame_hdr", "seq_hdr", "seq_hdr_ref",
       "mastering_display", "mastering_display_ref", "content_light", "content_light_ref", "itut_t35", "itut_t35_ref", "n_itut_t35",
       "cached_error_props", "n_tile_data", "n_tiles"]
FRAME_TASKS = ["task_thread.task_head", "task_thread.task_cur_prev", "task_thread.pending_tasks.head"]

def O(n, off=0): return ("ptr", ("obj", n), off)

class Flush:
    def __init__(self, ctx, P, L, f, nfc, ntc, hdr_only, hdr_null=False):
        self.ctx = ctx; self.P = P; self.L = L; self.f = f; self.nfc = nfc; self.ntc = ntc; self.hdr = hdr_only
        self.cfg = "n_fc=%d n_tc=%d%s" % (nfc, ntc, ", header-only references" if hdr_only else "")
        self.tcsz = L.size("Dav1dTaskContext"); self.fcsz = L.size("Dav1dFrameContext"); self.tpsz = L.size("Dav1dThreadPicture")
        self.tgsz = L.size("Dav1dTileGroup")
        c = {}
        o = L.off
        for k, v in (("n_fc", nfc), ("n_tc", ntc), ("fc", O("fc")), ("tc", O("tc")), ("tile", O("tile")), ("n_tile_data", 2), ("n_tiles", 2), ("n_itut_t35", 1),
                     ("frame_thread.out_delayed", O("od")), ("frame_thread.next", nfc - 1), ("flush", O("c", o("Dav1dContext", "flush_mem"))), ("drain", 1), ("cached_error", -22)):
            c[o("Dav1dContext", k)] = v
        if hdr_only:
            for i in range(8):
                for j in range(3): c[o("Dav1dContext", "refs[%d].p.p.data[%d]" % (i, j))] = 0
                c[o("Dav1dContext", "refs[%d].p.p.ref" % i)] = 0
                c[o("Dav1dContext", "refs[%d].p.progress" % i)] = 0
        self.c = c
        self.flushed = L.off("Dav1dTaskContext", "task_thread.flushed")
        self.tcond = L.off("Dav1dTaskContext", "task_thread.td.cond")
    def init(self, inst, a, ty):
        b = a[1]
        if b == ("obj", "c"):
            if a[2] in self.c: return self.c[a[2]]
        elif b == ("obj", "tc"):
            if a[2] is not None and a[2] % self.tcsz == self.flushed: return 0
            if ty != "ptr": return UNK
        elif b == ("obj", "fc"):
            if a[2] is not None and a[2] % self.fcsz == self.L.off("Dav1dFrameContext", "n_tile_data"): return 1
            if ty != "ptr": return UNK
        return NotImplemented
    def call(self, w, i, av, mem, ev):
        n = i.callee or ""
        if n in HANDLES:
            if w.ptr(av[0]):
                st = HANDLES[n]
                if st is None:
                    mem.store(av[0], 0)
                else: mem.fill(av[0], self.L.size(st), 0)
                ev.append(("rel", i, n, av[0]))
            return UNK
        if n == "pthread_cond_wait":
            a = av[0]
            if w.ptr(a) and a[1] == ("obj", "tc") and a[2] is not None and a[2] % self.tcsz == self.tcond:
                # the first wake-up is a spurious one
                k = ("ptr", ("obj", "wakeups"), a[2] // self.tcsz)
                r = mem.look(k)
                if r: mem.store(("ptr", a[1], a[2] - self.tcond + self.flushed), 1)
                mem.store(k, 1)
            return 0
        if n.startswith("pthread_"): return 0
        if n == "dav1d_decode_frame_exit":
            ev.append(("exit", i, av[0], av[1]))
            if w.ptr(av[0]) and av[0][2] is not None:
                mem.store(("ptr", av[0][1], av[0][2] + self.L.off("Dav1dFrameContext", "task_thread.retval")), av[1])
        return NotImplemented
    def bad(self, msg, i=None):
        self.ctx.violation(i.where() if i is not None else "%s:%d" % (self.f.file, self.f.line), "%s [%s]" % (msg, self.cfg), self.f.name, "flush")
    def go(self):
        ctx, L, f = self.ctx, self.L, self.f
        w = World(self.P, self.init, self.call, max_paths=64)
        try: res = w.run(f, {0: O("c")})
        except Limit:
            return self.bad("the flush does not come to an end under these assumptions (a wait or loop never sees its condition)")
        ctx.count("paths", len(res)); ctx.count("evaluated_steps", w.steps)
        if not res: return self.bad("no path through the flush returns")
        for ev, rv, mem in res: self.path(w, ev, mem)
    def cell(self, w, mem, base, off, ty): return w.read(mem, ("ptr", ("obj", base), off), ty)
    def zero(self, w, mem, base, off, ty, what):
        self.ctx.count("cells")
        v = self.cell(w, mem, base, off, ty)
        if v != 0: self.bad("%s is not reset by the flush" % what)
    def leaves(self, struct, path):
        """pointer and scalar cells of a member; for a handle only its pointers"""
        L = self.L
        r = L.find(struct, path)
        if r is None: return
        off, t, d = r
        if d["k"] == "ptr": yield off, "ptr", path; return
        if d["k"] not in ("struct", "union", "array"): yield off, "i%d" % (8 * d["size"]), path; return
        st = [(off, d, path)]
        while st:
            o, d, p = st.pop()
            if d["k"] == "ptr": yield o, "ptr", p
            elif d["k"] == "struct":
                for m in d["m"]: st.append((o + m[1], L.strip(m[3]), p + "." + m[0]))
            elif d["k"] == "array":
                el = L.strip(d["elem"]); n = d["size"] // el["size"] if el["size"] else 0
                if n <= 16:
                    for j in range(n): st.append((o + j * el["size"], el, "%s[%d]" % (p, j)))
    def path(self, w, ev, mem):
        L, ctx = self.L, self.ctx
        for m in CTX:
            for p in ([m % i for i in range(8)] if "%d" in m else [m]):
                ctx.require(L.find("Dav1dContext", p) is not None, "Dav1dContext.%s is gone" % p)
                for off, ty, nm in self.leaves("Dav1dContext", p):
                    if nm.endswith("allocator.cookie") or ".allocator." in nm: continue
                    self.zero(w, mem, "c", off, ty, nm)
        # tile data collected for an incomplete frame
        rel = {(e[3][1], e[3][2]) for e in ev if e[0] == "rel"}
        for j in range(2):
            o = j * self.tgsz + L.off("Dav1dTileGroup", "data")
            ctx.count("cells")
            if self.cell(w, mem, "tile", o + L.off("Dav1dData", "ref"), "ptr") != 0: self.bad("tile[%d].data is not released by the flush" % j)
        if self.nfc == 1 and self.ntc == 1: return
        # order: flag up, every worker seen parked, then the frames are taken apart, flag down
        fm = ("obj", "c"), L.off("Dav1dContext", "flush_mem")
        up = down = None; parked = set(); first_touch = None; lastflag = None; locked = set()
        for k, e in enumerate(ev):
            if e[0] == "store" or e[0] == "rmw":
                a, v = e[2], e[3]
                if w.ptr(a) and (a[1], a[2]) == fm:
                    lastflag = v
                    if v != 0 and up is None: up = k
                    if v == 0: down = k
                    continue
            touch = None
            if e[0] in ("store", "rmw", "set", "copy") and w.ptr(e[2]) and e[2][1] in (("obj", "fc"), ("obj", "od")): touch = e[1]
            elif e[0] in ("rel", "exit"):
                a = e[3] if e[0] == "rel" else e[2]
                if w.ptr(a) and a[1] in (("obj", "fc"), ("obj", "od")): touch = e[1]
            elif e[0] == "load" and w.ptr(e[2]) and e[2][1] == ("obj", "tc") and e[2][2] is not None and e[2][2] % self.tcsz == self.flushed:
                if up is None: self.bad("a worker is waited for before the flush flag is raised", e[1])
                if e[3] == 1: parked.add((e[2][2] // self.tcsz, k))
            if touch is not None:
                if down is not None: self.bad("frames in flight are discarded after the flush flag was lowered again", touch)
                if up is None: self.bad("frames in flight are discarded before the flush flag is raised", touch)
                if first_touch is None:
                    first_touch = k
                    # every worker must have been seen with flushed set
                    if self.ntc > 1:
                        seen = {j for j, _ in parked}
                        miss = [j for j in range(self.ntc) if j not in seen]
                        ctx.count("workers_awaited", len(seen))
                        if miss: self.bad("frames in flight are discarded before worker %s was seen to have stopped" % ", ".join(map(str, miss)), touch)
        ctx.count("orders_checked")
        if up is None: self.bad("the flush flag is never raised")
        if lastflag != 0: self.bad("the flush flag is still raised when the flush returns")
        if self.ntc > 1:
            waits = {e[2][0][2] // self.tcsz for e in ev if e[0] == "call" and e[1].callee == "pthread_cond_wait" and w.ptr(e[2][0]) and e[2][0][1] == ("obj", "tc") and e[2][0][2] is not None}
            for j in range(self.ntc):
                if j not in waits: self.bad("worker %d is not waited for when it has not stopped yet" % j)
            for n in range(self.nfc):
                for m in FRAME_TASKS:
                    o = L.off("Dav1dFrameContext", m); ctx.require(o is not None, "Dav1dFrameContext.%s is gone" % m)
                    self.zero(w, mem, "fc", n * self.fcsz + o, "ptr", "fc[%d].%s" % (n, m))
            for m, want in (("task_thread.first", 0), ("task_thread.cur", self.nfc), ("task_thread.reset_task_cur", -1), ("task_thread.cond_signaled", 0)):
                o = L.off("Dav1dContext", m); ctx.require(o is not None, "Dav1dContext.%s is gone" % m)
                ctx.count("cells")
                v = self.cell(w, mem, "c", o, "i32")
                if v != want: self.bad("%s is not put back to its initial value (%s) by the flush" % (m, want))
        if self.nfc > 1:
            ex = {}
            for e in ev:
                if e[0] == "exit":
                    if not (w.ptr(e[2]) and e[2][1] == ("obj", "fc") and e[2][2] is not None): continue
                    n = e[2][2] // self.fcsz
                    ex[n] = ex.get(n, 0) + 1
                    if e[3] == 0: self.bad("fc[%d] is ended as a success" % n, e[1])
            for n in range(self.nfc):
                ctx.count("frames_ended")
                if n not in ex: self.bad("the frame in flight of fc[%d] is not ended" % n)
                for m in ("n_tile_data", "task_thread.retval", "task_thread.error"):
                    o = L.off("Dav1dFrameContext", m)
                    self.zero(w, mem, "fc", n * self.fcsz + o, "i32", "fc[%d].%s" % (n, m))
                for off, ty, nm in self.leaves("Dav1dThreadPicture", "p"):
                    if ".allocator." in nm: continue
                    self.zero(w, mem, "od", n * self.tpsz + off, ty, "out_delayed[%d].%s" % (n, nm))
            self.zero(w, mem, "c", L.off("Dav1dContext", "frame_thread.next"), "i32", "frame_thread.next")

FRAME = ["refp[%d]", "ref_mvs_ref[%d]", "cur", "sr_cur", "in_cdf", "out_cdf", "cur_segmap_ref", "prev_segmap_ref", "mvs_ref", "seq_hdr_ref", "frame_hdr_ref"]

def frame_exit(ctx, P, L):
    """ending a frame releases everything it holds, whatever became of it"""
    f = P.fn("dav1d_decode_frame_exit")
    ctx.require(f is not None, "dav1d_decode_frame_exit is gone")
    F = Flush(ctx, P, L, f, 2, 2, 0)
    fo = lambda m: L.off("Dav1dFrameContext", m)
    tgsz = L.size("Dav1dTileGroup")
    for nfc in (1, 2):
        for ret in (-1, 0):
            for err in (0, 1):
                cells = {fo("n_tile_data"): 2, fo("tile"): O("ftile"), fo("c"): O("c"), fo("frame_hdr"): O("hdr"), fo("frame_thread.cf"): O("cf"), fo("frame_thread.cf_sz"): 3,
                         fo("task_thread.error"): err}
                def init(inst, a, ty):
                    if a[1] == ("obj", "fc"): return cells[a[2]] if a[2] in cells else NotImplemented
                    if a[1] == ("obj", "c") and a[2] == L.off("Dav1dContext", "n_fc"): return nfc
                    if a[1] == ("obj", "hdr") and a[2] == L.off("Dav1dFrameHeader", "refresh_context"): return 1
                    if a[1] == ("obj", "c") and ty != "ptr": return 0
                    return NotImplemented
                w = World(P, init, F.call, max_paths=64)
                try: res = w.run(f, {0: O("fc"), 1: ret})
                except Limit: ctx.require(False, "dav1d_decode_frame_exit cannot be evaluated")
                cfg = "n_fc=%d, %s" % (nfc, "failed" if ret else "ended well")
                def bad(m, i=None): ctx.violation(i.where() if i is not None else "%s:%d" % (f.file, f.line), "%s [%s]" % (m, cfg), f.name, "exit")
                ctx.count("frame_exits_evaluated")
                if not res: bad("ending a frame does not return")
                for ev, rv, mem in res:
                    for m in FRAME:
                        for p in ([m % i for i in range(7)] if "%d" in m else [m]):
                            ctx.require(L.find("Dav1dFrameContext", p) is not None, "Dav1dFrameContext.%s is gone" % p)
                            for off, ty, nm in F.leaves("Dav1dFrameContext", p):
                                if ty != "ptr" or ".allocator." in nm: continue
                                ctx.count("cells")
                                if w.read(mem, ("ptr", ("obj", "fc"), off), ty) != 0: bad("a frame that has ended still holds %s" % nm)
                    for j in range(2):
                        ctx.count("cells")
                        if w.read(mem, ("ptr", ("obj", "ftile"), j * tgsz + L.off("Dav1dTileGroup", "data") + L.off("Dav1dData", "ref")), "ptr") != 0:
                            bad("a frame that has ended still holds the data of tile group %d" % j)
                    if w.read(mem, ("ptr", ("obj", "fc"), fo("task_thread.retval")), "i32") != ret: bad("the result of the frame is not recorded")
                    if ret and nfc > 1 and not any(e[0] == "set" and e[2] == O("cf") and e[3] == 0 and e[4] == 3 * 128 * 128 // 2 for e in ev):
                        bad("the coefficients of a failed frame are not cleared for the next one")

def worker(ctx, P, L):
    """a worker counts as stopped (flushed set) only while it sleeps"""
    f = P.fn("dav1d_worker_task")
    ctx.require(f is not None, "dav1d_worker_task is gone")
    CLS = "Dav1dTaskContext.task_thread.flushed"
    def is_flushed(i): 
        c, _ = addr_class(f, i.a[1] if i.op == "store" else i.a[0])
        return c is not None and c.endswith("flushed")
    def step(st, i, vals):
        if i.op == "store" and is_flushed(i):
            v = const_int(i.a[0])
            return frozenset({"?" if v is None else ("parked" if v else "run")})
        return st
    r = CCP(P, f, step=step, init=frozenset({"run"}), join=lambda a, b: a | b)
    n = 0; sets = 0; ok = True
    for bi in sorted(r.reached):
        for i in f.blocks[bi]:
            st = r.at.get(i.id)
            if i.op == "store" and is_flushed(i) and const_int(i.a[0]) not in (0, None): sets += 1
            if st is None or not ("parked" in st or "?" in st): continue
            if i.op == "call":
                cn = i.callee
                if cn and (cn.startswith("pthread_") or cn.startswith("llvm.")): continue
                n += 1
                if cn is None or cn in P.raw:
                    ctx.violation(i.where(), "the worker runs %s while it is still marked as stopped for a flush" % (cn or "decoding work"), f.name, "worker"); ok = False
    ctx.setc("worker_parks", sets)
    if not sets: ctx.violation("%s:%d" % (f.file, f.line), "no worker ever reports that it has stopped", f.name, "worker")
    # the flag is what sends a worker there
    fl = [i for i in f.all_insts() if i.op == "load" and (addr_class(f, i.a[0])[0] or "") == "Dav1dContext.flush"]
    ctx.setc("worker_flag_tests", len(fl))
    if not fl: ctx.violation("%s:%d" % (f.file, f.line), "workers never look at the flush flag", f.name, "worker")

def run(ctx):
    ctx.rule = ("dav1d_flush is partially evaluated (constants propagated through its loops, no execution) for a decoder in which every stream-state cell is occupied, "
                "with 1 and 2 frame contexts, 1 to 3 workers that have not stopped yet, and with references that hold only headers.  When it returns, every pointer and counter "
                "of the stream state must hold its initial value, every frame context must have been ended with an error and emptied, and this must have happened between raising and lowering the "
                "flush flag and after every worker was seen to have stopped.  In dav1d_worker_task a may-analysis shows that a worker is marked as stopped only while it sleeps.")
    P = ctx.prog(); L = Lay(P)
    f = P.fn("dav1d_flush")
    ctx.require(f is not None, "dav1d_flush is gone")
    ctx.setc("stream_state_members", len(CTX))
    for nfc, ntc, h in ((1, 1, 0), (1, 1, 1), (1, 2, 0), (2, 2, 0), (2, 3, 0), (3, 3, 1)):
        ctx.count("worlds")
        Flush(ctx, P, L, f, nfc, ntc, h).go()
    frame_exit(ctx, P, L)
    worker(ctx, P, L)
    ctx.assumptions = ["the handle release functions empty the handle they are given (decided by C02)",
                       "bit-stream state derived from the sequence header (operating point mask, highest spatial layer, pending event flags) is overwritten by the next accepted sequence header before it is used",
                       "the spare frame header block (frame_hdr_ref) may stay allocated: it is cleared before every use"]
