"""The work scheduler on abstract state: one or two frames are taken through decoding by the library's own scheduling code, evaluated by constant
propagation (World); decoding of a tile row and the filters of a superblock row are opaque steps that may fail.  Nothing is executed."""
from decworld import *
from rules.c04 import Heap, buffers_world

STAGES = ("filter_sbrow_deblock_cols", "filter_sbrow_deblock_rows", "filter_sbrow_cdef", "filter_sbrow_resize", "filter_sbrow_lr")
TILE_ERROR, FRAME_ERROR, ALL = 2 ** 31 - 2, 2 ** 32 - 2, 2 ** 32 - 1
INT_MIN = -2 ** 31
def s32(v): return v - 2 ** 32 if v >= 2 ** 31 else v

class Sched:
    """frames: list of configurations (see `frame`).  nest: callout numbers at which another worker takes over until it has nothing left to do
    (one per level); grain "work": callouts are the opaque steps and the acquisitions of the scheduler's mutex, "atomic": every atomic access as well"""
    def __init__(self, ctx, P, L, nfc, ntc, frames, allocs=False, tiles_fail=True, nest=(), nest_fails=False, grain="work", order=None, stale=False):
        self.stale = stale
        self.frames = frames = [frames] if isinstance(frames, dict) else frames
        self.ctx, self.P, self.L, self.nfc, self.ntc = ctx, P, L, nfc, ntc
        self.nest = tuple(nest) if isinstance(nest, (tuple, list)) else () if nest is None else (nest,)
        self.order = order or tuple(range(len(frames)))
        self.nest_fails, self.tiles_fail, self.grain = nest_fails, tiles_fail, grain
        self.workers = nw = max(2, ntc, len(self.nest) + 1)
        heap = Heap(allocs)
        rw = self.rw = self.setup(heap, frames[0], 0)
        for k, cf in enumerate(frames[1:], 1):
            r2 = self.setup(heap, cf, k)
            rw.types["ftile%d" % k] = rw.types["ftile0"]
            for (o, off), v in r2.cells.items():
                if o == "fc" and off < L.size("Dav1dFrameContext"): rw.cells[("fc", off + k * L.size("Dav1dFrameContext"))] = self.move(v, k)
                elif o == "hdr": rw.cells[("hdr", off + k * L.size("Dav1dFrameHeader"))] = v
                elif o == "ftile0": rw.cells[("ftile%d" % k, off)] = v
        rw.types["hdr"] = ("Dav1dFrameHeader", len(frames))
        rw.types.pop("pix0", None)
        rw.max_paths = 4096
        old = rw.init
        def init(inst, a, ty):
            b = a[1]
            if b[0] == "obj" and b[1] in ("sched", "prog", "cdfprog", "refprog", "incdf"): return rw.cells.get((b[1], a[2]), 0)
            if b[0] == "obj" and str(b[1]).startswith("old."): return self.left_over(b[1], a[2], ty)
            if b == ("obj", "tc"): return rw.cells.get(("tc", a[2]), 0)
            return old(inst, a, ty)
        rw.init = init
        rw.objs("tc", "Dav1dTaskContext", nw)
        for k in range(nw):
            rw.set("tc", "c", O("c"), k); rw.set("tc", "task_thread.ttd", O("c", L.off("Dav1dContext", "task_thread")), k); rw.set("tc", "rt.rf", rw.at("fc", "rf"), k)
        rw.set("c", "task_thread.first", self.order[0])
        M = rw.models
        M["dav1d_decode_tile_sbrow"] = self.tile
        M["dav1d_cdf_thread_update"] = lambda rw, w, i, av, mem, ev: ev.append(("work", "cdf", self.where(w, mem, av[2])[1], i, self.where(w, mem, av[2])[0])) or UNK
        M["dav1d_decode_frame_exit"] = lambda rw, w, i, av, mem, ev: ev.append(("exit", i, self.frame_of(w, mem, av[0]), av[1])) or ("into", "dav1d_decode_frame_exit")
        M["abort"] = lambda rw, w, i, av, mem, ev: self.aborts.append((i, list(ev))) or "stop"
        M["pthread_cond_wait"] = self.wait
        M["pthread_mutex_lock"] = self.lock; M["pthread_mutex_unlock"] = self.unlock
        M["pthread_cond_signal"] = M["pthread_cond_broadcast"] = lambda rw, w, i, av, mem, ev: ev.append(("signal", i, av[0])) or 0
        for n in ("dav1d_msac_init", "dav1d_refmvs_init_frame", "dav1d_cdf_thread_copy", "prctl", "dav1d_refmvs_tile_sbrow_init", "dav1d_cdf_thread_init_static"): M[n] = lambda *a: 0
        oldc = rw.call
        def call(w, i, av, mem, ev):
            if i.callee is None:
                tg = ev[-1][3] if ev and ev[-1][0] == "call" else None
                s = tg[1][1][5:] if w.ptr(tg) and tg[1][0] == "g" and str(tg[1][1]).startswith("slot_") else rw.slot(i)
                if s == "filter_sbrow": return ("into", "dav1d_filter_sbrow_%dbpc" % (16 if frames[0].get("hbd") else 8))
                if s in STAGES: return self.stage(s, w, i, av, mem, ev)
                if s == "save_tmvs": ev.append(("mvs", "save", (av[6], av[4], av[7], av[5]), i)); return UNK
                if s == "load_tmvs": ev.append(("mvs", "load", tuple(av[1:6]), i)); return UNK
            elif i.callee.startswith("dav1d_filter_sbrow_") and i.callee[6:].rsplit("_", 1)[0] in STAGES: return self.stage(i.callee[6:].rsplit("_", 1)[0], w, i, av, mem, ev)
            return oldc(w, i, av, mem, ev)
        rw.call = call
        self.TTDC = rw.at("c", "task_thread.cond"); self.TTDL = rw.at("c", "task_thread.lock")
        self.stuck = []; self.aborts = []
    def setup(self, heap, cf, k):
        """the world of one frame, at index 0; w, h, sr: coded and upscaled size; cols, rows: tiling; deblock 0 / 1 luma rows / 2 luma columns; cdef, lr, hbd, sb128, layout; refresh: the
        frame keeps its probability tables, from tile `update`, unless update_set is 0; typ 1: inter frame with refs {n: frame index or (parsed, complete)} (default: complete) and
        low(r, n): lowest rows (luma, chroma) that row r uses of reference n, or None; incdf: frame index or progress value its tables come from"""
        ctx, P, L, nfc, ntc = self.ctx, self.P, self.L, self.nfc, self.ntc
        rw = buffers_world(ctx, P, L, nfc, ntc, cf, heap)
        S, H = (lambda p, v: rw.set("fc", p, v)), (lambda p, v: rw.set("hdr", p, v))
        H("refresh_context", cf.get("refresh", 0)); H("tiling.update", cf.get("update", 0)); H("tiling.n_bytes", cf.get("n_bytes", 0))
        H("loopfilter.level_y[0]", 5 if cf.get("deblock", 1) == 1 else 0); H("loopfilter.level_y[1]", 5 if cf.get("deblock", 1) == 2 else 0)
        rw.set("seq", "cdef", cf.get("cdef", 1)); rw.set("seq", "ref_frame_mvs", cf.get("mvs", 0)); H("use_ref_frame_mvs", cf.get("mvs", 0))
        for p in range(3): H("restoration.type[%d]" % p, cf.get("lr", 0) if cf.get("lr_planes", 7) >> p & 1 else 0)
        S("rf.iw8", (cf["w"] + 7) >> 3); S("rf.ih8", (cf["h"] + 7) >> 3)
        if self.stale: self.reused(S, k)
        n = cf["cols"] * cf["rows"]
        S("task_thread.task_counter", (n + rw.cells[("fc", L.off("Dav1dFrameContext", "sbh"))]) * (2 if nfc > 1 else 1))
        S("task_thread.update_set", 0)
        S("n_tile_data", 1)
        if nfc > 1: S("sr_cur.progress", O("prog", 16 * k)); S("out_cdf.progress", O("cdfprog", 16 * k))
        rw.set("ftile0", "start", 0); rw.set("ftile0", "end", n - 1); rw.set("ftile0", "data.data", O("pkt")); rw.set("ftile0", "data.sz", cf.get("data", 100000))
        for s in STAGES: S("bd_fn." + s, ("ptr", ("g", "slot_" + s), 0))
        for s in ("filter_sbrow",):
            if L.off("Dav1dFrameContext", "bd_fn." + s) is not None: S("bd_fn." + s, ("ptr", ("g", "slot_" + s), 0))
        if cf.get("typ"):
            for r in range(7):
                S("refp[%d].p.p.h" % r, cf.get("refh", cf["h"])); S("refp[%d].p.p.w" % r, cf.get("sr", cf["w"])); S("refp[%d].p.data[0]" % r, O("refpix%d" % r))
                v = cf.get("refs", {}).get(r, (ALL, ALL))
                if nfc > 1:
                    S("refp[%d].progress" % r, O("prog", 16 * v) if isinstance(v, int) else O("refprog", 8 * (7 * k + r)))
        if nfc > 1 and cf.get("incdf") is not None:
            S("in_cdf.progress", O("cdfprog", 16 * cf["incdf"][1]) if isinstance(cf["incdf"], tuple) else O("incdf", 16 * k))
        return rw
    def reused(self, S, k):
        """the frame context decoded a larger frame before: its buffers are kept with what that frame left in them"""
        S("task_thread.tile_tasks[0]", O("old.tiles%d" % k)); S("task_thread.tile_tasks[1]", O("old.tiles%d" % k, 32 * self.L.size("Dav1dTask"))); S("task_thread.num_tile_tasks", 64)
        S("task_thread.tasks", O("old.rows%d" % k)); S("task_thread.num_tasks", 256)
        S("frame_thread.frame_progress", O("old.progress%d" % k)); S("frame_thread.copy_lpf_progress", O("old.copied%d" % k)); S("frame_thread.prog_sz", 8)
        S("frame_thread.deblock_progress", 9); S("frame_thread.entropy_progress", 9); S("frame_thread.next_tile_row[0]", 3); S("frame_thread.next_tile_row[1]", 3)
        S("task_thread.done[0]", 1); S("task_thread.done[1]", 1)
    def left_over(self, o, off, ty):
        if o.startswith(("old.progress", "old.copied")): return -1
        n = self.L.name("Dav1dTask", off % self.L.size("Dav1dTask")) if off is not None else None
        return {"deps_skip": 7, "sby": 9, "recon_progress": 1, "deblock_progress": 9, "type": 3, "frame_idx": 0, "next": O("old.task")}.get(n, UNK)
    def move(self, v, k):
        """a pointer to the shared objects of frame 0, for frame k"""
        if isinstance(v, tuple) and v[0] == "ptr" and v[1][0] == "obj":
            if v[1][1] == "hdr": return O("hdr", v[2] + k * self.L.size("Dav1dFrameHeader"))
            if v[1][1] == "ftile0": return O("ftile%d" % k, v[2])
        return v
    def frame_of(self, w, mem, p):
        """index of the frame a frame or task context stands for"""
        if w.ptr(p) and p[1] == ("obj", "tc") and p[2] is not None:
            p = w.read(mem, ("ptr", p[1], p[2] // self.L.size("Dav1dTaskContext") * self.L.size("Dav1dTaskContext") + self.L.off("Dav1dTaskContext", "f")), "ptr")
        if w.ptr(p) and p[1] == ("obj", "fc") and p[2] is not None: return p[2] // self.L.size("Dav1dFrameContext")
        return None
    # --- scheduler state kept in memory: level that runs, callouts so far, main waits, locks held per level
    def lv(self, w, mem): return w.read(mem, O("sched", 0), "i32")
    def where(self, w, mem, p):
        """(frame, tile) a pointer into the tile states belongs to"""
        for k in range(len(self.frames)):
            b = w.read(mem, self.rw.at("fc", "ts", k), "ptr")
            if w.ptr(p) and w.ptr(b) and p[1] == b[1] and p[2] is not None: return k, (p[2] - b[2]) // self.L.size("Dav1dTileState")
        return None, None
    def callout(self, w, mem, ev, i, then):
        """another worker may run here until it has nothing left to do"""
        n = w.read(mem, O("sched", 4), "i32"); mem.store(O("sched", 4), n + 1)
        lv = self.lv(w, mem)
        if lv < len(self.nest) and n == self.nest[lv]:
            k = lv + 1
            mem.store(O("sched", 0), k); mem.store(O("sched", 16 + 4 * k), 0)
            mem.store(self.rw.at("tc", "task_thread.die", k), 0)
            ev.append(("switch", k, i))
            return ("into", "dav1d_worker_task", [self.tc(k)], then)
        return then
    def tc(self, k): return O("tc", self.L.size("Dav1dTaskContext") * k)
    def atomic(self, w, i, mem, ev):
        if self.grain != "atomic" or not ev: return None
        if w.read(mem, O("sched", 16 + 4 * self.lv(w, mem)), "i32") or not self.running(w, mem): return None
        r = self.callout(w, mem, ev, i, None)
        return ("into", r[1], r[2]) if isinstance(r, tuple) else None
    def running(self, w, mem): return w.read(mem, O("sched", 12), "i32")
    def tile(self, rw, w, i, av, mem, ev):
        t = av[0]
        L = self.L; o = lambda p: ("ptr", t[1], t[2] + L.off("Dav1dTaskContext", p))
        by = w.read(mem, o("by"), "i32"); tsp = w.read(mem, o("ts"), "ptr"); ps = w.read(mem, o("frame_thread.pass"), "i32")
        fr, ts = self.where(w, mem, tsp)
        f2 = self.frame_of(w, mem, t)
        if fr is None or f2 != fr: ts = None; fr = f2 if f2 is not None else 0
        cf = self.frames[fr]
        row = by >> (4 + cf.get("sb128", 0)) if isinstance(by, int) else None
        ev.append(("work", "tile", (ts, row, ps), i, fr))
        if ps == 1 and cf.get("typ") and ts is not None:
            b = w.read(mem, ("ptr", tsp[1], tsp[2] + L.off("Dav1dTileState", "lowest_pixel")), "ptr")
            h = lambda p: rw.cells[("hdr", fr * L.size("Dav1dFrameHeader") + L.off("Dav1dFrameHeader", p))]
            if w.ptr(b) and b[2] is not None:
                first = h("tiling.row_start_sb[%d]" % (ts // cf["cols"]))
                for n in range(7):
                    low = cf["low"](row, n) if "low" in cf else None
                    for k in (0, 1): mem.store(("ptr", b[1], b[2] + 56 * (row - first) + 8 * n + 4 * k), (low or (INT_MIN, INT_MIN))[k])
        r = self.callout(w, mem, ev, i, 1 if self.nest_fails else 0)
        if isinstance(r, tuple): return r
        return ("alts", [(0, None), (1, "decoding of a tile row fails")]) if self.tiles_fail and (self.tiles_fail is True or fr in self.tiles_fail) else 0
    def stage(self, s, w, i, av, mem, ev):
        ev.append(("work", s, av[1], i, self.frame_of(w, mem, av[0])))
        return self.callout(w, mem, ev, i, UNK)
    def held(self, w, mem, n):
        a = O("sched", 16 + 4 * self.lv(w, mem)); mem.store(a, max(0, w.read(mem, a, "i32") + n))
    def lock(self, rw, w, i, av, mem, ev):
        ev.append(("lock", i, av[0]))
        r = 0
        if self.running(w, mem) and w.read(mem, O("sched", 16 + 4 * self.lv(w, mem)), "i32") == 0: r = self.callout(w, mem, ev, i, 0)
        a = O("sched", 16 + 4 * (self.lv(w, mem) - (1 if isinstance(r, tuple) else 0))); mem.store(a, w.read(mem, a, "i32") + 1)
        return r
    def unlock(self, rw, w, i, av, mem, ev): ev.append(("unlock", i, av[0])); self.held(w, mem, -1); return 0
    def wait(self, rw, w, i, av, mem, ev):
        lv = self.lv(w, mem)
        ev.append(("wait", i, av[0]))
        if av[0] == self.TTDC:
            ev.append(("park", lv, i))
            mem.store(rw.at("tc", "task_thread.die", lv), 1)
            if lv > 0: mem.store(O("sched", 0), lv - 1)
            return 0
        n = w.read(mem, O("sched", 8), "i32")
        if n: self.stuck.append((i, ev)); return "stop"
        mem.store(O("sched", 8), 1); mem.store(O("sched", 12), 1); mem.store(O("sched", 16), 0)
        mem.store(rw.at("tc", "task_thread.die", 0), 0)
        return ("into", "dav1d_worker_task", [self.tc(0)], 0)

    # --- whole runs
    def world(self):
        rw = self.rw
        return World(rw.P, rw.init, rw.call, max_paths=rw.max_paths, atomic=self.atomic if self.grain == "atomic" else None)
    def single(self):
        """decoding as the calling thread drives it (one frame context)"""
        w = self.world(); f = self.P.fn("dav1d_decode_frame")
        self.ctx.require(f is not None, "dav1d_decode_frame is gone")
        self.cut = w, []
        try: res = w.run(f, {0: O("fc")})
        except Limit as e: self.cut = w, getattr(e, "cut", []); raise
        self.ctx.count("paths", len(res)); self.ctx.count("evaluated_steps", w.steps)
        return w, res
    def framed(self, steps=()):
        """frame threading: the frames are queued, then a worker takes them to their end.  steps: stores made by other frames once nothing is left to do, after which the worker goes on"""
        rw = self.rw; P = self.P; L = self.L
        w = self.world()
        for fn in ("dav1d_task_frame_init", "dav1d_worker_task"): self.ctx.require(P.fn(fn) is not None, fn + " is gone")
        cur = [([], Mem())]
        self.cut = w, []
        def go(fn, args, pre=None):
            nonlocal cur
            out = []
            for ev, mem in cur:
                if pre: mem = mem.copy(); pre(mem)
                try: res = w.run(P.fn(fn), args, mem)
                except Limit as e: self.cut = w, [(ev + x, m) for x, m in getattr(e, "cut", [])]; raise
                for ev2, v, m2 in res: out.append((ev + ev2, m2))
                self.ctx.count("evaluated_steps", w.steps)
            cur = out
        m0 = cur[0][1]
        for k, cf in enumerate(self.frames):
            for r in range(7):
                v = cf.get("refs", {}).get(r, (ALL, ALL))
                if not isinstance(v, int):
                    for j in (0, 1): m0.store(O("refprog", 8 * (7 * k + r) + 4 * j), s32(v[j]))
            if isinstance(cf.get("incdf"), int): m0.store(O("incdf", 16 * k), cf["incdf"])
        for k in self.order: go("dav1d_task_frame_init", {0: O("fc", k * L.size("Dav1dFrameContext"))})
        def start(mem): mem.store(O("sched", 12), 1)
        go("dav1d_worker_task", {0: self.tc(0)}, start)
        for st in steps:
            def pre(mem, st=st):
                for a, v in st: mem.store(a, s32(v))
                mem.store(rw.at("tc", "task_thread.die", 0), 0); mem.store(O("sched", 16), 0)
                # what the worker that published them does: search the queues again from the first frame on
                mem.store(rw.at("c", "task_thread.cur"), 0)
                for k in range(len(self.frames)): mem.store(rw.at("fc", "task_thread.task_cur_prev", k), 0)
            for j, (ev, mem) in enumerate(cur): cur[j] = (ev + [("later", st)], mem)
            go("dav1d_worker_task", {0: self.tc(0)}, pre)
        self.ctx.count("paths", len(cur))
        return w, [(ev, None, mem) for ev, mem in cur]

RELEASE, ACQUIRE = (5, 6, 7), (4, 6, 7)

class Frame:
    """what is finished of one frame, and what may be published of it"""
    def __init__(self, S, w, mem, k, report):
        self.S, self.w, self.mem, self.k, self.report = S, w, mem, k, report
        cf = self.cf = S.frames[k]; rw = S.rw; L = S.L
        fo, ho = k * L.size("Dav1dFrameContext"), k * L.size("Dav1dFrameHeader")
        g = lambda p: rw.cells[("fc", fo + L.off("Dav1dFrameContext", p))]
        self.sbh, self.px = g("sbh"), g("sb_step") * 4
        h = lambda p: rw.cells[("hdr", ho + L.off("Dav1dFrameHeader", p))]
        self.cols, self.rows = cf["cols"], cf["rows"]
        self.start = [h("tiling.row_start_sb[%d]" % j) for j in range(cf["rows"] + 1)]
        self.passes = (0,) if S.nfc == 1 else (1, 2)
        self.last = self.passes[-1]
        db = bool(cf.get("deblock", 1)); cd = bool(cf.get("cdef", 1)); lr = bool(cf.get("lr", 0)) and bool(cf.get("lr_planes", 7)); rs = cf.get("sr", cf["w"]) != cf["w"]
        self.level = db
        self.needed = [s for s, on in zip(STAGES, (db, db or cd or lr, cd, rs, lr)) if on]
        self.done = {}; self.begun = {}; self.failed = []; self.judged = 0; self.cdf_good = False
        o = lambda p: fo + L.off("Dav1dFrameContext", p)
        self.cell = {("obj", "fc"): {o("frame_thread.deblock_progress"): "deblock", o("frame_thread.entropy_progress"): "entropy", o("task_thread.task_counter"): "counter", o("task_thread.done[0]"): "done0",
                                     o("task_thread.done[1]"): "done1"}, ("obj", "prog"): {16 * k: "prog0", 16 * k + 4: "prog1"}, ("obj", "cdfprog"): {16 * k: "cdfprog"}}
        rd = lambda p: w.read(mem, rw.at("fc", p, k), "ptr")
        self.arr = {}
        psz = w.read(mem, rw.at("fc", "frame_thread.prog_sz", k), "i32")
        for p in ("frame_progress", "copy_lpf_progress"):
            b = rd("frame_thread." + p)
            if w.ptr(b) and isinstance(psz, int): self.arr[p] = (b[1], b[2], 4 * psz)
        self.ts = rd("ts"); self.tsz = L.size("Dav1dTileState"); self.tp = L.off("Dav1dTileState", "progress[0]")
        self.seen = set(); self.given = {}
    def tell(self, prop, kind, i, msg): self.report(prop, kind, i, msg, self)
    def trow(self, r):
        for k in range(self.rows):
            if self.start[k] <= r < self.start[k + 1]: return k
    def tiles(self, r):
        k = self.trow(r)
        return [] if k is None else [k * self.cols + c for c in range(self.cols)]
    def span(self, t): return self.start[t // self.cols], min(self.start[t // self.cols + 1], self.sbh)
    def decoded(self, r, ps): return all(self.done.get(("tile", t, r, ps)) == "ok" for t in self.tiles(r))
    def filtered(self, r): return self.decoded(r, self.last) and all(self.done.get((s, r)) == "ok" for s in self.needed)
    def begin(self, e, J):
        _, what, arg, i = e[:4]
        if what == "tile":
            t, r, ps = arg
            key = ("tile", t, r, ps)
            if None in arg[:2] or ps is None: self.tell("C27", "tile", i, "a tile row is decoded whose tile, row or pass cannot be told"); return key
            a, b = self.span(t) if 0 <= t < self.cols * self.rows else (0, 0)
            if not a <= r < b: self.tell("C27", "tile", i, "a superblock row outside the tile is decoded")
            if ps not in self.passes: self.tell("C27", "pass", i, "a tile row is decoded in a pass that the threading mode does not have")
            if key in self.begun: self.tell("C27", "twice", i, "a tile row is decoded twice in one pass")
            if r > a and self.done.get(("tile", t, r - 1, ps)) != "ok": self.tell("C08", "early", i, "a tile row is decoded before the row above it is finished")
            if ps == 2 and self.done.get(("tile", t, r, 1)) != "ok": self.tell("C08", "early", i, "a tile row is reconstructed before its symbols are decoded")
            if self.S.nfc > 1 and self.cf.get("typ"): self.refs(r, ps, i, J)
            if self.S.nfc > 1 and self.cf.get("incdf") is not None:
                v = self.cf["incdf"]
                ok = J[v[1]].cdf_good if isinstance(v, tuple) else self.given.get("incdf", v) == 1
                if not ok: self.tell("C08", "early", i, "a tile is decoded before the probability tables it starts from are known to be good")
        elif what in STAGES:
            r = arg; key = (what, r)
            if not isinstance(r, int) or not 0 <= r < self.sbh: self.tell("C27", "row", i, "%s runs for a row outside the frame" % what); return key
            if key in self.begun: self.tell("C27", "twice", i, "%s runs twice for one row" % what)
            if what not in self.needed and what not in STAGES[:2]: self.tell("C27", "unneeded", i, "%s runs although the frame does not use it" % what)
            if what in self.needed:
                if not self.decoded(r, self.last): self.tell("C08", "early", i, "%s runs before every tile of its row is decoded" % what)
                for s in self.needed[:self.needed.index(what)]:
                    if self.done.get((s, r)) != "ok": self.tell("C27", "order", i, "%s runs before %s of the same row" % (what, s))
                if r and what == STAGES[1] and self.level and self.done.get((what, r - 1)) != "ok": self.tell("C08", "early", i, "%s runs before the row above has been deblocked" % what)
                if r and what == STAGES[2] and self.done.get((STAGES[1], r - 1)) != "ok": self.tell("C08", "early", i, "%s runs before the deblocked pixels of the row above are kept" % what)
        elif what == "cdf":
            key = ("cdf",)
            if key in self.begun: self.tell("C27", "twice", i, "the probability tables of a frame are updated twice")
            u = self.cf.get("update", 0)
            if not self.cf.get("refresh"): self.tell("C27", "unneeded", i, "the probability tables are updated for a frame that does not refresh them")
            if arg != u: self.tell("C27", "cdf", i, "the probability tables are taken from another tile than the one the header names")
            else:
                a, b = self.span(u)
                if any(self.done.get(("tile", u, r, self.passes[0])) != "ok" for r in range(a, b)): self.tell("C08", "early", i, "the probability tables are taken from a tile that is not finished")
        else: key = (what, arg, id(e))
        self.begun[key] = i; self.judged += 1
        return key
    def need(self, r, n):
        """rows of reference n that reconstructing row r needs (0: none)"""
        low = self.cf["low"](r, n) if "low" in self.cf else None
        if low is None: return 0
        ss = self.cf.get("layout", 1) == 1
        v = [x + 8 for x in low[:1] if x != INT_MIN] + [x * (2 if ss else 1) + 8 for x in low[1:] if x != INT_MIN]
        return max(1, min(max(v), self.cf.get("refh", self.cf["h"]))) if v else 0
    def refs(self, r, ps, i, J):
        for n in range(7):
            v = self.cf.get("refs", {}).get(n, (ALL, ALL))
            if isinstance(v, int):
                o = J[v]
                if ps == 1:
                    if not all(o.decoded(q, 1) for q in range(min(r + 1, o.sbh))): self.tell("C08", "early", i, "a row is parsed before the same row of a reference frame is")
                else:
                    need = self.need(r, n)
                    if not all(o.filtered(q) for q in range(o.sbh) if q * o.px < need): self.tell("C08", "early", i, "a row is reconstructed before the rows of a reference frame it uses are complete")
            else:
                have = self.given.get((n, 0 if ps == 1 else 1), v[0 if ps == 1 else 1])
                need = (r + 1) * self.px if ps == 1 else self.need(r, n)
                if need and (have < need or have == FRAME_ERROR): self.tell("C08", "early", i, "a row is %s although the reference frame is not there" % ("parsed" if ps == 1 else "reconstructed") if have != FRAME_ERROR else "a row is decoded from a reference frame that failed")
            self.judged += 1
    def finish(self, key, how):
        self.done[key] = how
        if how == "fail": self.failed.append("a tile row fails")
    def name(self, a):
        w = self.w
        if not w.ptr(a) or a[2] is None: return None
        d = self.cell.get(a[1])
        if d is not None: return d.get(a[2])
        for p, (b, o, n) in self.arr.items():
            if a[1] == b and o <= a[2] < o + n: return (p, (a[2] - o) // 4)
        if w.ptr(self.ts) and a[1] == self.ts[1] and a[2] is not None:
            k, r = divmod(a[2] - self.ts[2], self.tsz)
            if r in (self.tp, self.tp + 4): return ("tile", k, (r - self.tp) // 4)
        return None
    def access(self, e):
        i, a, v = e[1], e[2], e[3]
        n = self.name(a)
        if n is None: return
        first = a not in self.seen; self.seen.add(a)
        order = i.x[0]
        bad = lambda msg: self.tell("C08", "publish", i, msg)
        if n != "counter" and not first or n in ("prog0", "prog1", "cdfprog"):
            if order not in RELEASE: self.tell("C08", "order", i, "progress is published by a store that does not release the work before it")
        self.judged += 1
        u = v & 0xffffffff if isinstance(v, int) else None
        if n == "cdfprog" and u == 1: self.cdf_good = True
        if n in ("prog0", "prog1"):
            if u is None: bad("an undetermined row is published"); return
            if u == FRAME_ERROR: return
            ps = self.passes[0] if n == "prog0" else self.last
            rows = self.sbh if u == ALL else min(u // self.px, self.sbh) if u % self.px == 0 else None
            if rows is None: bad("a row is published that does not end a superblock row"); return
            for r in range(rows):
                if n == "prog0" and not self.decoded(r, ps): bad("rows are published as parsed that are not"); break
                if n == "prog1" and not self.filtered(r): bad("rows of the frame are published as complete that are not"); break
            if u == ALL and self.failed and n == "prog1": bad("a frame is published as complete although decoding it failed")
        elif n == "cdfprog":
            if u == TILE_ERROR: return
            if u != 1: bad("the probability tables are published with an unknown state") if not (first and u == 0) else None; return
            if self.cf.get("update_set", 1) and self.done.get(("cdf",)) != "ok": bad("the probability tables are published before they are updated")
        elif n == "deblock":
            if u in (TILE_ERROR, 0): return
            if u is None or u > self.sbh: bad("deblocking progress beyond the frame is published"); return
            for r in range(u):
                if any(self.done.get((s, r)) != "ok" for s in STAGES[:2]): bad("rows are published as deblocked that are not"); break
        elif n == "entropy":
            if u in (TILE_ERROR, 0): return
            if u is None or u > self.sbh: bad("parsing progress beyond the frame is published"); return
            for r in range(u):
                if not self.decoded(r, 1): bad("rows are published as parsed that are not"); break
        elif isinstance(n, tuple) and n[0] == "tile":
            if u == TILE_ERROR: return
            if not 0 <= n[1] < self.cols * self.rows: return
            a0, b0 = self.span(n[1])
            if u is None or not a0 <= u <= b0: bad("tile progress outside the tile is published"); return
            ps = self.passes[0] if n[2] == 1 else self.last
            for r in range(a0, u):
                if self.done.get(("tile", n[1], r, ps)) != "ok": bad("tile rows are published as decoded that are not"); break
        elif isinstance(n, tuple):
            if e[0] != "rmw" or e[1].x[1] != "or" or u is None: return
            for b in range(32):
                if u >> b & 1:
                    r = 32 * n[1] + b
                    if r >= self.sbh: bad("progress of a row outside the frame is published"); continue
                    if self.failed or self.J.broken(self): continue
                    if n[0] == "frame_progress" and not self.filtered(r): bad("a row is published as filtered that is not")
                    if n[0] == "copy_lpf_progress" and self.done.get((STAGES[1], r)) != "ok": bad("the deblocked pixels of a row are published before they are kept")
        elif n in ("done0", "done1"):
            if u == 1 and not self.failed and not self.J.broken(self):
                if n == "done1" and not all(self.decoded(r, 1) for r in range(self.sbh)) or n == "done0" and not all(self.filtered(r) for r in range(self.sbh)): bad("a pass is reported as done that is not")
    # --- the end of the path
    def ended(self, i0, ev):
        """the frame's completion was reported, with the right outcome"""
        S, w, mem, k = self.S, self.w, self.mem, self.k; rw = S.rw
        g = lambda p: rw.get(w, mem, "fc", p, k)
        u = lambda v: v & 0xffffffff if isinstance(v, int) else v
        bad = lambda msg: self.tell("C08", "end", i0, msg + (" [after: %s]" % self.failed[0] if self.failed else ""))
        broken = self.J.broken(self)
        ex = [e for e in ev if e[0] == "exit" and e[2] == k]
        if not ex: bad("the frame is never brought to an end"); return
        if S.nfc > 1 and len(ex) > 1: bad("the frame is brought to an end twice")
        ret = g("task_thread.retval")
        if not isinstance(ret, int) or ret > 0 or self.failed and ret == 0 or not self.failed and not broken and ret: bad("a frame that failed is reported as good" if self.failed else "a good frame is reported as failed")
        fail = ret != 0
        if g("n_tile_data") != 0: bad("the frame keeps its tile data after its end, so its end is not seen")
        if S.ntc > 1 and (S.nfc > 1 or not fail):
            if g("task_thread.task_counter") != 0: bad("tasks are left when the frame has ended")
        if S.nfc > 1:
            j = max(j for j, e in enumerate(ev) if e[0] == "exit" and e[2] == k)
            if not any(e[0] == "signal" and e[2] == rw.at("fc", "task_thread.cond", k) for e in ev[j:]): bad("nobody is woken when the frame has ended")
            p0, p1, cp = (u(w.read(mem, O(o, f), "i32")) for o, f in (("prog", 16 * k), ("prog", 16 * k + 4), ("cdfprog", 16 * k)))
            if fail:
                if p1 != FRAME_ERROR: bad("the rows of a failed frame are not marked as failed")
                if p0 != FRAME_ERROR and p0 != ALL: bad("the parsed rows of a failed frame are not marked as failed")
                if p0 == ALL and not all(self.decoded(r, 1) for r in range(self.sbh)): bad("a frame whose parsing failed is marked as parsed")
            else:
                if p0 != ALL or p1 != ALL: bad("the rows of a finished frame are not all published")
            if self.cf.get("refresh"):
                if cp == 0: bad("the probability tables of the frame are never reported")
                if not fail and cp != 1: bad("the probability tables of a good frame are reported as failed")
                if fail and cp != TILE_ERROR: bad("the probability tables of a failed frame are reported as good")
        if not fail:
            for r in range(self.sbh):
                for t in self.tiles(r):
                    for ps in self.passes:
                        if self.done.get(("tile", t, r, ps)) != "ok": self.tell("C27", "missing", i0, "a tile row is never decoded"); return
                for s in self.needed:
                    if self.done.get((s, r)) != "ok": self.tell("C27", "missing", i0, "%s never runs for a row of a frame that uses it" % s); return
            if bool(self.cf.get("refresh") and self.cf.get("update_set", 1)) != (self.done.get(("cdf",)) == "ok"): self.tell("C27", "missing", i0, "the probability tables are never updated")

class Judge:
    """replays the events of one path and holds every publication and every start of work to the work that is finished by then"""
    def __init__(self, S, w, ev, mem, report, bad=None):
        self.S = S; self.w, self.mem = w, mem
        self.F = [Frame(S, w, mem, k, report) for k in range(len(S.frames))]
        for f in self.F:
            f.J = self
            if bad: f.failed.append(bad)
        self.run(ev)
        self.judged = sum(f.judged for f in self.F)
    def broken(self, f):
        """may frame f fail for the sake of another?"""
        for v in list(f.cf.get("refs", {}).values()) + [f.cf.get("incdf")]:
            o = v[1] if isinstance(v, tuple) and v[0] == "frame" else v if isinstance(v, int) and v is not f.cf.get("incdf") else None
            if o is not None and (self.F[o].failed or self.broken(self.F[o])): return True
            if isinstance(v, tuple) and v[0] != "frame" and FRAME_ERROR in v: return True
        if f.cf.get("incdf") == TILE_ERROR or f.given.get("incdf") == TILE_ERROR: return True
        return any(x == FRAME_ERROR for kk, x in f.given.items() if isinstance(kk, tuple))
    def run(self, ev):
        pend = []; depth = 0; of = [0]
        for k, e in enumerate(ev):
            nx = ev[k + 1] if k + 1 < len(ev) else None
            if e[0] == "work":
                if e[4] is None or not 0 <= e[4] < len(self.F): self.F[0].tell("C27", "frame", e[3], "work is done for a frame that cannot be told"); continue
                f = self.F[e[4]]; key = f.begin(e, self.F)
                if nx is not None and nx[0] == "switch": pend.append((depth, f, key)); continue
                f.finish(key, "fail" if nx is not None and nx[0] == "alt" and nx[3] else "ok")
            elif e[0] == "switch":
                if not (k and ev[k - 1][0] == "work"): pend.append((depth, None, None))
            elif e[0] == "enter":
                if e[2] == "dav1d_worker_task": depth += 1
                a = e[3][0] if e[3] else None       # the frame a function works for
                of.append(a[2] // self.S.L.size("Dav1dFrameContext") if isinstance(a, tuple) and a[:2] == ("ptr", ("obj", "fc")) and a[2] is not None else of[-1])
            elif e[0] == "leave":
                if len(of) > 1: of.pop()
                if e[2] != "dav1d_worker_task": continue
                depth -= 1
                if pend and pend[-1][0] == depth:
                    _, f, key = pend.pop()
                    if f is not None: f.finish(key, "fail" if self.S.nest_fails and key[0] == "tile" else "ok")
            elif e[0] == "alt" and e[3] and not (k and ev[k - 1][0] == "work"): self.F[of[-1]].failed.append(e[3])
            elif e[0] == "later":
                for a, v in e[1]:
                    if a[1] == ("obj", "refprog"):
                        n, j = divmod(a[2], 8); f, n = divmod(n, 7); self.F[f].given[(n, j // 4)] = v
                    elif a[1] == ("obj", "incdf"): self.F[a[2] // 16].given["incdf"] = v
            elif e[0] in ("store", "rmw"):
                for f in self.F: f.access(e)
    def ended(self, i0, ev):
        for f in self.F: f.ended(i0, ev)
        if self.S.nfc == 1 and self.S.ntc == 1: self.vectors(i0, ev)
    def vectors(self, i0, ev):
        """without threads the motion vectors of a superblock row are projected before and saved after the whole row"""
        f = self.F[0]; cf = f.cf
        bw8 = (cf["w"] + 7) >> 3
        first, last = {}, {}
        for k, e in enumerate(ev):
            if e[0] == "work" and e[1] == "tile" and isinstance(e[2][1], int): first.setdefault(e[2][1], k); last[e[2][1]] = k
        n8 = f.px // 8
        for what, need in (("load", cf.get("mvs")), ("save", cf.get("typ") in (1, 3))):
            at = [(k, e) for k, e in enumerate(ev) if e[0] == "mvs" and e[1] == what]
            for r in range(f.sbh):
                h = [(k, e) for k, e in at if e[2][3 if what == "load" else 2] == r * n8]
                self.judged += 1
                if r not in last: continue
                if what == "load" and bool(h) != bool(need) or what == "save" and bool(h) != bool(need and f.done.get(("tile", f.tiles(r)[-1], r, 0)) == "ok"): f.tell("C27", "mvs", h[0][1][3] if h else i0, "the motion vectors of a row are %s%s" % ("" if h else "not ", "projected" if what == "load" else "saved"))
                for k, e in h:
                    a = e[2]
                    if what == "load" and (k > first[r] or a[0] != f.trow(r) or a[1] != 0 or a[2] < bw8): f.tell("C27", "mvs", e[3], "the motion vectors of the references are not projected for the whole row before it is decoded")
                    if what == "save" and (k < last[r] or a[0] != 0 or a[1] < bw8): f.tell("C27", "mvs", e[3], "the motion vectors of a row are not saved as a whole once it is decoded")

def lows(kind):
    """lowest rows used of the references, by shape of the motion vectors"""
    return {"none": lambda r, n: None, "near": lambda r, n: (64 * r + 20, 32 * r + 10) if n in (0, 3) else None, "luma": lambda r, n: (64 * r + 56, INT_MIN) if n == 0 else None,
            "chroma": lambda r, n: (INT_MIN, 32 * r + 29) if n == 0 else None, "far": lambda r, n: (1000, 500) if n == 0 else None, "above": lambda r, n: (-50, -20) if n == 0 else None}[kind]

FRAMES = [
    dict(w=128, h=192, cols=2, rows=2, refresh=1, update=3), dict(w=64, h=192, cols=1, rows=1, refresh=1), dict(w=64, h=128, cols=1, rows=2, deblock=0, cdef=1), dict(w=64, h=128, cols=1, rows=1, deblock=0, cdef=0),
    dict(w=64, h=128, sr=128, cols=1, rows=1, deblock=0, cdef=0), dict(w=64, h=128, sr=128, cols=1, rows=1, deblock=2, cdef=1, lr=1), dict(w=64, h=128, cols=1, rows=1, deblock=0, cdef=0, lr=1, lr_planes=2)]
MORE = [
    dict(w=64, h=64, cols=1, rows=1), dict(w=192, h=192, cols=3, rows=1, refresh=1, update=1), dict(w=64, h=192, cols=1, rows=3, refresh=1, update=1), dict(w=128, h=192, cols=2, rows=3, deblock=2, cdef=0),
    dict(w=256, h=384, cols=2, rows=2, sb128=1, hbd=1, layout=3), dict(w=64, h=256, cols=1, rows=2, layout=0, deblock=1, cdef=0, lr=1), dict(w=64, h=256, cols=1, rows=1, deblock=0, cdef=1, lr=1, layout=2), dict(w=64, h=100, cols=1, rows=1, mvs=1, typ=1), dict(w=192, h=256, cols=3, rows=2, mvs=1, typ=1), dict(w=64, h=100, cols=1, rows=1, typ=1),
    dict(w=64, h=2200, cols=1, rows=1, refresh=1), dict(w=64, h=2200, cols=1, rows=2, deblock=0, cdef=1), dict(w=64, h=2048, cols=1, rows=1, deblock=0, cdef=0, lr=1)]
PAIRS = [      # a frame and one that refers to it
    ([dict(w=64, h=128, cols=1, rows=1, refresh=1), dict(w=64, h=128, cols=1, rows=1, typ=1, refs={0: 0}, low="near", incdf=("frame", 0))], (0, 1)),
    ([dict(w=64, h=128, cols=1, rows=1, typ=1, refs={2: 1, 6: 1}, low="far", deblock=0, cdef=0), dict(w=64, h=128, cols=1, rows=2, deblock=0, cdef=0, lr=1)], (1, 0))]

def cases(thorough=False):
    """(n_fc, n_tc, frames, options)"""
    S = lambda **k: k
    for cf in FRAMES + MORE:
        for m in ((1, 1), (1, 2), (2, 2)):
            yield m + (cf, S(tiles_fail=cf["h"] < 2000))
            if m != (1, 1) and cf["h"] < 2000: yield m + (cf, S(stale=True))
    for cf in FRAMES[:1] + FRAMES[5:6] + PAIRS[:1]:
        for m in ((1, 2), (2, 2)):
            if isinstance(cf, tuple):
                if m[0] == 2: yield m + (cf[0], S(allocs=True, tiles_fail=False, order=cf[1]))
            else: yield m + (cf, S(allocs=True, tiles_fail=False))
    for m in ((1, 1), (1, 2), (2, 2)): yield m + (dict(w=128, h=192, cols=2, rows=2, refresh=1, n_bytes=4, data=3), S(bad=True))
    for fs, o in PAIRS: yield (2, 2, fs, S(order=o))
    # references decoded elsewhere
    base = dict(w=64, h=128, cols=1, rows=1, typ=1, refresh=1)
    cell = lambda n, j: O("refprog", 8 * n + 4 * j)
    for n in (0, 3, 6):
        for v in (0, 63, 64, 127, 128, FRAME_ERROR):
            for later in (ALL, FRAME_ERROR): yield (2, 2, dict(base, refs={n: (v, ALL)}, low="near"), S(steps=[[(cell(n, 0), later)]]))
    for low in ("none", "near", "luma", "chroma", "far", "above"):
        for n in (0, 3):
            for v in (0, 1, 27, 28, 63, 64, 65, 66, 91, 92, 127, 128, FRAME_ERROR):
                for later in (ALL, FRAME_ERROR): yield (2, 2, dict(base, refs={n: (ALL, v)}, low=low), S(steps=[[(cell(n, 1), later)]], stale=v != 64))
    for v in (0, 1, TILE_ERROR):
        for later in (1, TILE_ERROR): yield (2, 2, dict(base, refresh=1, incdf=v), S(steps=[[(O("incdf"), later)]] if v == 0 else []))
    # two workers: one stops anywhere, the other goes on until nothing is left to do
    for cf in FRAMES:
        for m in ((1, 2), (2, 2)): yield m + (cf, S(nest="atomic"))
    for cf in MORE[:10]:
        for m in ((1, 2), (2, 2)): yield m + (cf, S(nest="work"))
    for fs, o in PAIRS: yield (2, 2, fs, S(order=o, nest="atomic"))
    for cf in (FRAMES[2], FRAMES[3], FRAMES[6]) + ((FRAMES[1], FRAMES[5]) if thorough else ()):
        for m in ((1, 2), (2, 2)): yield m + (cf, S(nest="pairs"))
    if thorough:
        for fs, o in PAIRS: yield (2, 2, fs, S(order=o, nest="pairs"))
        for cf in MORE[:10]:
            for m in ((1, 2), (2, 2)): yield m + (cf, S(nest="atomic"))
        for cf in MORE[10:]:
            for m in ((1, 2), (2, 2)): yield m + (cf, S(nest="work"))

def explore(ctx, P, L, prop):
    """judges every case; reports what concerns prop"""
    thorough = ctx.tier == "thorough"
    told = set()
    def prep(cf): return [dict(c, low=lows(c["low"])) if isinstance(c.get("low"), str) else c for c in (cf if isinstance(cf, list) else [cf])]
    def describe(cf, m, opt):
        s = " and ".join("%dx%d px%s, %dx%d tiles" % (c["w"], c["h"], " scaled to %d" % c["sr"] if c.get("sr") else "", c["cols"], c["rows"]) for c in (cf if isinstance(cf, list) else [cf]))
        return "%s, %d frame contexts, %d threads" % (s, m[0], m[1])
    def run(c, nest=(), nest_fails=False, grain="work"):
        nfc, ntc, cf, opt = c
        fs = prep(cf)
        over = None
        try:
            S = Sched(ctx, P, L, nfc, ntc, fs, allocs=opt.get("allocs", False), tiles_fail=opt.get("tiles_fail", True), nest=nest, nest_fails=nest_fails, grain=grain, order=opt.get("order"), stale=opt.get("stale", False))
            w, res = S.single() if nfc == 1 else S.framed(opt.get("steps", ()))
        except Limit as e: over = e
        ctx.count("schedules")
        where = describe(cf, (nfc, ntc), opt)
        f0 = P.fn("dav1d_worker_task") if nfc > 1 else P.fn("dav1d_decode_frame")
        i0 = f0.blocks[0][0]
        def report(p, kind, i, msg, fr=None):
            if p != prop: return
            ctx.violation(i.where() if i is not None else f0.name, msg + " [%s]" % where, fn=i.fn.name, kind=kind)
        def once(p, kind, i, msg, fr=None):
            k = (p, kind, msg, i.fn.name)
            if k in told: return
            told.add(k); report(p, kind, i, msg, fr)
        if over is not None:
            # what was done up to there is judged all the same
            w = S.cut[0]
            for ev, mem in S.cut[1]: Judge(S, w, ev, mem, once, opt.get("bad") and "the tile sizes are damaged")
            ctx.require(False, "the work scheduler cannot be evaluated (%s: %s)" % (over, where))
        if not res and not S.stuck and not S.aborts: once("C08", "end", i0, "decoding never comes to its end: an assertion fails on every path")
        for i, ev in S.stuck: once("C08", "stuck", i, "the calling thread waits for a frame whose workers have nothing left to do")
        for i, ev in S.aborts: once("C27", "abort", i, "decoding ends in abort(): a task or its type has no handler")
        n = 0; mx = 0
        for ev, v, mem in res:
            J = Judge(S, w, ev, mem, once, opt.get("bad") and "the tile sizes are damaged")
            J.ended(i0, ev)
            ctx.count("obligations", J.judged + 12 * len(S.frames))
            mx = max(mx, w.read(mem, O("sched", 4), "i32"))
        return mx
    cs = list(cases(thorough))
    parallel(ctx, lambda: [c for c in cs if "nest" not in c[3]], lambda c: run(c))
    if ctx.viol: ctx.notes.append("the schedules with more than one worker were not evaluated: one worker is enough for the violations above"); return
    nested = []
    for c in cs:
        g = c[3].get("nest")
        if g is None: continue
        if prop == "C27" and not thorough:
            if g == "pairs": continue
            g = "work"
        t = run(c, (), False, "atomic" if g == "atomic" else "work")
        if g == "pairs":
            for a in range(t):
                for b in range(a + 1, min(t, a + 24)): nested.append((c, (a, b), False, "work"))
        else:
            for k in range(t):
                for nf in (False, True): nested.append((c, (k,), nf, g))
    parallel(ctx, lambda: nested, lambda j: run(*j))

# --- film grain applied by the workers
class Grain(Sched):
    """dav1d_task_delayed_fg: the calling thread hands a picture to the workers and waits"""
    def __init__(self, ctx, P, L, bpc, h, nest=(), grain="work"):
        Sched.__init__(self, ctx, P, L, 1, 2, FRAMES[3], nest=nest, grain=grain)
        rw = self.rw
        rw.objs("in", "Dav1dPicture", 1); rw.objs("out", "Dav1dPicture", 1)
        for o in ("in", "out"): rw.set(o, "p.bpc", bpc); rw.set(o, "p.h", h); rw.set(o, "p.w", 64); rw.set(o, "p.layout", 1)
        for n in (8, 16):
            rw.models["dav1d_prep_grain_%dbpc" % n] = lambda rw, w, i, av, mem, ev, n=n: self.grain_step(n, None, av, w, i, mem, ev)
            rw.models["dav1d_apply_grain_row_%dbpc" % n] = lambda rw, w, i, av, mem, ev, n=n: self.grain_step(n, av[5], av, w, i, mem, ev)
    def grain_step(self, n, row, av, w, i, mem, ev):
        ev.append(("grain", (n, row, tuple(av[:3])), i)); return self.callout(w, mem, ev, i, UNK)
    def go(self):
        w = self.world(); f = self.P.fn("dav1d_task_delayed_fg")
        self.ctx.require(f is not None, "dav1d_task_delayed_fg is gone")
        res = w.run(f, {0: O("c"), 1: O("out"), 2: O("in")})
        self.ctx.count("paths", len(res)); self.ctx.count("evaluated_steps", w.steps)
        return w, f, res

def judge_grain(S, w, ev, bpc, h, tell):
    """the noise is prepared once, before any row; every row is done once; all of it before the calling thread goes on"""
    rows = (h + 31) // 32; L = S.L
    begun, done, open_ = {}, set(), []
    depth = 0; n = 0
    fg = L.off("Dav1dContext", "dsp[%d].fg" % ((bpc >> 1) - 4))
    for k, e in enumerate(ev):
        if e[0] == "grain":
            (t, row, av), i = e[1:]; n += 1
            if t != (8 if bpc == 8 else 16) or av != (O("c", fg), O("out"), O("in")): tell("C27", "grain", i, "film grain is applied by the functions of another bit depth or to other pictures")
            if row in begun: tell("C27", "twice", i, "a row of film grain is applied twice" if row is not None else "film grain is prepared twice")
            begun[row] = i
            if row is not None:
                if not isinstance(row, int) or not 0 <= row < rows: tell("C27", "row", i, "film grain is applied to a row outside the picture")
                if None not in done: tell("C08", "early", i, "a row of film grain is applied before the noise is prepared")
            if k + 1 < len(ev) and ev[k + 1][0] == "switch": open_.append((depth, row))
            else: done.add(row)
        elif e[0] == "switch" and not (k and ev[k - 1][0] == "grain"): open_.append((depth, 0.5))
        elif e[0] == "enter" and e[2] == "dav1d_worker_task": depth += 1
        elif e[0] == "leave" and e[2] == "dav1d_worker_task":
            depth -= 1
            if open_ and open_[-1][0] == depth: done.add(open_.pop()[1])
        elif e[0] == "store" and e[2] == S.rw.at("c", "task_thread.delayed_fg.finished") and e[3] == 1:
            n += 1
            if not all(r in done for r in [None] + list(range(rows))): tell("C08", "publish", e[1], "film grain is reported as applied before every row is")
    for r in [None] + list(range(rows)):
        n += 1
        if r not in done: tell("C27", "missing", ev[-1][1], "a row of film grain is never applied" if r is not None else "film grain is never prepared")
    return n

def explore_grain(ctx, P, L, prop):
    told = set()
    def run(bpc, h, nest=(), grain="work"):
        try: S = Grain(ctx, P, L, bpc, h, nest, grain); w, f, res = S.go()
        except Limit as e: ctx.require(False, "film grain in worker threads cannot be evaluated (%s)" % e)
        ctx.count("schedules")
        def tell(p, kind, i, msg):
            k = (p, kind, msg, i.fn.name)
            if p == prop and k not in told: told.add(k); ctx.violation(i.where(), "%s [%d bits, %d rows of pixels]" % (msg, bpc, h), fn=i.fn.name, kind=kind)
        i0 = f.blocks[0][0]
        if not res and not S.stuck and not S.aborts: tell("C08", "end", i0, "film grain never comes to its end")
        for i, ev in S.stuck: tell("C08", "stuck", i, "the calling thread waits for film grain although the workers have nothing left to do")
        for i, ev in S.aborts: tell("C27", "abort", i, "film grain in worker threads ends in abort()")
        for ev, v, mem in res: ctx.count("obligations", judge_grain(S, w, ev, bpc, h, tell))
        return max((w.read(m, O("sched", 4), "i32") for _, _, m in res), default=0)
    for bpc in (8, 10, 12):
        for h in (1, 31, 32, 33, 64, 100):
            for g in ("work", "atomic"):
                t = run(bpc, h, (), g)
                if bpc == 12 and h > 33: continue
                for k in range(t): run(bpc, h, (k,), g)
                if g == "work":
                    for a in range(t):
                        for b in range(a + 1, t + 4): run(bpc, h, (a, b), g)
