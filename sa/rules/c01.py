"""C01: every buffer reference acquired has exactly one owner until it is released."""
from decworld import *

def nice(b):
    if not (isinstance(b, tuple) and b and b[0] == "ptr"): return "a buffer"
    if b[1][0] == "obj": return "buffer '%s'" % b[1][1].replace(":", " ")
    if b[1][0] == "new": return "a buffer created in this call"
    return "a buffer"

class Books:
    def __init__(self, ctx): self.ctx = ctx; self.fns = set()
    def run(self, c):
        ctx, rw, fn, cfg = self.ctx, c.rw, c.fn, c.cfg
        w, f, res = c.run()
        where = "%s:%d" % (f.file, f.line)
        self.fns.add(f.name)
        if not res: ctx.violation(where, "%s never returns [%s]" % (fn, cfg), fn, "leak")
        for ev, rv, mem in res:
            for b, net, own, names in rw.books(w, ev, mem):
                if not w.ptr(b): ctx.count("unknown_buffers"); continue
                why = rw.failed(ev)
                at = " when %s" % why[-1] if why else ""
                if net > own: m = "leaks %s: %d reference(s) taken, %d kept%s" % (nice(b), net, own, at) if net > 0 or own >= 0 else "drops %s from its owner without releasing it%s" % (nice(b), at)
                else: m = "keeps or releases %s once too often: references %+d, owners %+d%s" % (nice(b), net, own, at)
                ctx.violation(where, "%s: %s (%s) [%s]" % (fn, m, ", ".join(names[:3]) or "no owner", cfg), fn, "leak" if net > own else "over-release")
            self.shape(rw, w, mem, f, cfg)
            ctx.count("paths_balanced")
        return w, f, res
    def shape(self, rw, w, mem, f, cfg):
        """a handle the decoder takes for empty holds nothing: tile groups behind the count, T.35 messages counted as none, a picture without pixels that is about to be output"""
        ctx = self.ctx; where = "%s:%d" % (f.file, f.line)
        def bad(nm, why): ctx.violation(where, "%s leaves %s set although %s; the next use overwrites it [%s]" % (f.name, nm, why, cfg), f.name, "leak")
        n = rw.get(w, mem, "c", "n_tile_data"); p = rw.get(w, mem, "c", "tile")
        if isinstance(n, int) and w.ptr(p) and p[2] is not None:
            sz = rw.L.size("Dav1dTileGroup")
            for j in range(max(n, 0), rw.types["tile"][1]):
                for o, k, q in rw.leaves("Dav1dTileGroup"):
                    if k != "ref": continue
                    ctx.count("uncounted_handles")
                    if rw.cells.get(("tile", j * sz + o), 0) == 0 and w.ptr(w.read(mem, ("ptr", p[1], p[2] + j * sz + o), "ptr")): bad("tile[%d].%s" % (j, q), "%d tile groups are counted" % n)
        if rw.get(w, mem, "c", "n_itut_t35") == 0 and w.ptr(rw.get(w, mem, "c", "itut_t35_ref")) and rw.cells.get(("c", rw.at("c", "itut_t35_ref")[2]), 0) == 0: bad("itut_t35_ref", "no T.35 message is counted")
        for h in ("out", "cache"):
            b = rw.at("c", h)[2]
            if rw.get(w, mem, "c", h + ".p.data[0]") != 0: continue
            for o, k, q in rw.leaves("Dav1dThreadPicture"):
                if k != "ref": continue
                ctx.count("uncounted_handles")
                if rw.cells.get(("c", b + o), 0) == 0 and w.ptr(w.read(mem, O("c", b + o), "ptr")): bad("%s.%s" % (h, q), "there is no picture")
    def empty(self, rw, w, mem, f, objs, cfg):
        """handles of a frame context that is not in use would be overwritten by the next frame"""
        for n, o, nm in rw.owners(objs):
            self.ctx.count("idle_handles")
            if w.read(mem, O(n, o), "ptr") != 0: self.ctx.violation("%s:%d" % (f.file, f.line), "%s leaves %s set although the frame is over; the next frame overwrites it [%s]" % (f.name, nm, cfg), f.name, "leak")

def frame_end(B, P, L):
    """ending a frame releases everything its frame context holds"""
    for nfc in (1, 2):
        for rc in (0, -22):
            for full in (True, False):
                for rctx in (0, 1):
                    rw = api_world(B.ctx, P, L, nfc)
                    rw.objs("fhdr", "Dav1dFrameHeader", 1)
                    if full:
                        for o, k, p in rw.leaves("Dav1dFrameContext"):
                            if p.startswith("out_cdf") and not rctx: continue      # the saved context exists only when it is refreshed
                            if k == "ref": rw.cells[("fc", o)] = O("f:" + p)
                            elif k == "ptr" and rw.payload("Dav1dFrameContext", o): rw.cells[("fc", o)] = ("ptr", ("obj", "f>" + p), 0)
                        rw.fill_handle("ftile0", "data", "ftd", "Dav1dData"); rw.set("fc", "n_tile_data", 1)
                        rw.set("fc", "sr_cur.progress", 0)
                    rw.set("fc", "frame_hdr", O("fhdr")); rw.set("fhdr", "refresh_context", rctx)
                    cfg = "n_fc=%d, frame %s%s" % (nfc, "failed" if rc else "done", "" if full else ", nothing held")
                    w, f, res = B.run(Case("dav1d_decode_frame_exit", rw, {0: O("fc"), 1: rc}, cfg, "end"))
                    for ev, rv, mem in res: B.empty(rw, w, mem, f, ("fc", "ftile0"), cfg)

# --- the counter itself
def primitives(ctx, P, L):
    """creating a reference gives a count of one; dropping it calls the free callback exactly when the last one goes, and empties the handle"""
    cnt = L.off("Dav1dRef", "ref_cnt")
    def world(fn, args, cells, models=None):
        f = P.fn(fn); ctx.require(f is not None, fn + " is gone")
        def init(inst, a, ty):
            return cells.get((a[1][1] if a[1][0] == "obj" else a[1], a[2]), NotImplemented)
        def call(w, i, av, mem, ev):
            n = i.callee or ""
            if n == "posix_memalign":
                r = ("ptr", ("new", n), 0); ev.append(("got", i, r))
                return ("alts", [(0, None, [(av[0], r)]), (12, n + " fails", [(av[0], UNK)])])
            if n in ("dav1d_mem_pool_pop", "malloc", "aligned_alloc", "posix_memalign", "memalign"):
                r = ("ptr", ("new", n), 0); ev.append(("got", i, r))
                if n == "dav1d_mem_pool_pop": mem.store(r, ("ptr", ("new", "pixels"), 0))
                return ("alts", [(r, None), (0, n + " fails")])
            if n in P.raw: return ("into", n) if n not in ("dav1d_mem_pool_push",) else UNK
            return NotImplemented
        w = World(P, init, call)
        try: return w, f, w.run(f, args)
        except Limit as e: ctx.require(False, "%s cannot be evaluated (%s)" % (fn, e))
    o = lambda m: L.off("Dav1dRef", m)
    f = P.fn("dav1d_ref_dec"); ctx.require(f is not None, "dav1d_ref_dec is gone"); where = "%s:%d" % (f.file, f.line)
    for n in (1, 2, 3):
        for own in (0, 1):
            cells = {("h", 0): O("r"), ("r", cnt): n, ("r", o("free_callback")): ("ptr", ("g", "freecb"), 0), ("r", o("free_ref")): own, ("r", o("const_data")): O("payload"), ("r", o("user_data")): O("cookie")}
            w, f, res = world("dav1d_ref_dec", {0: O("h")}, cells)
            for ev, rv, mem in res:
                ctx.count("primitive_paths")
                calls = [e for e in ev if e[0] == "call" and e[3] == ("ptr", ("g", "freecb"), 0)]
                if len(calls) != (n == 1): ctx.violation(where, "dropping a reference of %d calls the free callback %d time(s)" % (n, len(calls)), "dav1d_ref_dec", "count")
                if calls and (calls[0][2][0] != O("payload") or calls[0][2][1] != O("cookie")): ctx.violation(where, "the free callback does not get the buffer and cookie it was registered with", "dav1d_ref_dec", "count")
                if w.read(mem, O("h"), "ptr") != 0: ctx.violation(where, "dropping a reference leaves the handle set", "dav1d_ref_dec", "count")
                if n > 1 and w.read(mem, O("r", cnt), "i32") != n - 1: ctx.violation(where, "dropping a reference does not decrease the count by one", "dav1d_ref_dec", "count")
                if any(e[0] == "call" and (e[1].callee or "") == "free" and e[2][0] == O("r") for e in ev) != (n == 1 and own == 1): ctx.violation(where, "the counter block is freed when it should not be, or kept when it should be freed", "dav1d_ref_dec", "count")
    for fn, args in (("dav1d_ref_create", None), ("dav1d_ref_create_using_pool", {0: O("pool"), 1: 64})):
        f = P.fn(fn); ctx.require(f is not None, fn + " is gone")
        if args is None: args = {k: 64 for k in range(len(f.args))}
        w, f, res = world(fn, args, {})
        where = "%s:%d" % (f.file, f.line); good = 0
        for ev, rv, mem in res:
            ctx.count("primitive_paths")
            if any(e[0] == "alt" and e[3] for e in ev):
                if rv != 0: ctx.violation(where, "%s does not report a failed allocation" % fn, fn, "count")
                continue
            good += 1
            got = [e[2] for e in ev if e[0] == "got"]
            if not w.ptr(rv) or rv[2] is None: ctx.violation(where, "%s returns no reference" % fn, fn, "count"); continue
            at = lambda m, ty="ptr": w.read(mem, ("ptr", rv[1], rv[2] + o(m)), ty)
            if at("ref_cnt", "i32") != 1: ctx.violation(where, "%s does not start the count at one" % fn, fn, "count")
            cb = at("free_callback")
            g = P.fn(cb[1][1]) if w.ptr(cb) and cb[1][0] == "g" else None
            if g is None: ctx.violation(where, "%s installs no free callback" % fn, fn, "count"); continue
            w2, g, res2 = world(g.name, {0: at("const_data"), 1: at("user_data")}, {})
            for ev2, _, _ in res2:
                back = [(e[1].callee, e[2]) for e in ev2 if e[0] == "call" and e[1].callee in ("free", "dav1d_mem_pool_push")]
                want = [("free", [got[0]])] if fn == "dav1d_ref_create" else [("dav1d_mem_pool_push", [O("pool"), got[0]])]
                if [(n, list(v)) for n, v in back] != want: ctx.violation(where, "the buffer of %s is not given back to where it came from" % fn, fn, "count")
        if not good: ctx.violation(where, "%s never succeeds" % fn, fn, "count")

def run(ctx):
    ctx.rule = ("Conservation of references: every operation that handles counted buffers is evaluated by constant and symbolic-cell propagation (no execution) from decoder states in which each owning handle (every Dav1dRef pointer found in the types "
                "of the decoder, frame contexts, delayed pictures, tile data and arguments) holds a distinct buffer or none, with every fallible step failing in turn.  On every path the references taken minus released per buffer must equal the change in "
                "the number of owning handles that hold it.  The counter primitives are evaluated separately for counts 1 to 3.")
    P = obu_program(ctx); L = Lay(P)
    B = Books(ctx)
    primitives(ctx, P, L)
    frame_end(B, P, L)
    def work(c):
        w, f, res = B.run(c)
        if c.kind == "submit":
            for ev, rv, mem in res:
                if c.info["nfc"] > 1 and any(e[0] == "queued" for e in ev): continue
                why = c.rw.failed(ev)
                B.empty(c.rw, w, mem, f, ("fc", "ftile0"), "%s%s" % (c.cfg, ", %s" % why[-1] if why else ""))
        if c.fn == "dav1d_send_data":      # on success the packet is the decoder's, otherwise it stays with the caller
            for ev, rv, mem in res:
                ctx.count("ownership_transfers")
                a = {nm: w.read(mem, O(n, o), "ptr") for n, o, nm in c.rw.owners(("in",))}; b = {nm: c.rw.cells.get((n, o), 0) for n, o, nm in c.rw.owners(("in",))}
                if isinstance(rv, int) and rv < 0 and a != b: ctx.violation("%s:%d" % (f.file, f.line), "dav1d_send_data fails but takes the packet from the caller", "dav1d_send_data", "transfer")
                if rv == 0 and any(a.values()): ctx.violation("%s:%d" % (f.file, f.line), "dav1d_send_data succeeds but leaves the packet with the caller", "dav1d_send_data", "transfer")
        ctx.setc("functions_balanced", sorted(B.fns))
    parallel(ctx, lambda: all_cases(ctx, P, L), work)
