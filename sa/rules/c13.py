"""C13: missing or incompatible reference frames are rejected."""
from decworld import *
from engine import *
from effects import Effects
from scan import addr_class

SLOTS = "Dav1dContext.refs"

class Guarded(Rule):
    """the header of a slot is dereferenced only where the slot is known to hold a frame"""
    def __init__(self, E): self.modsets = E; self.mark = {}; self.sites = {}; self.open = {}
    def is_slot(self, loc): return any(e == SLOTS for e in loc[1])
    def on_initial(self, st, inst, loc, t):
        if inst.ty == "ptr" and self.is_slot(loc) and self.eng.cls(loc) == "Dav1dPicture.frame_hdr": self.mark[t] = loc
    def known(self, st, b):
        R = self.eng
        if R.isnull(st, b) is False: return True
        # a slot that holds pixels holds a header (decided by C24 and C33)
        own = [l for l, t in st.mem.items() if t == b and self.is_slot(l)]
        for l, t in st.mem.items():
            if R.cls(l) == "Dav1dPicture.data[]" and R.isnull(st, t) is False:
                if any(l[0] == o[0] and l[1][:len(o[1]) - 1] == o[1][:-1] for o in own): return True
        return False
    def on_access(self, st, inst, a, write):
        b = loc_of(a)[0]
        if b not in self.mark and not (b[0] == "v" and isinstance(b[1], tuple) and b[1][0] == "old" and any(m[1] == b[1][1] for m in self.mark)): return
        self.sites[inst.id] = inst
        if not self.known(st, b): self.open.setdefault(inst.id, inst)

def guards(ctx, P):
    E = Effects(P); n = 0; done = 0
    for f in P.functions():
        use = False
        for i in f.all_insts():
            if i.op == "load" and i.ty == "ptr" and addr_class(f, i.a[0])[0] == "Dav1dPicture.frame_hdr" and reaches_slots(f, i.a[0]): use = True; break
        if not use or f.name in ("dav1d_parse_obus", "dav1d_submit_frame"): continue      # decided by the worlds below, which follow calls precisely
        r = Guarded(E); e = Engine(P, f, r); e.run()
        ctx.count("functions_followed"); ctx.count("block_visits", e.steps); done += 1
        n += len(r.sites)
        for i in list(r.sites.values())[:4]: ctx.sample("%s: %s" % (i.where(), "open" if i.id in r.open else "guarded"))
        for i in r.open.values(): ctx.violation(i.where(), "the header of a reference slot is used although the slot may be empty", f.name, "unguarded")
    ctx.count("slot_header_uses", n)
    ctx.require(n >= 6, "only %d uses of slot headers found: the layout of reference slots has changed" % n)

def reaches_slots(f, v, depth=0):
    """is the address computed from Dav1dContext.refs?"""
    seen = set(); st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, int) or x in seen: continue
        seen.add(x)
        i = f.insts.get(x)
        if i is None: continue
        if i.op == "getelementptr":
            if any(isinstance(e, list) and e[0] == "f" and e[1] == "Dav1dContext" and e[2] == "refs" for e in i.x): return True
            st.append(i.a[0])
        elif i.op in ("phi", "select"): st += [y for y in i.a if isinstance(y, int)]
    return False

def tested_uses(ctx, P, cls, least):
    """every use of the pointer stored in a field sits behind a test of that field"""
    n = 0
    for f in P.functions():
        loads = {i.id: i for i in f.all_insts() if i.op == "load" and i.ty == "ptr" and addr_class(f, i.a[0])[0] == cls}
        if not loads: continue
        yes = []      # blocks entered only when the field is not null
        for i in f.all_insts():
            if i.op != "br" or len(i.x) != 2: continue
            c = f.insts.get(i.a[0]) if isinstance(i.a[0], int) else None
            if c is None or c.op != "icmp": continue
            p = c.x if isinstance(c.x, str) else c.x[0]
            if p not in ("eq", "ne") or not any(isinstance(x, int) and x in loads for x in c.a) or not any(isinstance(x, list) and x and x[0] in ("n", "z") for x in c.a): continue
            t = i.x[0] if p == "ne" else i.x[1]
            if len(set(f.pred[t])) == 1: yes.append(t)
            elif i.x[0] != i.x[1]: yes.append(("edge", i.bb, t))
        blocks = [y for y in yes if not isinstance(y, tuple)]
        def safe(bb): return any(f.dominates(y, bb) for y in blocks)
        for i in f.all_insts():
            if i.op in ("icmp", "phi", "select", "store") or not any(isinstance(x, int) and x in loads for x in i.a): continue
            if i.op == "store": continue
            n += 1
            if safe(i.bb): continue
            if i.op == "call" and i.callee and callee_tests(P, i, loads): continue
            ctx.violation(i.where(), "%s is used without testing whether there is one" % cls, f.name, "unguarded")
    ctx.count("carried_state_uses", n)
    ctx.require(n >= least, "only %d uses of %s found" % (n, cls))

def callee_tests(P, i, loads):
    g = P.fn(i.callee)
    if g is None: return False
    ks = [k for k, x in enumerate(i.a) if isinstance(x, int) and x in loads]
    for k in ks:
        tests = []
        for j in g.all_insts():
            if j.op == "br" and len(j.x) == 2 and isinstance(j.a[0], int):
                c = g.insts.get(j.a[0])
                if c is not None and c.op == "icmp" and k in [x for x in c.a if isinstance(x, int)] and any(isinstance(x, list) and x and x[0] in ("n", "z") for x in c.a):
                    p = c.x if isinstance(c.x, str) else c.x[0]
                    tests.append(j.x[0] if p == "ne" else j.x[1])
        for j in g.all_insts():
            if j.op in ("getelementptr", "load", "store", "call") and any(isinstance(x, int) and x == k for x in j.a) and not any(g.dominates(t, j.bb) for t in tests): return False
    return bool(ks)

# --- submitting a frame
def sub_worlds(ctx, P, L):
    """(what, slots, set-up, accepted)"""
    def dims(**kw):
        def f(rw, j):
            for k, v in kw.items(): rw.set("c", "refs[%d].p.p.p.%s" % (j, k), v)
            if "w" in kw: rw.set("slothdr%d" % j, "width[0]", kw["w"]); rw.set("slothdr%d" % j, "width[1]", kw["w"])
            if "h" in kw: rw.set("slothdr%d" % j, "height", kw["h"])
        return f
    F = [("an empty reference", "empty", None, False), ("a reference of which only the header is known", "header", None, False), ("a usable reference", "full", None, True)]
    for ax, nm in (("w", "wide"), ("h", "high")):
        F += [("a reference twice as %s" % nm, "full", dims(**{ax: 128}), True), ("a reference more than twice as %s" % nm, "full", dims(**{ax: 129}), False),
              ("a reference a sixteenth as %s" % nm, "full", dims(**{ax: 4}), True), ("a reference less than a sixteenth as %s" % nm, "full", dims(**{ax: 3}), False),
              ("a reference far more than twice as %s" % nm, "full", dims(**{ax: 8000}), False)]
    for l, nm in ((0, "4:0:0"), (2, "4:2:2"), (3, "4:4:4")): F.append(("a reference of layout %s for a 4:2:0 frame" % nm, "full", dims(layout=l), False))
    for b in (10, 12): F.append(("a reference of %d bits for an 8-bit frame" % b, "full", dims(bpc=b), False))
    return F

def submit(ctx, P, L):
    f = P.fn("dav1d_submit_frame"); ctx.require(f is not None, "dav1d_submit_frame is gone")
    def make():
        for what, slot, post, ok in sub_worlds(ctx, P, L):
            for nfc in (1, 2):
                for k in range(7):
                    for typ in (1, 3):
                        for pri in (7, k, (k + 3) % 7):
                            if ok and (k % 3 or typ == 3): continue
                            j = (k + 1) & 7
                            rw = frame_world(ctx, P, L, nfc, typ, 0x81, slots={j: slot}, fail=False, models={"dav1d_decode_frame": lambda rw, w, i, av, mem, ev: (ev.append(("decode", i)), 0)[1]})
                            for m, v in (("primary_ref_frame", pri), ("refresh_context", 0), ("use_ref_frame_mvs", 0), ("segmentation.enabled", 0), ("segmentation.temporal", 0), ("segmentation.update_map", 0)): rw.set("hdr", m, v)
                            rw.set("seq", "sb128", 0)
                            if post: post(rw, j)
                            yield what, ok, nfc, k, typ, pri, rw
        for slot in ("empty", "header"):      # slots the frame does not name do not matter
            for nfc in (1, 2):
                for j in range(8):
                    for pri in (0, 6):
                        rw = frame_world(ctx, P, L, nfc, 1, 0x81, slots={x: "full" if x == j else slot for x in range(8)}, fail=False, models={"dav1d_decode_frame": lambda rw, w, i, av, mem, ev: (ev.append(("decode", i)), 0)[1]})
                        for m, v in (("primary_ref_frame", pri), ("refresh_context", 0), ("use_ref_frame_mvs", 0), ("segmentation.enabled", 0), ("segmentation.temporal", 0), ("segmentation.update_map", 0)): rw.set("hdr", m, v)
                        rw.set("seq", "sb128", 0)
                        for k in range(7): rw.set("hdr", "refidx[%d]" % k, j)
                        yield "a usable reference and unusable slots it does not name", True, nfc, 0, 1, pri, rw
    def work(c):
        what, ok, nfc, k, typ, pri, rw = c
        w, g, res = rw.run("dav1d_submit_frame", {0: O("c")})
        ctx.count("frames_judged")
        where = "%s:%d" % (g.file, g.line); acc = False
        for ev, rv, mem in res:
            ctx.count("paths_judged")
            started = any(e[0] in ("decode", "queued") for e in ev)
            neg = isinstance(rv, int) and rv < 0
            for i, how in w.nulls(ev): ctx.violation(i.where(), "a missing block is %s when a frame has %s" % (how, what), g.name, "null")
            if not ok and started: ctx.violation(where, "decoding starts although a frame has %s" % what, g.name, "accepted")
            elif not ok and not neg: ctx.violation(where, "a frame with %s is accepted" % what, g.name, "accepted")
            acc = acc or (started and not neg)
        if ok and not acc: ctx.violation(where, "a frame with %s is rejected" % what, g.name, "rejected")
    parallel(ctx, make, work)

def carried(ctx, P, L):
    """motion field and segmentation map of a reference are taken over only when it has the dimensions of the frame, and only if present"""
    def make():
        for have in (True, False):
            for w_, h_ in ((64, 64), (56, 64), (64, 56), (128, 64), (64, 128), (72, 64), (63, 64), (64, 57)):
                for nfc in (1, 2):
                    for upd, temp in ((0, 0), (1, 1), (1, 0)):
                        for sr in ((False, True) if (w_, h_) in ((64, 64), (128, 64)) else (False,)):
                            rw = frame_world(ctx, P, L, nfc, 1, 0x81, fail=False, models={"dav1d_decode_frame": lambda rw, w, i, av, mem, ev: (ev.append(("decode", i)), snap(rw, w, av[0], mem, ev, i), 0)[2], "dav1d_task_frame_init": lambda rw, w, i, av, mem, ev: (ev.append(("queued", i)), snap(rw, w, av[0], mem, ev, i), UNK)[2]})
                            for m, v in (("primary_ref_frame", 2), ("refresh_context", 0), ("use_ref_frame_mvs", 1), ("segmentation.enabled", 1), ("segmentation.temporal", temp), ("segmentation.update_map", upd)): rw.set("hdr", m, v)
                            rw.set("seq", "sb128", 0)
                            j = 3
                            cw = 32 if sr else w_      # with super-resolution the coded width of the reference differs from the width of its picture
                            rw.set("slothdr%d" % j, "width[0]", cw); rw.set("slothdr%d" % j, "width[1]", w_); rw.set("slothdr%d" % j, "height", h_)
                            rw.set("c", "refs[%d].p.p.p.w" % j, w_); rw.set("c", "refs[%d].p.p.p.h" % j, h_)
                            if not have: rw.set("c", "refs[%d].segmap" % j, 0); rw.set("c", "refs[%d].refmvs" % j, 0)
                            same = (cw + 7) // 8 == 8 and (h_ + 7) // 8 == 8
                            yield have, same, temp or not upd, "%dx%d%s for 64x64, n_fc=%d" % (w_, h_, " coded %d wide" % cw if sr else "", nfc), rw
    def snap(rw, w, f, mem, ev, i):
        ev.append(("carried", {m: w.read(mem, ("ptr", f[1], f[2] + rw.L.off("Dav1dFrameContext", m)), "ptr") for m in ("ref_mvs_ref[2]", "ref_mvs[2]", "prev_segmap_ref", "prev_segmap", "cur_segmap_ref", "cur_segmap")}))
    def work(c):
        have, same, need, cfg, rw = c
        w, g, res = rw.run("dav1d_submit_frame", {0: O("c")})
        where = "%s:%d" % (g.file, g.line); n = 0
        for ev, rv, mem in res:
            for i, how in w.nulls(ev): ctx.violation(i.where(), "a missing block is %s when state is carried over [%s]" % (how, cfg), g.name, "null")
            for e in ev:
                if e[0] != "carried": continue
                n += 1; d = e[1]
                ctx.count("carried_states_judged")
                if not have or not same:
                    why = "the reference has other dimensions" if not same else "the reference has none"
                    if d["ref_mvs_ref[2]"] != 0 or d["ref_mvs[2]"] != 0: ctx.violation(where, "the motion field is taken over although %s" % why, g.name, "carried")
                    if d["prev_segmap_ref"] != 0 or d["prev_segmap"] != 0: ctx.violation(where, "the segmentation map is taken over although %s" % why, g.name, "carried")
                else:
                    if d["ref_mvs_ref[2]"] != O("slot3.refmvs"): ctx.violation(where, "the motion field of a matching reference is not taken over", g.name, "dropped")
                    if need and d["prev_segmap_ref"] != O("slot3.segmap"): ctx.violation(where, "the segmentation map of a matching reference is not taken over", g.name, "dropped")
                if d["cur_segmap_ref"] == 0 or d["cur_segmap"] == 0: ctx.violation(where, "a frame with segmentation has no segmentation map", g.name, "null")
        if not n: ctx.violation(where, "no frame is decoded [%s]" % cfg, g.name, "rejected")
    parallel(ctx, make, work)

def projected(ctx, P, L):
    """only motion fields that exist are projected"""
    f = P.fn("dav1d_refmvs_init_frame"); ctx.require(f is not None, "dav1d_refmvs_init_frame is gone")
    o = lambda m: L.off("refmvs_frame", m)
    ctx.require(None not in (o("n_mfmvs"), o("mfmv_ref"), o("n_blocks")), "refmvs_frame has changed")
    names = [p.get("name") if isinstance(p, dict) else None for p in f.args]
    fp = lambda i: i
    # arguments by type: the frame, headers, order hints of the references, of their references, the motion fields
    rf, seq, hdr, poc, rp, rpoc, rrp = range(7)
    for mask, rpv in [(m, v) for m in range(128) for v in (10, 20)]:
        rw = RW(ctx, P, L, fail=False)
        rw.objs("rf", "refmvs_frame", 1); rw.objs("seq", "Dav1dSequenceHeader", 1); rw.objs("hdr", "Dav1dFrameHeader", 1)
        rw.set("hdr", "width[0]", 64); rw.set("hdr", "height", 64); rw.set("hdr", "use_ref_frame_mvs", 1); rw.set("hdr", "frame_offset", 10); rw.set("seq", "order_hint_n_bits", 7)
        rw.set("hdr", "tiling.rows", 1); rw.set("rf", "n_blocks", 16)
        old = rw.init
        def init(inst, a, ty, old=old, mask=mask, rpv=rpv):
            if a[1] == ("obj", "rrp"): return 0 if not mask >> (a[2] // 8) & 1 else O("field%d" % (a[2] // 8))
            if a[1] == ("obj", "poc"): return 20 if ty != "ptr" else NotImplemented
            if a[1] == ("obj", "rpoc"): return rpv
            return old(inst, a, ty)
        rw.init = init
        av = {rf: O("rf"), seq: O("seq"), hdr: O("hdr"), poc: O("poc"), rp: O("rp"), rpoc: O("rpoc"), rrp: O("rrp"), 7: 1, 8: 1}
        w, g, res = rw.run("dav1d_refmvs_init_frame", av)
        for ev, rv, mem in res:
            ctx.count("projections_judged")
            n = w.read(mem, ("ptr", ("obj", "rf"), o("n_mfmvs")), "i32")
            ctx.require(isinstance(n, int), "the number of projected motion fields cannot be followed")
            for k in range(n):
                q = w.read(mem, ("ptr", ("obj", "rf"), o("mfmv_ref") + k), "i8")
                ctx.require(isinstance(q, int), "the projected motion fields cannot be followed")
                if not mask >> q & 1: ctx.violation("%s:%d" % (g.file, g.line), "a motion field that does not exist is projected", g.name, "null")
            if mask == 127 and n == 0: ctx.violation("%s:%d" % (g.file, g.line), "no motion field is ever projected", g.name, "dropped")

# --- showing an existing frame
def show(ctx, P, L):
    def make():
        for nfc in (1, 2):
            for slot in ("empty", "header", "full"):
                for ft in (0, 1, 2, 3):
                    for dft in (0, 1, 2, 3):
                        for strict in (0, 1):
                            for j in (0, 3, 7):
                                if j != 3 and (dft or strict): continue
                                rw = obu_world(ctx, P, L, nfc, 3, hdr=dict(show_existing_frame=1, existing_frame_idx=j), slots={j: slot}, hdr_results=[(0, None)], fail=False)
                                if slot != "empty":
                                    rw.set("slothdr%d" % j, "frame_type", ft); rw.set("slothdr%d" % j, "show_frame", 0); rw.set("c", "refs[%d].p.showable" % j, 1)
                                rw.set("c", "decode_frame_type", dft); rw.set("c", "strict_std_compliance", strict); rw.set("c", "operating_point_idc", 0); rw.set("c", "max_spatial_id", 0)
                                yield slot, ft, dft, nfc, j, rw
    def work(c):
        slot, ft, dft, nfc, j, rw = c
        w, g, res = parse(rw)
        ctx.count("shown_judged"); where = "%s:%d" % (g.file, g.line); shown = False
        for ev, rv, mem in res:
            for i, how in w.nulls(ev): ctx.violation(i.where(), "a missing block is %s when the slot shown is %s" % (how, slot), g.name, "null")
            out = any(rw.get(w, mem, o, m, k) != 0 for o, m, k in [("c", "out.p.data[0]", 0), ("c", "out.p.frame_hdr", 0)] + [("od", "p.data[0]", k) for k in range(nfc) if nfc > 1])
            neg = isinstance(rv, int) and rv < 0
            shown = shown or (out and not neg)
            if slot != "full":
                nm = "empty" if slot == "empty" else "without a picture"
                if out: ctx.violation(where, "a slot that is %s is shown" % nm, g.name, "accepted")
                elif not neg and (slot == "empty" or not dft): ctx.violation(where, "showing a slot that is %s is accepted" % nm, g.name, "accepted")
        if slot == "full" and dft == 0 and not shown: ctx.violation(where, "a slot that holds a frame cannot be shown", g.name, "rejected")
    parallel(ctx, make, work)

def run(ctx):
    ctx.rule = ("Every dereference of the header of a reference slot (any function, by path-sensitive nullness propagation) happens where that slot has been found to hold a frame.  dav1d_submit_frame is evaluated (abstract, no execution) for each of the seven references being empty, header-only, too large, too small, "
                "of another layout or depth: no path decodes or succeeds, and the boundary values are accepted.  Motion fields and segmentation maps are taken over only from references of equal dimensions that have them, and projected only if they exist.  Showing an existing frame from an empty or header-only slot fails.  No path of any of these worlds accesses a null block.")
    P = obu_program(ctx); L = Lay(P)
    guards(ctx, P)
    tested_uses(ctx, P, "Dav1dFrameContext.prev_segmap", 2)
    submit(ctx, P, L)
    carried(ctx, P, L)
    projected(ctx, P, L)
    show(ctx, P, L)
