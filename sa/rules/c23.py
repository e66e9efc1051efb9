"""C23: frames leave the decoder by one rule on every output path."""
from decworld import *
import re, os, front

def enumerator(P, name, default):
    for t in P.types.values() if isinstance(P.types, dict) else P.types:
        if t and t.get("k") == "enum":
            for v in t.get("v", ()):
                if v[0] == name: return v[1]
    return default

class Consts:
    def __init__(self, P):
        e = lambda n, d: enumerator(P, n, d)
        self.SEQ, self.OP, self.TU = e("PICTURE_FLAG_NEW_SEQUENCE", 1), e("PICTURE_FLAG_NEW_OP_PARAMS_INFO", 2), e("PICTURE_FLAG_NEW_TEMPORAL_UNIT", 4)
        self.ESEQ, self.EOP = e("DAV1D_EVENT_FLAG_NEW_SEQUENCE", 1), e("DAV1D_EVENT_FLAG_NEW_OP_PARAMS_INFO", 2)
        self.FERR = -2
    def events(self, flags): return (self.ESEQ if flags & self.SEQ else 0) | (self.EOP if flags & self.OP else 0)

def ref_of(rw, w, mem, obj, path, idx=0): return rw.get(w, mem, obj, (path + "." if path else "") + "p.ref", idx)

class Ring:
    """the delayed pictures, oldest first"""
    def __init__(self, rw, n): self.rw, self.n = rw, n
    def fill(self, k, tag, K, visible=1, progress=7, retval=0, flags=0):
        rw = self.rw
        rw.fill_handle("od", "", tag, "Dav1dThreadPicture", idx=k)
        rw.cells[(tag + ">progress", 4)] = progress
        rw.set("od", "visible", visible, k); rw.set("od", "flags", flags, k); rw.set("fc", "task_thread.retval", retval, k)
    def seq(self, w, mem):
        rw = self.rw
        nx = rw.get(w, mem, "c", "frame_thread.next")
        if not isinstance(nx, int) or not 0 <= nx < self.n: return None
        out = []
        for j in range(self.n):
            k = (nx + j) % self.n
            r = ref_of(rw, w, mem, "od", "", k); e = rw.get(w, mem, "fc", "task_thread.retval", k)
            out.append((r, e))
        return out

def picked(ev, a, default):
    for e in ev:
        if e[0] == "pick" and e[2] == a: return e[3]
    return default

def signed(v): return v - (1 << 32) if isinstance(v, int) and v >> 31 & 1 and v > 0 else v

def step(ctx, P, L, K, tag, rw, w, f, ev, rv, mem, bad, nxt, new):
    """one frame enters the ring at slot `nxt` (new: its picture, None when nothing entered) and the one that was there leaves"""
    R = rw.ring
    v = lambda obj, path, idx=0: picked(ev, rw.at(obj, path, idx), rw.cells.get((obj, rw.at(obj, path, idx)[2]), 0))
    held = R.held
    before_out = 0
    ctx.count("paths_judged")
    out = ref_of(rw, w, mem, "c", "out.p") if False else rw.get(w, mem, "c", "out.p.ref")
    flags = rw.get(w, mem, "c", "event_flags")
    rvl = rw.cells.get(("fc", rw.at("fc", "task_thread.retval", nxt)[2]), 0)
    if rvl:
        if rw.get(w, mem, "fc", "task_thread.retval", nxt) != 0: bad("the error of the delayed frame stays pending after it was taken")
        if not (isinstance(rv, int) and rv < 0) and signed(rw.get(w, mem, "c", "cached_error")) != rvl: bad("the error of the delayed frame is not the one remembered")
        deliver = False
    elif held: deliver = bool(v("od", "visible", nxt) or v("c", "output_invisible_frames")) and picked(ev, ("ptr", ("obj", "delayed>progress"), 4), rw.cells.get(("delayed>progress", 4))) != K.FERR
    else: deliver = False
    want = O("delayed:p.ref") if deliver else 0
    ctx.count("delivered" if deliver else "withheld")
    if out != want:
        if out == O("delayed:p.ref"): bad("a delayed frame that %s becomes output" % ("failed" if rvl or v("od", "visible", nxt) or v("c", "output_invisible_frames") else "is hidden"))
        elif deliver: bad("a visible, correctly decoded delayed frame does not become output")
        else: bad("something other than the delayed frame becomes output")
    fl = v("od", "flags", nxt) if held else 0
    base = R.base
    we = base | (K.events(fl) if deliver else 0)
    if flags != we: bad("the event flags of the delayed frame are %s" % ("lost although it becomes output" if deliver else "raised although it does not become output") if isinstance(flags, int) else "the event flags are overwritten")
    if rw.get(w, mem, "od", "p.ref", nxt) not in (new if isinstance(new, tuple) and new and isinstance(new[0], tuple) else (new,)): bad("the slot of the delayed frame does not hold the new frame (or nothing, when it failed) afterwards")
    for k in range(R.n):
        if k != nxt and ref_of(rw, w, mem, "od", "", k) != rw.cells.get(("od", rw.at("od", "p.ref", k)[2]), 0): bad("another delayed frame is disturbed")
    nx = rw.get(w, mem, "c", "frame_thread.next")
    if rw.get(w, mem, "c", "task_thread.first") != (nxt + R.live) % R.n: bad("the oldest frame in flight is not the one that follows in the queue")
    if nx != (nxt + 1) % R.n: bad("the queue of delayed frames does not advance by one: frames would leave out of order")

def delayed_states(K):
    yield "none", None
    yield "ready", dict(visible=("alts", [0, 1]), progress=("alts", [K.FERR, 7]), flags=("alts", [0, K.SEQ, K.OP, K.SEQ | K.OP]))
    yield "failed", dict(visible=("alts", [0, 1]), retval=-22, flags=K.SEQ | K.OP)
    yield "never begun", dict()

def submit(ctx, P, L, K):
    for nfc in (1, 2, 3):
        for typ, refresh in ((0, 0xff), (1, 0x81), (3, 0xff)):
            for nxt in ((0,) if nfc == 1 else (0, nfc - 1)):
                for nm, kw in (("none", None),) if nfc == 1 else delayed_states(K):
                    yield ("submit", nfc, typ, refresh, nxt, nm, kw)
    for nfc in (1, 2, 3):
        for nxt in ((0,) if nfc == 1 else (0, nfc - 1)):
            for ft in (0, 1):
                for nm, kw in (("none", None),) if nfc == 1 else delayed_states(K):
                    for sl in ("full", "empty"): yield ("show", nfc, ft, sl, nxt, nm, kw)
    for nfc in (2, 3):
        for nxt in range(nfc):
            for pat in range(5 ** nfc): yield ("drain", nfc, nxt, pat)
    for al, mx in ((1, 0), (1, 1), (0, 0), (0, 1), (0, 2)):
        for nfc in (1, 2):
            for have in ("", "out", "cache", "out cache"):
                yield ("ready", nfc, al, mx, have)

def with_ring(rw, nfc, nxt, nm, kw, K):
    rw.ring = R = Ring(rw, nfc)
    R.held = kw is not None and nm != "never begun"; R.base = 0; R.live = kw is not None
    if nfc > 1:
        rw.set("c", "task_thread.first", nxt)
        rw.set("c", "frame_thread.next", nxt)
        for k in range(nfc):
            if k != nxt: R.fill(k, "other%d" % k, K)
        if nm == "never begun": rw.set("fc", "task_thread.error", 1, nxt)
        elif kw is not None: R.fill(nxt, "delayed", K, **kw)
        rw.set("c", "output_invisible_frames", ("alts", [0, 1]))

def run(ctx):
    ctx.rule = ("Frame submission, showing an existing frame, drain and the picture call are evaluated by constant and symbolic-cell propagation (no execution) over every combination of frame threading, position in the ring of delayed frames, visibility, hidden-output setting, error status, "
                "failed progress and event flags of the frame that leaves.  All paths are held to one rule: the frame becomes output exactly when it is visible (or hidden output is on) and it did not fail, its event flags are raised exactly then, its error is taken exactly once, "
                "its slot is emptied or handed to the entering frame, and the ring advances by one so that frames leave in order.  The choice among spatial layers is compared with the documented rule for every combination of held layer, arriving layer, highest layer and drain.")
    ctx.assumptions += ["the failure mark of a frame's progress is UINT_MAX - 1 (FRAME_ERROR)", "in non-threaded operation the end of the packet ends the temporal unit"]
    P = obu_program(ctx); L = Lay(P); K = Consts(P)
    jobs = list(submit(ctx, P, L, K))
    def work(j):
        kind = j[0]
        if kind == "submit": do_submit(ctx, P, L, K, *j[1:])
        elif kind == "show": do_show(ctx, P, L, K, *j[1:])
        elif kind == "drain": do_drain(ctx, P, L, K, *j[1:])
        else: do_ready(ctx, P, L, K, *j[1:])
        ctx.count("configurations")
    parallel(ctx, lambda: jobs, work)
    ctx.require(ctx.cov.get("delivered", 0) > 0 and ctx.cov.get("withheld", 0) > 0, "no path delivers a frame")

def judge(ctx, f, kind):
    where = "%s:%d" % (f.file, f.line)
    return where, lambda m, cfg, k="rule": ctx.violation(where, "%s: %s [%s]" % (kind, m, cfg), f.name, k)

def do_submit(ctx, P, L, K, nfc, typ, refresh, nxt, nm, kw):
    rw = frame_world(ctx, P, L, nfc, typ, refresh)
    for m, v in (("primary_ref_frame", 7), ("segmentation.enabled", 0), ("segmentation.temporal", 0), ("segmentation.update_map", 1), ("refresh_context", 0), ("use_ref_frame_mvs", 0), ("allow_intrabc", 0)): rw.set("hdr", m, v)
    rw.set("seq", "sb128", 0)
    rw.set("hdr", "show_frame", ("alts", [0, 1])); rw.set("c", "frame_flags", ("alts", [0, K.SEQ | K.TU, K.OP])); rw.set("c", "output_invisible_frames", ("alts", [0, 1]))
    rw.set("hdr", "spatial_id", ("alts", [0, 1]) if nfc == 1 else 0); rw.set("c", "max_spatial_id", 0)
    with_ring(rw, nfc, nxt, nm, kw, K)
    w, f, res = rw.run("dav1d_submit_frame", {0: O("c")})
    where, bad0 = judge(ctx, f, "submitting a frame")
    cfg = "n_fc=%d, frame type %d, delayed frame: %s" % (nfc, typ, nm)
    bad = lambda m: bad0(m, cfg)
    for ev, rv, mem in res:
        snap = next((e[2] for e in ev if e[0] == "snap"), None)
        neg = isinstance(rv, int) and rv < 0
        made = next((e[2] for e in ev if e[0] == "snap" for _ in (0,)), {}) if snap else {}
        pic = made.get("sr_cur.p.ref") if snap else None
        if snap and not neg:      # flags wait for a frame that is output
            old = picked(ev, rw.at("c", "frame_flags"), 0); now = rw.get(w, mem, "c", "frame_flags"); ctx.count("pending_flags_compared")
            shown = picked(ev, rw.at("hdr", "show_frame"), None) or picked(ev, rw.at("c", "output_invisible_frames"), None)
            if shown and picked(ev, rw.at("hdr", "spatial_id"), 0) == 0:
                if now != 0: bad("the pending event flags are not consumed by the frame that carries them: they would be raised again")
            elif not shown and now != old & (K.SEQ | K.OP): bad("the pending event flags are consumed by a frame that is not output")
        if nfc > 1: step(ctx, P, L, K, "submit", rw, w, f, ev, rv, mem, bad, nxt, 0 if neg else pic)
        if nfc > 1:
            if not neg and snap:
                if rw.get(w, mem, "od", "visible", nxt) != picked(ev, rw.at("hdr", "show_frame"), 0): bad("the delayed frame's visibility is not that of its frame header")
            continue
        ctx.count("paths_judged")
        out = rw.get(w, mem, "c", "out.p.ref"); fl = rw.get(w, mem, "c", "event_flags")
        deliver = not neg and bool(picked(ev, rw.at("hdr", "show_frame"), 0) or picked(ev, rw.at("c", "output_invisible_frames"), 0))
        ctx.count("delivered" if deliver else "withheld")
        if neg:
            if out != 0: bad("a frame that fails stays output")
            continue
        if deliver and out != pic: bad("a visible, correctly decoded frame does not become output")
        if not deliver and out != 0: bad("a hidden frame becomes output")
        want = K.events(picked(ev, rw.at("c", "frame_flags"), 0)) if deliver else 0
        if fl != want: bad("the event flags of the frame are %s" % ("lost although it becomes output" if deliver else "raised although it does not become output"))

def do_show(ctx, P, L, K, nfc, ft, sl, nxt, nm, kw):
    rw = obu_world(ctx, P, L, nfc, 3, hdr=dict(show_existing_frame=1, existing_frame_idx=3), slots={3: sl})
    if sl == "full": rw.set("slothdr3", "frame_type", ft); rw.set("c", "refs[3].p.flags", ("alts", [0, K.SEQ, K.OP])); rw.set("c", "refs[3].p.visible", ("alts", [0, 1]))
    with_ring(rw, nfc, nxt, nm, kw, K)
    w, f, res = parse(rw)
    where, bad0 = judge(ctx, f, "showing an existing frame")
    cfg = "n_fc=%d, frame type %d, slot %s, delayed frame: %s" % (nfc, ft, sl, nm)
    bad = lambda m: bad0(m, cfg)
    shown = 0
    for ev, rv, mem in res:
        neg = isinstance(rv, int) and rv < 0
        if neg:
            ctx.count("paths_judged")
            if rw.get(w, mem, "c", "out.p.ref") != 0: bad("an operation that fails leaves a frame as output")
            if rw.get(w, mem, "c", "event_flags") != 0: bad("an operation that fails raises event flags")
            if nfc > 1 and rw.get(w, mem, "c", "frame_thread.next") != nxt: bad("an operation that fails advances the queue of delayed frames")
            continue
        shown += 1
        if nfc > 1:
            step(ctx, P, L, K, "show", rw, w, f, ev, rv, mem, bad, nxt, O("slot3:p.ref"))
            if rw.get(w, mem, "od", "visible", nxt) != 1: bad("the shown frame is queued as hidden")
            continue
        ctx.count("paths_judged"); ctx.count("delivered")
        if rw.get(w, mem, "c", "out.p.ref") != O("slot3:p.ref"): bad("the frame shown does not become output")
        if rw.get(w, mem, "c", "event_flags") != K.events(picked(ev, rw.at("c", "refs[3].p.flags"), 0)): bad("the event flags of the shown frame are not raised")
    if sl == "full" and not shown: bad("an existing frame can never be shown")

def do_drain(ctx, P, L, K, nfc, nxt, pat):
    """pat: per ring position, oldest first: 0 nothing, 1 deliverable, 2 hidden or failed progress, 3 error, 4 a frame whose submission failed"""
    kinds = [pat // 5 ** k % 5 for k in range(nfc)]
    rw = api_world(ctx, P, L, nfc)
    rw.objs("out", "Dav1dPicture", 1)
    rw.set("c", "drain", 1); rw.set("c", "apply_grain", 0); rw.set("c", "max_spatial_id", 0)
    rw.set("c", "frame_thread.next", nxt)
    oif = 0
    R = Ring(rw, nfc)
    for j, k in enumerate(kinds):
        s = (nxt + j) % nfc
        if k == 1: R.fill(s, "delayed%d" % s, K, visible=1, flags=K.SEQ if j else K.OP)
        elif k == 2:
            if j & 1: R.fill(s, "delayed%d" % s, K, visible=0, flags=K.SEQ | K.OP)
            else: R.fill(s, "delayed%d" % s, K, visible=1, progress=K.FERR, flags=K.SEQ | K.OP)
        elif k == 3:
            R.fill(s, "delayed%d" % s, K, retval=-22 - j, flags=K.SEQ | K.OP); rw.set("fc", "task_thread.error", 1, s)
        elif k == 4: rw.set("fc", "task_thread.error", 1, s)
    rw.set("c", "task_thread.first", (nxt + next((j for j, k in enumerate(kinds) if k), 0)) % nfc)
    w, f, res = rw.run("dav1d_get_picture", {0: O("c"), 1: O("out")})
    where, bad0 = judge(ctx, f, "draining")
    cfg = "n_fc=%d, oldest in slot %d, frames %s" % (nfc, nxt, ", ".join(("none", "good", "hidden", "failed", "never begun")[k] if k != 2 or j & 1 else "broken" for j, k in enumerate(kinds)))
    bad = lambda m: bad0(m, cfg)
    # what leaves: everything up to the first deliverable or failing one
    first = next((j for j, k in enumerate(kinds) if k in (1, 3)), None)
    b4 = R.seq(w, Mem())
    for ev, rv, mem in res:
        ctx.count("paths_judged")
        out = rw.get(w, mem, "out", "ref")
        after = R.seq(w, mem)
        ctx.count("queues_compared")
        if after is None: bad("the queue position is no longer valid"); continue
        live = lambda s: [(r, e) for r, e in s if r != 0 or e != 0]
        # the frames that left: the queue moved on by this many places
        if 0 not in kinds:
            gone = (rw.get(w, mem, "c", "frame_thread.next") - nxt) % nfc
            if rw.get(w, mem, "c", "task_thread.first") != (nxt + gone) % nfc: bad("the oldest frame in flight is not the one that follows in the queue")
        used = first + 1 if first is not None else nfc
        # a gap after released frames ends one drain step: then nothing may have been delivered and the rest stays
        if rv == 0:
            if first is None or kinds[first] != 1: bad("a picture is returned although no frame may be output"); continue
            if out != O("delayed%d:p.ref" % ((nxt + first) % nfc)): bad("the picture returned is not the oldest one that may be output")
            fl = rw.get(w, mem, "c", "event_flags")
            if fl != K.events(K.SEQ if first else K.OP): bad("the event flags raised are not those of the picture returned")
            rest = b4[first + 1:]
            ctx.count("delivered")
        else:
            ctx.count("withheld")
            if out != 0: bad("a failing call returns a picture")
            gap = next((j for j in range(1, nfc) if kinds[j] == 0 and any(kinds[:j])), None)
            if first is not None and (gap is None or first < gap):
                if kinds[first] == 1: bad("the oldest frame that may be output is not returned")
                elif signed(rv) != -22 - first: bad("the error of the oldest failing frame is not the one returned")
                rest = b4[first + 1:]
            elif signed(rv) != -11: bad("a call with nothing to return does not say so"); rest = []
            else: rest = None
            if rw.get(w, mem, "c", "event_flags") != 0: bad("event flags of a frame that is not output are raised")
        if rest is None:      # hidden and broken frames may have been dropped, oldest first
            a, b = live(after), live(b4)
            hid = {O("delayed%d:p.ref" % ((nxt + j) % nfc)) for j, k in enumerate(kinds) if k == 2}
            if b[len(b) - len(a):] == a and all(r in hid for r, e in b[:len(b) - len(a)]): continue
            rest = b
        if live(after) != live(rest): bad("the frames left in the queue, oldest first, are not the ones that had not left yet")

def do_ready(ctx, P, L, K, nfc, al, mx, have):
    rw = api_world(ctx, P, L, nfc)
    rw.objs("out", "Dav1dPicture", 1)
    rw.set("c", "apply_grain", 0); rw.set("c", "all_layers", al); rw.set("c", "max_spatial_id", mx); rw.set("c", "drain", ("alts", [0, 1]))
    off = L.off("Dav1dFrameHeader", "spatial_id")
    if "out" in have: rw.fill_handle("c", "out", "ready", "Dav1dThreadPicture"); rw.set("c", "out.flags", ("alts", [0, K.TU])); rw.cells[("ready>p.frame_hdr", off)] = ("alts", [0, mx])
    if "cache" in have: rw.fill_handle("c", "cache", "cached", "Dav1dThreadPicture"); rw.cells[("cached>p.frame_hdr", off)] = ("alts", [0, 1, 2]); rw.set("c", "cache.flags", ("alts", [0, K.TU]))
    w, f, res = rw.run("dav1d_get_picture", {0: O("c"), 1: O("out")})
    where, bad0 = judge(ctx, f, "choosing the layer")
    bad = lambda m, cfg: bad0(m, cfg, "layer")
    for ev, rv, mem in res:
        ctx.count("paths_judged"); ctx.count("layer_choices")
        drain = picked(ev, rw.at("c", "drain"), 0)
        tu = bool(picked(ev, rw.at("c", "out.flags"), 0) & K.TU)
        cid = picked(ev, ("ptr", ("obj", "cached>p.frame_hdr"), off), None)
        end = nfc == 1 or bool(drain)
        outr = rw.get(w, mem, "out", "ref"); co = rw.get(w, mem, "c", "out.p.ref"); cc = rw.get(w, mem, "c", "cache.p.ref")
        R, C = O("ready:p.ref"), O("cached:p.ref")
        cfg = "n_fc=%d, %s%s, %s" % (nfc, "all layers" if al or not mx else "highest layer only", ", highest %d" % mx, have or "nothing ready")
        if al or not mx: want = (R if "out" in have else 0, 0, C if "cache" in have else 0); alt = ()
        elif have == "": want = (0, 0, 0); alt = ()
        elif have == "cache": want = (C, 0, 0) if end else (0, 0, C); alt = ()
        elif have == "out":      # it becomes the held layer; it is output when nothing can follow
            want = (R, 0, 0) if end else (0, 0, R); alt = ()
            if not end: alt = ((0, R, 0),)
        else:
            # a value the path never looked at may be any: the outcome must be right for all of them
            cids = (0, 1, 2) if cid is None else (cid,)
            tus = (0, 1) if not any(e[0] == "pick" and e[2] == rw.at("c", "out.flags") for e in ev) else (tu,)
            sets = [{(C, 0, R), (C, R, 0)} if t or x == mx else {(R, 0, 0) if end else (0, 0, R)} for x in cids for t in tus]
            ok = set.intersection(*sets)
            if not ok:
                bad("whether a held layer is output does not depend on its being the highest one and on a new temporal unit beginning", cfg); continue
            want = (C, 0, R) if (C, 0, R) in ok else next(iter(ok)); alt = ok
        got = (outr, co, cc)
        if got != want and got not in alt:
            if got[0] != want[0]: bad("%s" % ("a picture is returned that should still wait for a higher layer" if want[0] == 0 else "the picture that should be returned is not"), cfg)
            else: bad("a layer is lost or kept in the wrong place", cfg)
        if (rv == 0) != (outr != 0): bad("the result of the call does not say whether a picture was returned", cfg)
