"""C24: a reference slot is always replaced as a whole."""
from decworld import *
from itertools import product

def slot_state(rw, w, mem, j):
    g = lambda p: rw.get(w, mem, "c", p)
    return dict(pic=g("refs[%d].p.p.ref" % j), data=g("refs[%d].p.p.data[0]" % j), fh=g("refs[%d].p.p.frame_hdr" % j), fhr=g("refs[%d].p.p.frame_hdr_ref" % j),
                seg=g("refs[%d].segmap" % j), mvs=g("refs[%d].refmvs" % j), cdf=g("cdf[%d].ref" % j))

NAMES = dict(pic="picture", data="picture data", fh="frame header", fhr="frame header reference", seg="segmentation map", mvs="motion field", cdf="probability tables")

def submit(ctx, P, L):
    f = P.fn("dav1d_submit_frame")
    ctx.require(f is not None, "dav1d_submit_frame is gone")
    where = "%s:%d" % (f.file, f.line)
    KEYF = [(0, 0xff), (0, 0x24), (1, 0x81), (2, 0x10), (3, 0xff), (1, 0)]
    for nfc in (1, 2):
        for typ, refresh in KEYF:
            rw = frame_world(ctx, P, L, nfc, typ, refresh)
            rw.set("hdr", "show_frame", ("alts", [0, 1])); rw.set("hdr", "showable_frame", ("alts", [0, 1]))
            w, f, res = rw.run(f, {0: O("c")})
            before = {j: slot_state(rw, w, Mem(), j) for j in range(8)}
            cfg = "n_fc=%d, %s frame, refresh 0x%02x" % (nfc, ["key", "inter", "intra", "switch"][typ], refresh)
            def bad(m): ctx.violation(where, "dav1d_submit_frame: %s [%s]" % (m, cfg), "dav1d_submit_frame", "slot")
            ok = 0
            for ev, rv, mem in res:
                snap = next((e[2] for e in ev if e[0] == "snap"), None)
                after = {j: slot_state(rw, w, mem, j) for j in range(8)}
                picks = {e[2][2]: e[3] for e in ev if e[0] == "pick" and e[2][1] == ("obj", "hdr")}
                hv = lambda m, d=0: picks.get(L.off("Dav1dFrameHeader", m), rw.cells.get(("hdr", L.off("Dav1dFrameHeader", m)), d))
                why = rw.failed(ev)
                for j in range(8):
                    ctx.count("slots_compared")
                    a, b = after[j], before[j]
                    if not refresh >> j & 1:
                        for k in a:
                            if a[k] != b[k]: bad("%s of a slot that is not refreshed changes%s" % (NAMES[k], " when " + why[-1] if why else ""))
                        continue
                    failed = isinstance(rv, int) and rv < 0
                    if failed:
                        same = all(a[k] == b[k] for k in a); empty = all(v == 0 for v in a.values())
                        if not (same or empty):
                            mix = [NAMES[k] for k in a if a[k] != 0]
                            bad("a refreshed slot is neither emptied nor left alone when the frame fails (%s): it keeps %s" % (why[-1] if why else "error", ", ".join(mix)))
                        if same and snap is not None: bad("a refreshed slot keeps its old frame although decoding had begun (%s)" % (why[-1] if why else "error"))
                        continue
                    if snap is None: continue
                    ok += 1
                    want = dict(pic=snap["sr_cur.p.ref"], data=snap["sr_cur.p.data[0]"], fh=snap["sr_cur.p.frame_hdr"], fhr=snap["sr_cur.p.frame_hdr_ref"], seg=snap["cur_segmap_ref"],
                                cdf=snap["out_cdf.ref"] if hv("refresh_context") else snap["in_cdf.ref"])
                    for k, v in want.items():
                        ctx.count("members_compared")
                        if a[k] != v: bad("the refreshed slot does not get the %s of the new frame" % NAMES[k])
                    if a["mvs"] not in ((0,) if hv("allow_intrabc") else (snap["mvs_ref"],)): bad("the refreshed slot does not get the motion field of the new frame")
                    if hv("frame_type") in (1, 3) and not hv("allow_intrabc"):
                        for k in range(7):
                            ctx.count("members_compared")
                            if rw.get(w, mem, "c", "refs[%d].refpoc[%d]" % (j, k)) != 100 + (k + 1 & 7): bad("the refreshed slot does not get the reference positions of the new frame's motion field")
                    if a["mvs"] != 0 and not (hv("frame_type") in (1, 3)): bad("the slot of an intra frame gets a motion field")
                if refresh and not (isinstance(rv, int) and rv < 0) and snap is None: bad("a frame is accepted but never decoded")
            if not ok and refresh: bad("no path refreshes the slots")
            ctx.count("configurations")

def show_key(ctx, P, L):
    """showing an existing key frame loads it into every slot"""
    f = P.fn("dav1d_parse_obus"); ctx.require(f is not None, "dav1d_parse_obus is gone")
    where = "%s:%d" % (f.file, f.line)
    for nfc in (1, 2):
        for r in (0, 5):
            for others in ("full", "empty", "header"):
                rw = obu_world(ctx, P, L, nfc, 3, hdr=dict(show_existing_frame=1, existing_frame_idx=r), slots={j: "full" if j == r else others for j in range(8)})
                rw.set("slothdr%d" % r, "frame_type", 0)
                w, f, res = parse(rw)
                before = {j: slot_state(rw, w, Mem(), j) for j in range(8)}
                n = 0
                for ev, rv, mem in res:
                    if isinstance(rv, int) and rv < 0: continue
                    n += 1
                    a = {j: slot_state(rw, w, mem, j) for j in range(8)}
                    for j in range(8):
                        for k in a[j]:
                            ctx.count("members_compared")
                            want = before[r][k] if k != "mvs" or j == r else 0
                            if a[j][k] != want: ctx.violation(where, "showing an existing key frame: %s does not get its %s [n_fc=%d, other slots %s]" % ("the slot shown" if j == r else "another slot", NAMES[k], nfc, others), "dav1d_parse_obus", "slot")
                if not n: ctx.violation(where, "an existing key frame can never be shown [n_fc=%d]" % nfc, "dav1d_parse_obus", "slot")
                ctx.count("configurations")

def new_sequence(ctx, P, L):
    """a sequence header either leaves all slots alone or empties all of them"""
    f = P.fn("dav1d_parse_obus"); where = "%s:%d" % (f.file, f.line)
    for others in ("full", "header"):
        rw = obu_world(ctx, P, L, 1, 1, slots={j: others for j in range(8)})
        w, f, res = parse(rw)
        before = {j: slot_state(rw, w, Mem(), j) for j in range(8)}
        seen = set()
        for ev, rv, mem in res:
            a = {j: slot_state(rw, w, mem, j) for j in range(8)}
            ctx.count("members_compared", 8 * 7)
            if a == before: seen.add("kept")
            elif all(v == 0 for s in a.values() for v in s.values()): seen.add("emptied")
            else:
                left = sorted({NAMES[k] for s in a.values() for k, v in s.items() if v != 0})
                ctx.violation(where, "a sequence header empties the slots only in part: %s kept [slots %s]" % (", ".join(left), others), "dav1d_parse_obus", "slot")
        if "emptied" not in seen: ctx.violation(where, "a different sequence header never empties the slots", "dav1d_parse_obus", "slot")
        ctx.count("configurations")

def run(ctx):
    ctx.rule = ("dav1d_submit_frame and dav1d_parse_obus are evaluated by constant and symbolic-cell propagation (no execution) over a decoder whose eight slots each hold distinct buffers, for every frame type, several refresh masks, "
                "with and without frame threads, and with every fallible step failing once.  On return each refreshed slot must hold picture, headers, probability tables, segmentation map and motion field (with its reference positions) of one frame, or nothing; slots that are not refreshed keep everything.  The same is required of a shown key frame (every other slot gets what its slot has, without motion field) and of a sequence header (all slots emptied or none).")
    P = obu_program(ctx); L = Lay(P)
    submit(ctx, P, L)
    show_key(ctx, P, L)
    new_sequence(ctx, P, L)
