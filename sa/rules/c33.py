"""C33: every picture carries the headers, metadata and packet properties that belong to it."""
from decworld import *
from c23 import picked
from c16 import props

HDR = ("content_light", "mastering_display", "itut_t35")

def pic(rw, w, mem, obj, path, idx=0):
    base = rw.at(obj, path, idx)[2] if path else idx * rw.L.size(rw.types[obj][0])
    d = {}
    for o, k, p in rw.leaves("Dav1dPicture"): d[p] = w.read(mem, O(obj, base + o), "ptr" if k in ("ref", "ptr") else k)
    return d

NAME = dict(seq_hdr="sequence header", seq_hdr_ref="sequence header reference", frame_hdr="frame header", frame_hdr_ref="frame header reference")
def label(p):
    r = p.split(".")[0].split("[")[0]
    if p.startswith("m."): return "packet " + p[2:]
    if p.startswith("p."): return {"p.w": "width", "p.h": "height", "p.layout": "chroma layout", "p.bpc": "bit depth"}.get(p, p)
    return NAME.get(p, r.replace("_", " "))

def expect(ctx, got, want, bad, who):
    for k, v in want.items():
        ctx.count("members_compared")
        vs = v if isinstance(v, list) else [v]
        if got.get(k) not in vs: bad("%s does not carry its own %s" % (who, label(k)))

def ring_free(rw, nfc):
    if nfc > 1: rw.set("c", "frame_thread.next", 0)

def t35(rw, present):
    if not present:
        for m in ("itut_t35", "itut_t35_ref", "n_itut_t35"): rw.set("c", m, 0)
    else: rw.set("c", "n_itut_t35", 3)

def hdr_expect(have):
    d = {}
    for m in HDR:
        on = have.get(m, True)
        d[m] = O("held." + m) if on else 0; d[m + "_ref"] = O("held.%s_ref" % m) if on else 0
    d["n_itut_t35"] = 3 if have.get("itut_t35", True) else 0
    return d
NOHDR = {k: 0 for m in HDR for k in (m, m + "_ref")}; NOHDR["n_itut_t35"] = 0

def ctx_meta(ctx, rw, w, mem, bad, attached, have):
    g = lambda p: rw.get(w, mem, "c", p)
    for m in ("content_light", "mastering_display"):
        ctx.count("members_compared")
        if g(m) != rw.cells[("c", rw.at("c", m)[2])] or g(m + "_ref") != rw.cells[("c", rw.at("c", m + "_ref")[2])]: bad("the %s in force for the following pictures is lost" % m.replace("_", " "))
    left = [g(m) for m in ("itut_t35", "itut_t35_ref", "n_itut_t35")]
    ctx.count("members_compared")
    if attached and left != [0, 0, 0]: bad("T.35 metadata that was attached to a picture is attached to the next one as well")
    if not attached and have and left != [O("held.itut_t35"), O("held.itut_t35_ref"), 3]: bad("T.35 metadata is dropped by a picture it was not attached to")

def do_submit(ctx, P, L, nfc, typ, have, scaled):
    rw = frame_world(ctx, P, L, nfc, typ, 0x11)
    for m, v in (("primary_ref_frame", 7), ("segmentation.enabled", 0), ("segmentation.temporal", 0), ("segmentation.update_map", 1), ("use_ref_frame_mvs", 0), ("allow_intrabc", 0), ("refresh_context", 0)): rw.set("hdr", m, v)
    rw.set("seq", "sb128", 0); rw.set("seq", "layout", 2); rw.set("seq", "hbd", 1)
    rw.set("hdr", "show_frame", ("alts", [0, 1])); rw.set("c", "output_invisible_frames", 1)
    rw.set("hdr", "width[0]", 48 if scaled else 64); rw.set("hdr", "width[1]", 64); rw.set("hdr", "height", 96); rw.set("hdr", "showable_frame", ("alts", [0, 1]))
    for j in range(8):
        rw.set("c", "refs[%d].p.p.p.layout" % j, 2); rw.set("c", "refs[%d].p.p.p.bpc" % j, 10)
    ring_free(rw, nfc); t35(rw, have.get("itut_t35", True))
    for m in ("content_light", "mastering_display"):
        if not have.get(m, True): rw.set("c", m, 0); rw.set("c", m + "_ref", 0)
    rw.fill_handle("c", "in", "pkt", "Dav1dData"); packet_props(rw, "c", "in.", 1111); packet_props(rw, "tile", "data.", 5551)
    w, f, res = rw.run("dav1d_submit_frame", {0: O("c")})
    where = "%s:%d" % (f.file, f.line)
    cfg = "n_fc=%d, frame type %d, %s%s" % (nfc, typ, "with " + ", ".join(m for m in HDR if have.get(m, True)) if any(have.get(m, True) for m in HDR) else "no metadata", ", superres" if scaled else "")
    def bad(m): ctx.violation(where, "submitting a frame: %s [%s]" % (m, cfg), f.name, "picture")
    n = 0
    td = {"m." + p: v for p, v in props(rw, w, Mem(), "tile", "data.m")}
    for ev, rv, mem in res:
        if isinstance(rv, int) and rv < 0: continue
        n += 1; ctx.count("paths_judged")
        vis = picked(ev, rw.at("hdr", "show_frame"), None)
        if vis is None: bad("whether the frame is visible plays no part"); continue
        seqr, hdrr = O("seqref"), O("hdrref")
        want = dict(seq_hdr=O("seq"), seq_hdr_ref=seqr, frame_hdr=O("hdr"), frame_hdr_ref=hdrr, **td, **(hdr_expect(have) if vis else NOHDR))
        want.update({"p.w": 64, "p.h": 96, "p.layout": 2, "p.bpc": 10})
        for who, obj, path in (("the picture to output", "c", "out.p") if nfc == 1 else ("the delayed picture", "od", "p"), ("the picture in a refreshed slot", "c", "refs[4].p.p")):
            expect(ctx, pic(rw, w, mem, obj, path), want, bad, who)
        if nfc > 1:      # a frame still to be decoded: its pixels at coded size
            for k, v in {"p.w": 48 if scaled else 64, "p.h": 96, "p.layout": 2, "p.bpc": 10}.items():
                ctx.count("members_compared")
                if pic(rw, w, mem, "fc", "cur").get(k) != v: bad("the picture to decode into does not have the %s of the frame" % label(k))
        if rw.get(w, mem, "c", "refs[4].p.showable") != picked(ev, rw.at("hdr", "showable_frame"), 0): bad("the picture in a refreshed slot is not marked showable as its frame header says")
        ctx_meta(ctx, rw, w, mem, bad, vis, have.get("itut_t35", True))
    if not n: bad("no path submits a frame")

def do_show(ctx, P, L, nfc, ft, have):
    rw = obu_world(ctx, P, L, nfc, 3, hdr=dict(show_existing_frame=1, existing_frame_idx=3), slots={3: "full"})
    rw.set("slothdr3", "frame_type", ft)
    ring_free(rw, nfc); t35(rw, have.get("itut_t35", True))
    for m in ("content_light", "mastering_display"):
        if not have.get(m, True): rw.set("c", m, 0); rw.set("c", m + "_ref", 0)
    w, f, res = parse(rw)
    where = "%s:%d" % (f.file, f.line)
    cfg = "n_fc=%d, frame type %d, %s" % (nfc, ft, "with " + ", ".join(m for m in HDR if have.get(m, True)) if any(have.get(m, True) for m in HDR) else "no metadata")
    def bad(m): ctx.violation(where, "showing an existing frame: %s [%s]" % (m, cfg), f.name, "picture")
    slot = pic(rw, w, Mem(), "c", "refs[3].p.p")
    me = {"m." + p: v for p, v in props(rw, w, Mem(), "c", "in.m")}
    n = 0
    for ev, rv, mem in res:
        if isinstance(rv, int) and rv < 0: continue
        n += 1; ctx.count("paths_judged")
        want = dict(slot); want.update(me); want.update(hdr_expect(have))
        got = pic(rw, w, mem, "c", "out.p") if nfc == 1 else pic(rw, w, mem, "od", "p")
        expect(ctx, got, want, bad, "the picture shown")
        now = pic(rw, w, mem, "c", "refs[3].p.p")
        for k, v in slot.items():
            ctx.count("members_compared")
            if now[k] != v: bad("showing the picture changes the %s of its slot" % label(k))
        ctx_meta(ctx, rw, w, mem, bad, True, have.get("itut_t35", True))
    if not n: bad("an existing frame can never be shown")

def do_get(ctx, P, L, layers, grain, ntc):
    """a picture on its way out, with and without film grain"""
    for src in (("c", "out"),) if not layers else (("c", "cache"),):
        rw = api_world(ctx, P, L)
        rw.objs("out", "Dav1dPicture", 1)
        rw.set("c", "apply_grain", grain); rw.set("c", "all_layers", 0); rw.set("c", "max_spatial_id", layers); rw.set("c", "n_tc", ntc)
        path = src[1]
        rw.fill_handle("c", path, "ready", "Dav1dThreadPicture"); packet_props(rw, "c", path + ".p.", 3331)
        rw.set("c", path + ".p.n_itut_t35", 2)
        for k, v in (("w", 640), ("h", 360), ("layout", 3), ("bpc", 10)): rw.set("c", path + ".p.p." + k, v)
        if grain: rw.cells[("ready>p.frame_hdr", L.off("Dav1dFrameHeader", "film_grain.data.num_y_points"))] = 2
        rw.cells[("ready>p.seq_hdr", L.off("Dav1dSequenceHeader", "layout"))] = 3
        # the allocation a picture came from, which a copy is made with
        rw.cells[("ready:p.ref", L.off("Dav1dRef", "const_data"))] = O("poolbuf"); rw.cells[("poolbuf", L.off("Dav1dMemPoolBuffer", "data"))] = O("picctx")
        w, f, res = rw.run("dav1d_get_picture", {0: O("c"), 1: O("out")})
        where = "%s:%d" % (f.file, f.line)
        cfg = "%s, film grain %s, n_tc=%d" % ("highest layer only" if layers else "one layer", "applied" if grain else "off", ntc)
        def bad(m): ctx.violation(where, "returning a picture: %s [%s]" % (m, cfg), f.name, "picture")
        b = pic(rw, w, Mem(), "c", path + ".p")
        n = 0
        for ev, rv, mem in res:
            if isinstance(rv, int) and rv < 0 or rv is UNK: continue
            n += 1; ctx.count("paths_judged")
            want = dict(b)
            if grain:
                for k in list(want):
                    if k.startswith("data[") or k.startswith("stride") or k in ("ref", "allocator_data") or k.startswith("reserved"): del want[k]
            expect(ctx, pic(rw, w, mem, "out", ""), want, bad, "the picture returned")
            if grain and rw.get(w, mem, "out", "data[0]") == b["data[0]"]: bad("the film-grained picture shares the pixels of the reference picture")
        if not n: bad("no picture can be returned")

def do_t35(ctx, P, L, have, ext):
    """each T.35 payload of a frame is kept, in order"""
    rw = obu_world(ctx, P, L, 1, 5, payload=(4, 0xff, 7, 1, 2, 3, 0x80) if ext else (4, 0xb5, 1, 2, 3, 0x80))
    t35(rw, have)
    w, f, res = parse(rw)
    where = "%s:%d" % (f.file, f.line)
    def bad(m): ctx.violation(where, "T.35 metadata: %s [%s]" % (m, "further payload" if have else "first payload"), f.name, "t35")
    n = 0
    for ev, rv, mem in res:
        if isinstance(rv, int) and rv < 0 or rw.failed(ev): continue
        n += 1; ctx.count("paths_judged")
        cnt = rw.get(w, mem, "c", "n_itut_t35"); a = rw.get(w, mem, "c", "itut_t35")
        if cnt != (4 if have else 1): bad("the number of payloads does not grow by one")
        if a == 0 or rw.get(w, mem, "c", "itut_t35_ref") == 0: bad("the payload is not kept")
        elif w.ptr(a):
            base = a[2] + (3 if have else 0) * L.size("Dav1dITUTT35")
            rd = lambda p, ty: w.read(mem, ("ptr", a[1], base + L.off("Dav1dITUTT35", p)), ty)
            cc = rd("country_code", "i8")
            ctx.count("members_compared", 3)
            if cc is None or cc & 255 != (0xff if ext else 0xb5): bad("the country code is not kept")
            pl = rd("payload", "ptr")
            if not w.ptr(pl) or pl[2] is None: bad("the payload has no storage")
            else:
                ctx.count("members_compared", 3)
                if [w.read(mem, ("ptr", pl[1], pl[2] + q), "i8") for q in range(3)] != [1, 2, 3]: bad("the bytes of the payload are not those of the bitstream")
            if rd("payload_size", "i64") not in (3,): bad("the size of the payload is not kept")
            if ext and rd("country_code_extension_byte", "i8") != 7: bad("the country code extension is not kept")
    if not n: bad("a valid payload is never kept")

def do_hdr_meta(ctx, P, L, kind):
    """the values of HDR metadata are those of the bitstream, in the order the specification lays them out"""
    if kind == "content_light":
        st, fields, head = "Dav1dContentLightLevel", [("max_content_light_level", 16), ("max_frame_average_light_level", 16)], 1
    else:
        st, head = "Dav1dMasteringDisplay", 2
        fields = [("primaries[%d][%d]" % (i, j), 16) for i in range(3) for j in range(2)] + [("white_point[0]", 16), ("white_point[1]", 16), ("max_luminance", 32), ("min_luminance", 32)]
    vals = []; by = []
    for k, (m, n) in enumerate(fields):
        v = int("".join("%02x" % (16 * k + 3 * q + 1 & 0x7f) for q in range(n // 8)), 16); vals.append(v); by += list(v.to_bytes(n // 8, "big"))
    rw = obu_world(ctx, P, L, 1, 5, payload=tuple([head] + by + [0x80]))
    w, f, res = parse(rw)
    where = "%s:%d" % (f.file, f.line)
    n = 0
    for ev, rv, mem in res:
        if isinstance(rv, int) and rv < 0 or rw.failed(ev): continue
        n += 1; ctx.count("paths_judged")
        a = rw.get(w, mem, "c", kind)
        if not w.ptr(a) or a == O("held." + kind) or rw.get(w, mem, "c", kind + "_ref") in (0, O("held.%s_ref" % kind)):
            ctx.violation(where, "new %s metadata does not come into force" % kind.replace("_", " "), f.name, "meta"); continue
        for (m, b), v in zip(fields, vals):
            ctx.count("members_compared")
            if w.read(mem, ("ptr", a[1], a[2] + L.off(st, m)), "i%d" % b) != v: ctx.violation(where, "%s.%s is not the value the bitstream has for it" % (kind, m), f.name, "meta")
    if not n: ctx.violation(where, "valid %s metadata is never accepted" % kind.replace("_", " "), f.name, "meta")

def run(ctx):
    ctx.rule = ("Frame submission, showing an existing frame, metadata parsing and the picture call are evaluated by constant and symbolic-cell propagation (no execution) over states in which every header, packet property and metadata block is a distinct symbolic object.  Each member of every picture that results "
                "(queued for output, delayed, in a reference slot, returned) is compared with the object it must come from: headers of its own frame, properties of the packet of its tile data (or of the packet that shows it), metadata in force if it is visible and none otherwise, T.35 payloads handed to exactly one picture; "
                "the copy made for film grain keeps all of them.")
    P = obu_program(ctx); L = Lay(P)
    jobs = []
    haves = [{}, {"itut_t35": False}, {"content_light": False}, {"mastering_display": False}, {m: False for m in HDR}]
    for nfc in (1, 2):
        for typ in (0, 1, 2):
            for have in haves if typ == 0 else haves[:1]:
                for sc in (0, 1): jobs.append(lambda nfc=nfc, typ=typ, have=have, sc=sc: do_submit(ctx, P, L, nfc, typ, have, sc))
        for ft in (0, 1):
            for have in haves: jobs.append(lambda nfc=nfc, ft=ft, have=have: do_show(ctx, P, L, nfc, ft, have))
    for layers in (0, 1):
        for grain in (0, 1):
            for ntc in (1, 2): jobs.append(lambda l=layers, g=grain, n=ntc: do_get(ctx, P, L, l, g, n))
    for have in (False, True):
        for ext in (0, 1): jobs.append(lambda h=have, e=ext: do_t35(ctx, P, L, h, e))
    for k in ("content_light", "mastering_display"): jobs.append(lambda k=k: do_hdr_meta(ctx, P, L, k))
    def work(j): j(); ctx.count("configurations")
    parallel(ctx, lambda: jobs, work)
