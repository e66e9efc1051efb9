"""Worlds for the two big steps of the decoder: submitting a frame and parsing an OBU."""
from refworld import *

FRAME_HELD = ["refp[0]", "refp[1]", "refp[2]", "refp[3]", "refp[4]", "refp[5]", "refp[6]", "ref_mvs_ref[0]", "ref_mvs_ref[1]", "ref_mvs_ref[2]", "ref_mvs_ref[3]", "ref_mvs_ref[4]",
              "ref_mvs_ref[5]", "ref_mvs_ref[6]", "cur", "sr_cur", "in_cdf", "out_cdf", "cur_segmap_ref", "prev_segmap_ref", "mvs_ref", "seq_hdr_ref", "frame_hdr_ref"]

def release_frame(rw, w, i, f, mem, ev):
    """what ending a frame does to the handles of its frame context (decided by C17): every one is emptied"""
    for m in FRAME_HELD:
        r = rw.L.find("Dav1dFrameContext", m)
        rw.ctx.require(r is not None, "Dav1dFrameContext.%s is gone" % m)
        d = r[2]; base = f[2] + r[0]
        st = d.get("name") if d["k"] == "struct" else None
        for o, k, p in (rw.leaves(st) if st else [(0, "ref", "")]):
            a = ("ptr", f[1], base + o)
            if k == "ref":
                v = w.read(mem, a, "ptr")
                if v != 0: ev.append(("dec", i, v))
            if k in ("ref", "ptr"): mem.store(a, 0)
    t = w.read(mem, ("ptr", f[1], f[2] + rw.L.off("Dav1dFrameContext", "tile")), "ptr")
    n = w.read(mem, ("ptr", f[1], f[2] + rw.L.off("Dav1dFrameContext", "n_tile_data")), "i32")
    if w.ptr(t) and isinstance(n, int):
        for j in range(n):
            b = t[2] + j * rw.L.size("Dav1dTileGroup") + rw.L.off("Dav1dTileGroup", "data")
            for o, k, p in rw.leaves("Dav1dData"):
                a = ("ptr", t[1], b + o)
                if k == "ref":
                    v = w.read(mem, a, "ptr")
                    if v != 0: ev.append(("dec", i, v))
                if k in ("ref", "ptr"): mem.store(a, 0)

def m_decode(rw, w, i, av, mem, ev):
    """single-threaded decoding of a frame: succeeds or fails, the frame context is emptied either way"""
    ev.append(("decode", i))
    f = av[0]
    snapshot(rw, w, f, mem, ev, i)
    release_frame(rw, w, i, f, mem, ev)
    mem.store(("ptr", f[1], f[2] + rw.L.off("Dav1dFrameContext", "n_tile_data")), 0)
    return ("alts", [(0, None), (-22, "decoding the frame fails")])
def m_task_init(rw, w, i, av, mem, ev):
    ev.append(("queued", i))
    snapshot(rw, w, av[0], mem, ev, i)
    return 0 if i.ty != "void" else UNK

def snapshot(rw, w, f, mem, ev, i):
    """what the frame holds at the moment it starts to be decoded"""
    d = {}
    for m in ("sr_cur.p.ref", "sr_cur.p.data[0]", "sr_cur.p.frame_hdr", "sr_cur.p.frame_hdr_ref", "sr_cur.p.seq_hdr", "sr_cur.p.seq_hdr_ref", "cur_segmap_ref", "mvs_ref", "in_cdf.ref", "out_cdf.ref"):
        d[m] = w.read(mem, ("ptr", f[1], f[2] + rw.L.off("Dav1dFrameContext", m)), "ptr")
    ev.append(("snap", i, d))

MODELS = {"dav1d_decode_frame": m_decode, "dav1d_task_frame_init": m_task_init,
          "dav1d_get_shear_params": lambda rw, w, i, av, mem, ev: 0}

def frame_world(ctx, P, L, nfc, typ, refresh, models=None, slots=None, **kw):
    """a decoder about to submit a frame of the given type"""
    rw = RW(ctx, P, L, n_fc=nfc, n_tc=1 if nfc == 1 else 2, models=dict(MODELS, **(models or {})), **kw)
    rw.objs("hdr", "Dav1dFrameHeader", 1); rw.objs("seq", "Dav1dSequenceHeader", 1)
    rw.no_into |= {n for n in P.raw if "_dsp_init" in n}
    rw.set("c", "seq_hdr", O("seq")); rw.set("c", "seq_hdr_ref", O("seqref")); rw.set("c", "frame_hdr", O("hdr")); rw.set("c", "frame_hdr_ref", O("hdrref"))
    rw.cells[("hdrref", L.off("Dav1dRef", "data"))] = O("hdr"); rw.cells[("seqref", L.off("Dav1dRef", "data"))] = O("seq")
    for j in range(8):
        st = (slots or {}).get(j, "full")
        if st == "empty": continue
        rw.fill_handle("c", "refs[%d].p" % j, "slot%d" % j, "Dav1dThreadPicture", header_only=st == "header", but=("p.frame_hdr",))
        rw.set("c", "refs[%d].p.p.frame_hdr" % j, O("slothdr%d" % j)); rw.set("c", "refs[%d].p.p.frame_hdr_ref" % j, O("slot%d:p.frame_hdr_ref" % j))
        rw.objs("slothdr%d" % j, "Dav1dFrameHeader", 1)
        rw.default0.add("slothdr%d" % j)
        rw.set("slothdr%d" % j, "width[0]", 64); rw.set("slothdr%d" % j, "width[1]", 64); rw.set("slothdr%d" % j, "height", 64)
        rw.set("slothdr%d" % j, "frame_offset", 100 + j)
        rw.set("c", "refs[%d].p.p.p.w" % j, 64); rw.set("c", "refs[%d].p.p.p.h" % j, 64); rw.set("c", "refs[%d].p.p.p.layout" % j, 1); rw.set("c", "refs[%d].p.p.p.bpc" % j, 8)
        rw.set("c", "refs[%d].segmap" % j, O("slot%d.segmap" % j)); rw.set("c", "refs[%d].refmvs" % j, O("slot%d.refmvs" % j))
        rw.set("c", "cdf[%d].ref" % j, O("slot%d.cdf" % j)); rw.set("c", "cdf[%d].data.cdf" % j, O("slot%d>cdf" % j))
    rw.set("seq", "layout", 1); rw.set("seq", "sb128", ("alts", [0, 1]))
    rw.set("hdr", "frame_type", typ); rw.set("hdr", "refresh_frame_flags", refresh)
    rw.set("hdr", "width[0]", 64); rw.set("hdr", "width[1]", 64); rw.set("hdr", "height", 64); rw.set("hdr", "show_frame", 1)
    for k in range(7): rw.set("hdr", "refidx[%d]" % k, (k + 1) & 7)
    rw.set("hdr", "tiling.cols", 1); rw.set("hdr", "tiling.rows", 1)
    rw.set("hdr", "primary_ref_frame", ("alts", [7, 2]) if typ in (1, 3) else 7)
    rw.set("hdr", "refresh_context", ("alts", [0, 1]))
    rw.set("hdr", "allow_intrabc", ("alts", [0, 1]) if typ in (0, 2) else 0)
    rw.set("hdr", "use_ref_frame_mvs", ("alts", [0, 1]) if typ in (1, 3) else 0)
    rw.set("hdr", "segmentation.enabled", ("alts", [0, 1]))
    rw.set("hdr", "segmentation.temporal", ("alts", [0, 1]) if typ in (1, 3) else 0)
    rw.set("hdr", "segmentation.update_map", ("alts", [0, 1]) if typ in (1, 3) else 1)
    rw.set("c", "n_tile_data", 1); rw.set("c", "n_tiles", 1)
    for m in ("content_light", "mastering_display", "itut_t35"):
        rw.set("c", m, O("held." + m)); rw.set("c", m + "_ref", O("held.%s_ref" % m))
    rw.set("c", "n_itut_t35", 1)
    rw.fill_handle("tile", "data", "td", "Dav1dData")
    rw.set("tile", "start", 0); rw.set("tile", "end", 0)
    return rw

# --- parsing an OBU
class Bits:
    """the bit reader over a packet of which some bytes are known"""
    def __init__(self, rw, data):
        self.rw, self.data = rw, data
        o = lambda m: rw.L.off("GetBits", m)
        self.o = dict(ptr=o("ptr"), start=o("ptr_start"), end=o("ptr_end"), left=o("bits_left"), err=o("error"), state=o("state"))
        rw.ctx.require(None not in self.o.values(), "GetBits has changed")
    def at(self, gb, m): return ("ptr", gb[1], gb[2] + self.o[m])
    def init(self, rw, w, i, av, mem, ev):
        gb, d, n = av[0], av[1], av[2]
        mem.store(self.at(gb, "ptr"), d); mem.store(self.at(gb, "start"), d)
        mem.store(self.at(gb, "end"), ("ptr", d[1], d[2] + n) if w.ptr(d) and d[2] is not None and isinstance(n, int) else UNK)
        mem.store(self.at(gb, "left"), 0); mem.store(self.at(gb, "err"), 0); mem.store(self.at(gb, "state"), 0)
        return UNK
    def take(self, w, gb, n, mem):
        """(value or UNK); advances; sets the error flag at the end of the buffer"""
        if not w.ptr(gb) or gb[2] is None: return UNK
        p = w.read(mem, self.at(gb, "ptr"), "ptr"); e = w.read(mem, self.at(gb, "end"), "ptr"); left = w.read(mem, self.at(gb, "left"), "i32")
        if not isinstance(n, int): n = 8
        if not (w.ptr(p) and w.ptr(e) and p[2] is not None and e[2] is not None and isinstance(left, int)):
            mem.store(self.at(gb, "err"), UNK); mem.store(self.at(gb, "state"), UNK); return UNK
        pos = p[2] * 8 - left
        if pos + n > e[2] * 8:
            mem.store(self.at(gb, "err"), 1); mem.store(self.at(gb, "state"), 0)
            mem.store(self.at(gb, "ptr"), ("ptr", p[1], e[2])); mem.store(self.at(gb, "left"), 0)
            return 0
        v = 0
        for k in range(pos, pos + n):
            b = self.data.get(k >> 3) if p[1] == ("obj", "data") else None
            if b is None: v = UNK; break
            v = v << 1 | (b >> (7 - (k & 7)) & 1)
        pos += n; q = (pos + 7) >> 3
        mem.store(self.at(gb, "ptr"), ("ptr", p[1], q)); mem.store(self.at(gb, "left"), q * 8 - pos)
        st = 0
        if q * 8 - pos:
            b = self.data.get(q - 1); st = UNK if b is None else int(b & ((1 << (q * 8 - pos)) - 1) != 0) << 63
        mem.store(self.at(gb, "state"), st)
        return v
    def models(self):
        t = lambda n: lambda rw, w, i, av, mem, ev: self.take(w, av[0], av[1] if n is None else n, mem)
        def uleb(rw, w, i, av, mem, ev):
            v = 0
            for k in range(8):
                b = self.take(w, av[0], 8, mem)
                if w.read(mem, self.at(av[0], "err"), "i32") == 1: return 0
                if b is UNK: return UNK
                v |= (b & 127) << 7 * k
                if not b & 128: return v
            return UNK
        d = {"dav1d_init_get_bits": self.init, "dav1d_get_bit": t(1), "dav1d_get_bits": t(None), "dav1d_get_uleb128": uleb}
        for n in ("dav1d_get_sbits", "dav1d_get_uniform", "dav1d_get_vlc", "dav1d_get_bits_subexp"): d[n] = t(1)
        return d

def m_submit(fail=True):
    def f(rw, w, i, av, mem, ev):
        """submitting the frame (decided by C24, C01): the pending header and tile data pass on, whatever the outcome"""
        ev.append(("submit", i))
        L = rw.L; oc = lambda m: ("ptr", ("obj", "c"), L.off("Dav1dContext", m))
        r = w.read(mem, oc("frame_hdr_ref"), "ptr")
        if r != 0: ev.append(("dec", i, r))
        mem.store(oc("frame_hdr_ref"), 0); mem.store(oc("frame_hdr"), 0)
        n = w.read(mem, oc("n_tile_data"), "i32"); t = w.read(mem, oc("tile"), "ptr")
        if w.ptr(t):
            for j in range(n if isinstance(n, int) else 2):
                for o, k, p in rw.leaves("Dav1dData"):
                    a = ("ptr", t[1], t[2] + j * L.size("Dav1dTileGroup") + L.off("Dav1dTileGroup", "data") + o)
                    if k == "ref":
                        v = w.read(mem, a, "ptr")
                        if v != 0: ev.append(("dec", i, v))
                    if k in ("ref", "ptr"): mem.store(a, 0)
        mem.store(oc("n_tile_data"), 0)
        return ("alts", [(0, None), (-22, "the frame fails")]) if fail else 0
    return f

SUBPARSERS = ("parse_seq_hdr", "parse_frame_hdr")

def obu_program(ctx):
    return ctx.prog(noinline=["dav1d_decode_frame"] + list(SUBPARSERS))

def obu_world(ctx, P, L, nfc, typ, hdr=None, seq=True, fhdr=None, payload=(None,) * 4, ext=None, length=True, tiles_pending=0, hdr_bits=3, hdr_results=None, seq_results=None, slots=None, cfg=None,
              submit_fails=True, size=None, models=None, **kw):
    """a decoder about to parse one OBU.  hdr: fields the frame header parser reads; fhdr: fields of a header that is already pending; slots: {slot: "empty" / "header" / "full"};
    payload: the bytes after the OBU header, None for unknown ones; size: length field when it differs"""
    data = {0: typ << 3 | (4 if ext is not None else 0) | (2 if length else 0)}
    n = 1
    if ext is not None: data[n] = ext; n += 1
    if length: data[n] = (len(payload) if size is None else size) & 127; n += 1
    for b in payload:
        if b is not None: data[n] = b
        n += 1
    rw = RW(ctx, P, L, n_fc=nfc, n_tc=1 if nfc == 1 else 2, **kw)
    rw.bits = Bits(rw, data); rw.data = data; rw.n_data = n
    rw.models.update(rw.bits.models())
    rw.models["dav1d_submit_frame"] = m_submit(submit_fails)
    rw.no_into |= {x for x in P.raw if "_dsp_init" in x}
    rw.objs("hdr", "Dav1dFrameHeader", 1); rw.objs("seq", "Dav1dSequenceHeader", 1)
    old = rw.init
    def init(inst, a, ty):
        if a[1] == ("obj", "data"):
            v = data.get(a[2]) if ty == "i8" else None
            return v if v is not None else UNK
        return old(inst, a, ty)
    rw.init = init
    C = lambda m: ("ptr", ("obj", "c"), L.off("Dav1dContext", m))
    def frame_hdr(rw, w, i, av, mem, ev):
        ev.append(("parse_frame", i))
        h = w.read(mem, C("frame_hdr"), "ptr")
        ctx.require(w.ptr(h), "the frame header parser is called without a header")
        for k in range(hdr_bits): rw.bits.take(w, av[1], 1, mem)
        for k, v in (hdr or {}).items(): mem.store(("ptr", h[1], h[2] + L.off("Dav1dFrameHeader", k)), v)
        return ("alts", hdr_results or [(0, None), (-22, "the frame header is invalid")])
    def seq_hdr(rw, w, i, av, mem, ev):
        ev.append(("parse_seq", i))
        if w.ptr(av[0]): mem.fill(av[0], L.size("Dav1dSequenceHeader"), "?")
        return ("alts", seq_results or [(0, None), (-22, "the sequence header is invalid")])
    rw.models["parse_frame_hdr"] = frame_hdr; rw.models["parse_seq_hdr"] = seq_hdr
    rw.models.update(models or {})
    rw.fill_handle("c", "in", "pkt", "Dav1dData")
    rw.set("c", "in.data", O("data")); rw.set("c", "in.sz", n)
    for k, (m, v) in enumerate((("timestamp", 1111), ("duration", 2222), ("offset", 3333), ("size", 4444))): rw.set("c", "in.m." + m, v)
    if seq: rw.set("c", "seq_hdr", O("seq")); rw.set("c", "seq_hdr_ref", O("seqref")); rw.cells[("seqref", L.off("Dav1dRef", "data"))] = O("seq")
    rw.set("c", "frame_hdr_ref", O("hdrref")); rw.cells[("hdrref", L.off("Dav1dRef", "data"))] = O("hdr"); rw.cells[("hdrref", L.off("Dav1dRef", "ref_cnt"))] = 1
    if fhdr is not None:
        rw.set("c", "frame_hdr", O("hdr"))
        for k, v in fhdr.items(): rw.set("hdr", k, v)
    for j in range(8):
        st = (slots or {}).get(j, "full")
        if st == "empty": continue
        rw.fill_handle("c", "refs[%d].p" % j, "slot%d" % j, "Dav1dThreadPicture", header_only=st == "header", but=("p.frame_hdr",))
        rw.set("c", "refs[%d].p.p.frame_hdr" % j, O("slothdr%d" % j)); rw.set("c", "refs[%d].p.p.frame_hdr_ref" % j, O("slot%d:p.frame_hdr_ref" % j))
        rw.objs("slothdr%d" % j, "Dav1dFrameHeader", 1); rw.default0.add("slothdr%d" % j)
        rw.set("c", "refs[%d].segmap" % j, O("slot%d.segmap" % j)); rw.set("c", "refs[%d].refmvs" % j, O("slot%d.refmvs" % j))
        rw.set("c", "cdf[%d].ref" % j, O("slot%d.cdf" % j)); rw.set("c", "cdf[%d].data.cdf" % j, O("slot%d>cdf" % j))
    for m in ("content_light", "mastering_display", "itut_t35"):
        rw.set("c", m, O("held." + m)); rw.set("c", m + "_ref", O("held.%s_ref" % m))
    rw.set("c", "n_itut_t35", 1)
    rw.cells[("held.itut_t35_ref", L.off("Dav1dRef", "user_data"))] = O("held.t35ctx"); rw.cells[("held.itut_t35_ref", L.off("Dav1dRef", "ref_cnt"))] = 1
    for j in range(tiles_pending): rw.fill_handle("tile", "data", "td%d" % j, "Dav1dData", idx=j)
    rw.set("c", "n_tile_data", tiles_pending); rw.set("c", "n_tiles", tiles_pending)
    rw.fill_handle("c", "cached_error_props", "olderr", "Dav1dDataProps")
    for k, v in (cfg or {}).items(): rw.set("c", k, v)
    return rw

def parse(rw): return rw.run("dav1d_parse_obus", {0: O("c"), 1: rw.at("c", "in")})

class Case:
    """one operation and the state it starts from"""
    __slots__ = ("fn", "rw", "args", "cfg", "kind", "info")
    def __init__(self, fn, rw, args, cfg, kind, **info): self.fn, self.rw, self.args, self.cfg, self.kind, self.info = fn, rw, args, cfg, kind, info
    def run(self):
        w, f, res = self.rw.run(self.fn, self.args)
        self.rw.ctx.count("worlds")
        return w, f, res

FRAMES = [(0, 0xff), (0, 0x24), (1, 0x81), (2, 0x10), (3, 0xff), (1, 0)]

def packet_props(rw, obj, path, k):
    """distinct values in the properties of a packet"""
    for n, m in enumerate(("timestamp", "duration", "offset", "size")): rw.set(obj, path + "m." + m, k + n)

def submit_cases(ctx, P, L, frames=FRAMES, slots=None):
    for nfc in (1, 2):
        for typ, refresh in frames:
            for delayed in ((None,) if nfc == 1 else (None, "ok", "error")):
                for oif in (0, 1):
                    if oif and typ not in (0, 1): continue
                    rw = frame_world(ctx, P, L, nfc, typ, refresh, slots=slots)
                    rw.set("c", "output_invisible_frames", oif)
                    rw.fill_handle("c", "in", "pkt", "Dav1dData"); packet_props(rw, "c", "in.", 1111); packet_props(rw, "tile", "data.", 5551)
                    rw.fill_handle("c", "cached_error_props", "olderr", "Dav1dDataProps")
                    if delayed:
                        rw.fill_handle("od", "", "delayed", "Dav1dThreadPicture"); packet_props(rw, "od", "p.", 7771)
                        rw.set("fc", "task_thread.retval", 0 if delayed == "ok" else -22)
                        rw.set("od", "visible", ("alts", [0, 1]))
                    cfg = "n_fc=%d, frame type %d, refresh 0x%02x%s%s" % (nfc, typ, refresh, ", delayed picture %s" % delayed if delayed else "", ", hidden frames wanted" if oif else "")
                    yield Case("dav1d_submit_frame", rw, {0: O("c")}, cfg, "submit", nfc=nfc, typ=typ, refresh=refresh, delayed=delayed, oif=oif)

def obu_cases(ctx, P, L):
    def go(tag, typ, nfc=1, post=None, **k):
        rw = obu_world(ctx, P, L, nfc, typ, **k)
        if post: post(rw)
        return Case("dav1d_parse_obus", rw, {0: O("c"), 1: rw.at("c", "in")}, "%s, n_fc=%d" % (tag, nfc), "obu", nfc=nfc, obu=typ, tag=tag, **{x: k.get(x) for x in ("slots", "hdr", "tiles_pending")})
    for sl in ("full", "empty", "header"):
        for seq in (True, False): yield go("sequence header, slots %s%s" % (sl, "" if seq else ", first"), 1, seq=seq, slots={j: sl for j in range(8)})
    for t in (0, 2, 8, 9, 15): yield go("OBU type %d" % t, t)
    def first(rw):
        for m in ("n_itut_t35", "itut_t35", "itut_t35_ref", "content_light", "content_light_ref", "mastering_display", "mastering_display_ref"): rw.set("c", m, 0)
    for post, tag in ((None, "replacing"), (first, "first")):
        yield go("content light, " + tag, 5, post=post, payload=(1,) + (None,) * 4 + (0x80,))
        yield go("truncated content light, " + tag, 5, post=post, payload=(1, None, None))
        yield go("mastering display, " + tag, 5, post=post, payload=(2,) + (None,) * 24 + (0x80,))
        yield go("truncated mastering display, " + tag, 5, post=post, payload=(2,) + (None,) * 23)
        yield go("T.35, " + tag, 5, post=post, payload=(4, 0xb5, 1, 2, 3, 0x80))
        yield go("T.35 extended, " + tag, 5, post=post, payload=(4, 0xff, 1, 2, 0x80, 0, 0))
        yield go("malformed T.35, " + tag, 5, post=post, payload=(4, 0xb5, 1))
    yield go("other metadata", 5, payload=(3, 1, 2))
    for nfc in (1, 2):
        for delayed in ((None,) if nfc == 1 else (None, "ok", "error")):
            for ft in (0, 1, 2, 3):
                for sl in ("full", "empty", "header"):
                    for dft in (0, 1, 2, 3) if delayed is None else (0,):
                        def post(rw):
                            if sl != "empty": rw.set("slothdr3", "frame_type", ft)
                            rw.set("c", "decode_frame_type", dft); rw.set("c", "strict_std_compliance", ("alts", [0, 1]))
                            if delayed:
                                rw.fill_handle("od", "", "delayed", "Dav1dThreadPicture"); rw.set("fc", "task_thread.retval", 0 if delayed == "ok" else -22)
                                packet_props(rw, "od", "p.", 7771); rw.set("od", "visible", ("alts", [0, 1])); rw.set("c", "output_invisible_frames", ("alts", [0, 1]))
                        c = go("show existing frame, type %d, slot %s, frame types %d%s" % (ft, sl, dft, ", delayed picture %s" % delayed if delayed else ""), 3, nfc=nfc, hdr=dict(show_existing_frame=1, existing_frame_idx=3), slots={3: sl, 5: "empty", 6: "header"}, post=post, tiles_pending=1)
                        c.info.update(show=3, slot=sl, ft=ft, dft=dft, delayed=delayed); yield c
    for typ in (3, 6, 7):
        for dft in (0, 1, 2, 3):
            for ft in (0, 1, 2, 3):
                for sl in ("full", "empty"):
                    def post(rw):
                        rw.set("c", "decode_frame_type", dft); rw.set("c", "strict_std_compliance", ("alts", [0, 1])); rw.set("c", "frame_size_limit", ("alts", [0, 100]))
                        if sl == "empty": rw.set("c", "frame_hdr_ref", 0)
                    c = go("OBU type %d, frame type %d, frame types %d, slots %s" % (typ, ft, dft, sl), typ, hdr={"frame_type": ft, "refresh_frame_flags": 0x81, "tiling.cols": 1, "tiling.rows": 1, "width[1]": 64, "height": 64},
                           slots={0: sl, 7: "header"}, post=post, tiles_pending=1)
                    c.info.update(ft=ft, dft=dft); yield c
    for pend in (0, 1, 3):
        yield go("tile group, %d pending" % pend, 4, fhdr={"frame_type": 1, "tiling.cols": 2, "tiling.rows": 2, "tiling.log2_cols": 1, "tiling.log2_rows": 1, "refresh_frame_flags": 3}, tiles_pending=pend)
    yield go("tile group without header", 4)
    yield go("frame header without sequence header", 3, seq=False); yield go("frame without sequence header", 6, seq=False)
    yield go("truncated tile group", 4, fhdr={"frame_type": 1, "tiling.cols": 2, "tiling.rows": 1, "tiling.log2_cols": 1}, payload=())
    for t in (3, 6): yield go("OBU type %d ending inside the frame header" % t, t, payload=(None,), hdr_bits=20, hdr={"frame_type": 0, "tiling.cols": 1, "tiling.rows": 1, "width[1]": 64, "height": 64}, tiles_pending=1)
    yield go("OBU longer than the packet", 6, size=90)
    yield go("OBU header cut", 6, length=False, payload=())

# --- the API
def m_parse(out, err):
    """parsing a packet: consumes it (or part of it), may leave a picture and an error for later, or fails"""
    def f(rw, w, i, av, mem, ev):
        ev.append(("parse", i))
        L = rw.L
        if out and not any(e[0] == "made" for e in ev) and w.read(mem, rw.at("c", "out.p.data[0]"), "ptr") == 0:
            ev.append(("made", i)); base = L.off("Dav1dContext", "out")
            for o, k, p in rw.leaves("Dav1dThreadPicture"):
                a = ("ptr", ("obj", "c"), base + o)
                if k == "ref": b = O("fresh:" + p); ev.append(("create", i, b)); mem.store(a, b)
                elif k == "ptr": mem.store(a, ("ptr", ("obj", "fresh>" + p), 0))
        if err: mem.store(rw.at("c", "cached_error"), -34)
        n = w.read(mem, ("ptr", av[1][1], av[1][2] + L.off("Dav1dData", "sz")), "i64")
        eff = [(rw.at("c", "cached_error_props." + m), 9991 + q) for q, m in enumerate(("timestamp", "duration", "offset", "size"))]      # parsing records the failing packet itself
        return ("alts", [(n, None), (-22, "the packet cannot be decoded", eff)] + ([(n // 2, None)] if isinstance(n, int) and n > 1 else []))
    return f

def api_world(ctx, P, L, nfc=1, models=None, **kw):
    rw = RW(ctx, P, L, n_fc=nfc, n_tc=1 if nfc == 1 else 2, models=models, **kw)
    rw.no_into |= {n for n in P.raw if "_dsp_init" in n} | {"dav1d_apply_grain_8bpc", "dav1d_apply_grain_16bpc", "dav1d_task_delayed_fg"}
    return rw

def api_cases(ctx, P, L):
    def case(rw, fn, args, cfg): return Case(fn, rw, args, cfg, "api")
    pk = lambda rw, obj, path, tag: (rw.fill_handle(obj, path, tag, "Dav1dData"), rw.set(obj, (path + "." if path else "") + "sz", 2))
    for out in (False, True):
        for err in (False, True):
            for held in (False, True):
                for given in (False, True):
                    rw = api_world(ctx, P, L, models={"dav1d_parse_obus": m_parse(out, err)})
                    rw.objs("in", "Dav1dData", 1)
                    if given: pk(rw, "in", "", "given")
                    else: rw.set("in", "sz", 0)
                    if held: pk(rw, "c", "in", "held")
                    yield case(rw, "dav1d_send_data", {0: O("c"), 1: O("in")}, "packet %s%s%s" % ("given" if given else "empty", ", one still held" if held else "", ", picture comes out" if out else ""))
    for nfc in (1, 2):
        for grain in (0, 1):
            for layers in (0, 1):
                for have in ("", "out", "cache", "out cache"):
                    for held in (False, True):
                        for dl in ((None,) if nfc == 1 else (None, "ok", "error")):
                            for drain in ((0, 1) if nfc > 1 else (0,)):
                                if dl and held: continue
                                rw = api_world(ctx, P, L, nfc, models={"dav1d_parse_obus": m_parse(held and "out" not in have, False)})
                                rw.objs("out", "Dav1dPicture", 1)
                                rw.set("c", "apply_grain", grain); rw.set("c", "all_layers", 1 - layers); rw.set("c", "max_spatial_id", layers); rw.set("c", "drain", drain)
                                if "out" in have: rw.fill_handle("c", "out", "ready", "Dav1dThreadPicture")
                                if "cache" in have: rw.fill_handle("c", "cache", "cached", "Dav1dThreadPicture")
                                if held: pk(rw, "c", "in", "held")
                                if dl:
                                    for n in range(nfc):
                                        rw.fill_handle("od", "", "delayed%d" % n, "Dav1dThreadPicture", idx=n); rw.set("fc", "task_thread.retval", 0 if dl == "ok" else -22, n)
                                        for q, mm in enumerate(("timestamp", "duration", "offset", "size")): rw.set("od", "p.m." + mm, 7771 + 100 * n + q, n)
                                for x in ("out", "cache"): rw.set("c", x + ".p.p.bpc", 8)
                                c = case(rw, "dav1d_get_picture", {0: O("c"), 1: O("out")}, "n_fc=%d, grain %s, %s, %s%s%s%s" % (nfc, "on" if grain else "off", "highest layer only" if layers else "all layers", have or "nothing ready",
                                      ", packet held" if held else "", ", delayed pictures %s" % dl if dl else "", ", draining" if drain else ""))
                                c.info.update(drained=dl); yield c
    for nfc in (1, 2):
        for have in ("", "out"):
            for held in (False, True):
                for perr in (False, True):
                    if perr and not held: continue
                    rw = api_world(ctx, P, L, nfc, models={"dav1d_parse_obus": m_parse(False, perr)}); rw.objs("out", "Dav1dPicture", 1)
                    if not perr: rw.set("c", "cached_error", -12)
                    rw.set("c", "max_spatial_id", 0); rw.set("c", "drain", 1)
                    if have: rw.fill_handle("c", "out", "ready", "Dav1dThreadPicture"); rw.set("c", "out.p.p.bpc", 8)
                    if held: pk(rw, "c", "in", "held")
                    c = case(rw, "dav1d_get_picture", {0: O("c"), 1: O("out")}, "n_fc=%d, an error is remembered%s%s%s" % (nfc, ", picture ready" if have else "", ", packet held" if held else "", ", error found on the way" if perr else ""))
                    c.info.update(pending=-34 if perr else -12); yield c
    rw = api_world(ctx, P, L); rw.objs("out", "Dav1dPicture", 1); rw.objs("pic", "Dav1dPicture", 1); rw.fill_handle("pic", "", "given", "Dav1dPicture"); rw.set("pic", "p.bpc", 8)
    yield case(rw, "dav1d_apply_grain", {0: O("c"), 1: O("out"), 2: O("pic")}, "picture given")
    rw = api_world(ctx, P, L); rw.objs("pic", "Dav1dPicture", 1); rw.fill_handle("pic", "", "given", "Dav1dPicture")
    yield case(rw, "dav1d_picture_unref", {0: O("pic")}, "picture given")
    for fn in ("dav1d_data_unref", "dav1d_data_props_unref"):
        rw = api_world(ctx, P, L); rw.objs("in", "Dav1dData" if fn == "dav1d_data_unref" else "Dav1dDataProps", 1); rw.fill_handle("in", "", "given", rw.types["in"][0])
        yield case(rw, fn, {0: O("in")}, "handle given")
    for err in (0, 1):
        rw = api_world(ctx, P, L); rw.objs("props", "Dav1dDataProps", 1); rw.fill_handle("props", "", "given", "Dav1dDataProps")
        if err: rw.fill_handle("c", "cached_error_props", "olderr", "Dav1dDataProps")
        yield case(rw, "dav1d_get_decode_error_data_props", {0: O("c"), 1: O("props")}, "handle given")
    for fn, args in (("dav1d_data_create", {1: 100}), ("dav1d_data_wrap", {1: O("bytes"), 2: 100, 3: ("ptr", ("g", "cb"), 0), 4: O("cookie")})):
        rw = api_world(ctx, P, L); rw.objs("in", "Dav1dData", 1)
        yield case(rw, fn, {0: O("in"), **args}, "empty handle")
    rw = api_world(ctx, P, L); rw.objs("in", "Dav1dData", 1); rw.fill_handle("in", "", "given", "Dav1dData", but=("m.user_data",))
    yield case(rw, "dav1d_data_wrap_user_data", {0: O("in"), 1: O("bytes"), 2: ("ptr", ("g", "cb"), 0), 3: O("cookie")}, "packet without user data")


def all_cases(ctx, P, L):
    yield from submit_cases(ctx, P, L)
    yield from obu_cases(ctx, P, L)
    yield from api_cases(ctx, P, L)

def parallel(ctx, make, work, n=8):
    """runs work(case) for every case of make() on n processes; counts and violations are merged. A case that cannot be decided leaves the
    check without an answer unless another case shows a violation."""
    import os, pickle, sys, traceback
    P = []
    sys.stdout.flush(); sys.stderr.flush()
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            ctx.cov = {}; ctx.viol = []; ctx.samples = []
            out = None; undecided = []
            try:
                for j, c in enumerate(make()):
                    if j % n != k: continue
                    try: work(c)
                    except Exception as e:
                        if type(e).__name__ != "CheckError": raise
                        undecided.append(str(e))
                        if len(undecided) > 2: break
                out = ("ok", ctx.cov, ctx.viol, ctx.samples, undecided)
            except BaseException as e:
                out = ("check", str(e)) if type(e).__name__ == "CheckError" else ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as f: pickle.dump(out, f)
            os._exit(0)
        os.close(w); P.append((pid, r))
    bad = None
    for pid, r in P:
        with os.fdopen(r, "rb") as f: d = f.read()
        os.waitpid(pid, 0)
        o = pickle.loads(d) if d else ("error", "a worker process died")
        if o[0] != "ok": bad = o; continue
        for k, v in o[1].items():
            if isinstance(v, int): ctx.count(k, v)
            elif isinstance(v, list): ctx.cov[k] = sorted(set(ctx.cov.get(k, [])) | set(v))
        for v in o[2]: ctx.violation(v["where"], v["msg"], v["fn"], v["kind"], v["path"])
        for s in o[3]: ctx.sample(s)
        if o[4] and not bad: bad = ("check", o[4][0])
    if bad:
        if bad[0] == "check" and ctx.viol: ctx.notes.append("not every case was decided: " + bad[1]); return
        if bad[0] == "check": ctx.require(False, bad[1])
        raise RuntimeError(bad[1])
