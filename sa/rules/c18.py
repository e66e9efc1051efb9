"""C18: every decoder setting the application makes is honoured."""
import re, os
from decworld import *
from rules.c14 import Run, small, sgn

ALL = 7
DEFAULTS = {"n_threads": 0, "max_frame_delay": 0, "apply_grain": 1, "operating_point": 0, "all_layers": 1, "frame_size_limit": 0, "strict_std_compliance": 0, "output_invisible_frames": 0,
            "inloop_filters": ALL, "decode_frame_type": 0}
VALUES = {"apply_grain": (0, 1), "operating_point": (0, 1, 5, 31), "all_layers": (0, 1), "frame_size_limit": (0, 1, 12345, 2 ** 32 - 1), "strict_std_compliance": (0, 1), "output_invisible_frames": (0, 1),
          "inloop_filters": tuple(range(8)), "decode_frame_type": (0, 1, 2, 3)}
CB = lambda s: ("ptr", ("g", "app_" + s), 0)
LIB = lambda s: ("ptr", ("g", "dav1d_default_picture_" + s), 0)

def where(f): return "%s:%d" % (f.file, f.line)

# --- 1. the settings arrive
def opened(R, sets, app):
    """(settings as given, [(context values) per successful path])"""
    rw = small(R); L = R.L
    for m, v in DEFAULTS.items():
        if m not in ("n_threads", "max_frame_delay"): rw.set("s", m, v)
    for m, v in sets.items(): rw.set("s", m, v)
    rw.set("s", "allocator.alloc_picture_callback", CB("alloc") if app else LIB("alloc")); rw.set("s", "allocator.release_picture_callback", CB("release") if app else LIB("release"))
    rw.set("s", "allocator.cookie", O("app_cookie") if app else 0)
    rw.set("s", "logger.callback", CB("log") if app else 0); rw.set("s", "logger.cookie", O("log_cookie") if app else 0)
    w, f, res = R.go(rw, "dav1d_open", {0: O("handle"), 1: O("s")})
    out = []
    for ev, rv, mem in res:
        c = w.read(mem, O("handle"), "ptr")
        if rv != 0 or not w.ptr(c): continue
        out.append((w, mem, c))
    return rw, f, out

def arrival(R):
    ctx, L, P = R.ctx, R.L, R.P
    kept = [p for o, k, p in R.world().leaves("Dav1dSettings") if p not in ("n_threads", "max_frame_delay") and not p.startswith("reserved")]
    ctx.setc("settings_fields", len(kept) + 2)
    def judge(sets, app, what):
        rw, f, out = opened(R, sets, app)
        ctx.count("settings_opened")
        if not out: ctx.violation(where(f), "a decoder cannot be opened with %s" % what, f.name, "open"); return
        for w, mem, c in out:
            for p in kept:
                r = L.find("Dav1dContext", p)
                ctx.require(r is not None, "Dav1dContext.%s is gone: where the setting is kept is not known" % p)
                ty = "ptr" if r[2]["k"] == "ptr" else "i%d" % (8 * r[2]["size"])
                got = w.read(mem, ("ptr", c[1], c[2] + r[0]), ty); want = rw.get(w, Mem(), "s", p)
                if p == "allocator.cookie" and not app: continue      # the library's own allocator keeps its pool there
                ctx.count("settings_followed")
                if got != want and not (isinstance(got, int) and isinstance(want, int) and got % 2 ** 32 == want % 2 ** 32):
                    ctx.violation(where(f), "the setting %s does not reach the decoder unchanged [%s]" % (p, what), f.name, "arrives"); return
    jobs = [lambda a=a: judge({}, a, "default settings" + (" and the application's callbacks" if a else "")) for a in (False, True)]
    for m, vs in VALUES.items():
        for v in vs: jobs.append(lambda m=m, v=v: judge({m: v}, True, "%s = %d" % (m, v)))
    # the number of threads and of frames in flight
    def threads(n, d):
        rw = small(R); rw.set("s", "n_threads", n); rw.set("s", "max_frame_delay", d)
        w, f, res = R.go(rw, "dav1d_open", {0: O("handle"), 1: O("s")})
        nt = n or 4; nf = min(d, nt) if d else min(8, next(k for k in range(1, 17) if k * k >= nt))
        for ev, rv, mem in res:
            c = w.read(mem, O("handle"), "ptr")
            if rv != 0 or not w.ptr(c): continue
            at = lambda m: w.read(mem, ("ptr", c[1], c[2] + L.off("Dav1dContext", m)), "i32")
            ctx.count("settings_followed", 2)
            if at("n_tc") != nt: ctx.violation(where(f), "the decoder does not have the number of threads asked for [n_threads = %d, max_frame_delay = %d]" % (n, d), f.name, "threads")
            if at("n_fc") != nf: ctx.violation(where(f), "the decoder does not have the frame delay asked for [n_threads = %d, max_frame_delay = %d]" % (n, d), f.name, "delay")
            k = sum(1 for e in ev if e[0] == "call" and e[1].callee == "pthread_create")
            if k != (nt if nt > 1 else 0): ctx.violation(where(f), "%d worker threads are started for n_threads = %d" % (k, n), f.name, "threads")
    for n, d in ((1, 0), (1, 4), (2, 0), (2, 1), (3, 2), (4, 4), (5, 8), (9, 0), (0, 0), (0, 1)): jobs.append(lambda n=n, d=d: threads(n, d))
    def defaults():
        rw = small(R); rw.objs("d", "Dav1dSettings", 1)
        w, f, res = R.go(rw, "dav1d_default_settings", {0: O("d")})
        ctx.require(len(res) > 0, "dav1d_default_settings has no path")
        for ev, rv, mem in res:
            for m, v in DEFAULTS.items():
                ctx.count("defaults_checked")
                g = rw.get(w, mem, "d", m)
                if not isinstance(g, int) or g % 2 ** 32 != v: ctx.violation(where(f), "the default of %s is not the documented one" % m, f.name, "default")
            for m in ("allocator.alloc_picture_callback", "allocator.release_picture_callback"):
                ctx.count("defaults_checked")
                if rw.get(w, mem, "d", m) != LIB(m.split(".")[1].split("_")[0]): ctx.violation(where(f), "the default of %s is not the library's own" % m, f.name, "default")
            if rw.get(w, mem, "d", "allocator.cookie") != 0: ctx.violation(where(f), "the default allocator has a cookie", f.name, "default")
            if not w.ptr(rw.get(w, mem, "d", "logger.callback")): ctx.violation(where(f), "the default logger is missing", f.name, "default")
    jobs.append(defaults)
    def log():
        f = P.fn("dav1d_log")
        if f is None: return
        for cb in (0, 1):
            rw = api_world(ctx, P, L); rw.LEAF = ()
            rw.set("c", "logger.callback", CB("log") if cb else 0); rw.set("c", "logger.cookie", O("log_cookie"))
            w, f, res = rw.run("dav1d_log", {0: O("c"), 1: O("fmt")})
            for ev, rv, mem in res:
                calls = [e for e in ev if e[0] == "call" and e[1].callee is None]
                ctx.count("settings_followed")
                if not cb:
                    if calls: ctx.violation(calls[0][1].where(), "a message is passed to a logger that was not given", f.name, "log")
                elif len(calls) != 1 or calls[0][3] != CB("log") or calls[0][2][:2] != [O("log_cookie"), O("fmt")]: ctx.violation(where(f), "a message is not passed to the application's logger with its cookie", f.name, "log")
    jobs.append(log)
    return jobs

# --- 2. what they govern while a packet is parsed
FH = {"frame_type": 0, "tiling.cols": 1, "tiling.rows": 1, "width[1]": 64, "width[0]": 64, "height": 64, "refresh_frame_flags": 255}

def effect(rw, w, ev, mem):
    """does anything come of the OBU?"""
    if any(e[0] in ("submit", "parse_frame", "parse_seq") for e in ev): return True
    return rw.get(w, mem, "c", "n_tile_data") != rw.get(w, Mem(), "c", "n_tile_data") or any(rw.get(w, mem, "c", m) != rw.get(w, Mem(), "c", m) for m in ("content_light", "mastering_display", "n_itut_t35", "frame_hdr"))

def limits(R):
    ctx, P, L = R.ctx, R.OP, R.L
    def one(typ, w0, w1, h, lim):
        rw = obu_world(ctx, P, L, 1, typ, payload=(0, 0x20, 0, 0), hdr=dict(FH, **{"width[0]": w0, "width[1]": w1, "height": h}), hdr_results=[(0, None)], submit_fails=False)
        rw.fail = False; rw.set("c", "frame_size_limit", lim)
        if typ == 3: rw.set("c", "n_tile_data", 0)
        w, f, res = parse(rw)
        over = lim and w1 * h > lim
        what = "a frame of %d x %d%s under a limit of %d pixels" % (w1, h, " (coded %d wide)" % w0 if w0 != w1 else "", lim)
        ctx.count("sizes_judged"); ok = 0
        for ev, rv, mem in res:
            ctx.count("paths_judged")
            neg = isinstance(rv, int) and sgn(rv) < 0
            sub = any(e[0] == "submit" for e in ev)
            if over:
                if sub: ctx.violation(where(f), "%s is decoded" % what, f.name, "limit")
                elif rw.get(w, mem, "c", "frame_hdr") != 0: ctx.violation(where(f), "the header of %s stays pending" % what, f.name, "limit")
                elif not neg: ctx.violation(where(f), "%s is not reported as an error" % what, f.name, "limit")
            else: ok += not neg and (sub if typ == 6 else w.ptr(rw.get(w, mem, "c", "frame_hdr")))
        if not over and not ok: ctx.violation(where(f), "%s is refused" % what if lim else "a frame of %d x %d is refused although there is no limit" % (w1, h), f.name, "limit")
    jobs = []
    for typ in (3, 6):
        for w0, w1, h, lims in ((64, 64, 64, (0, 1, 4095, 4096, 4097, 2 ** 32 - 1)), (32, 64, 64, (2048, 4095, 4096)), (16, 16, 1, (15, 16)), (65536, 65536, 65536, (0, 1, 2 ** 31, 2 ** 32 - 1)), (1, 1, 65536, (65535, 65536)), (32768, 65536, 65536, (2 ** 31, 2 ** 32 - 1)), (65536, 65536, 65535, (2 ** 32 - 1, 2 ** 32 - 65537)), (65536, 65536, 32768, (2 ** 31 - 1, 2 ** 31))):
            for lim in lims: jobs.append(lambda a=(typ, w0, w1, h, lim): one(*a))
    # before any buffer: frames are only submitted by the parser, after the check
    callers = {g.name for g in P.functions() for i in g.calls() if i.callee == "dav1d_submit_frame"}
    ctx.setc("submitters", sorted(callers))
    return jobs

def pack(bits):
    """[(width, value)] -> bytes"""
    s = "".join(format(v, "0%db" % n) for n, v in bits)
    s += "0" * (-len(s) % 8)
    return tuple(int(s[k:k + 8], 2) for k in range(0, len(s), 8))

def seq_bits(timing=None, points=((0, 8),), mtrx=None, profile=0, trailing=(1, 0), decoder_model=None):
    """a sequence header: timing (units, scale); points (idc, level); trailing (bit, junk)"""
    b = [(3, profile), (1, 0), (1, 0), (1, 1 if timing else 0)]
    if timing:
        b += [(32, timing[0]), (32, timing[1]), (1, 0), (1, 1 if decoder_model is not None else 0)]
        if decoder_model is not None: b += [(5, 3), (32, decoder_model), (5, 3), (5, 3)]
    b += [(1, 0), (5, len(points) - 1)]
    for idc, lv in points: b += [(12, idc), (5, 4)] + ([(1, 0)] if decoder_model is not None else [])
    b += [(4, 5), (4, 5), (6, 63), (6, 63), (1, 0), (1, 0), (1, 0), (1, 0), (4, 0), (1, 0), (1, 1), (1, 1), (3, 0)]
    b += [(1, 0)]
    if profile != 1: b += [(1, 0)]
    b += [(1, 1), (8, 1), (8, 1), (8, mtrx)] if mtrx is not None else [(1, 0)]
    b += [(1, 0)]
    if profile == 0: b += [(2, 0)]
    b += [(1, 0), (1, 0), (1, trailing[0])]
    n = sum(x for x, _ in b)
    pad = -n % 8
    if pad: b += [(pad, trailing[1] if pad else 0)]
    return pack(b)

def strictness(R):
    ctx, P, L = R.ctx, R.OP, R.L
    jobs = []
    def seq(what, bad, **kw):
        """bad: violates the standard without affecting decoding"""
        for strict in (0, 1):
            rw = obu_world(ctx, P, L, 1, 1, payload=seq_bits(**kw)); rw.models.pop("parse_seq_hdr", None); rw.fail = False
            rw.set("c", "strict_std_compliance", strict)
            w, f, res = parse(rw)
            verdict(rw, w, f, res, "a sequence header with " + what, strict, bad, lambda w, ev, mem: rw.get(w, mem, "c", "seq_hdr") != rw.get(w, Mem(), "c", "seq_hdr"))
    def verdict(rw, w, f, res, what, strict, bad, done):
        ctx.count("strictness_judged"); ok = 0; no = 0
        for ev, rv, mem in res:
            ctx.count("paths_judged")
            neg = isinstance(rv, int) and sgn(rv) < 0
            if not neg and done(w, ev, mem): ok += 1
            else: no += neg
        if bad and strict:
            if ok or not no: ctx.violation(where(f), "strict mode accepts %s" % what, f.name, "strict")
        elif not ok: ctx.violation(where(f), "%s is refused%s" % (what, "" if strict else " although strict mode is off"), f.name, "lenient" if not strict else "strict-good")
    jobs.append(lambda: seq("nothing wrong", False))
    jobs.append(lambda: seq("timing information", False, timing=(1, 25)))
    jobs.append(lambda: seq("no units in a tick", True, timing=(0, 25)))
    jobs.append(lambda: seq("no time scale", True, timing=(1, 0)))
    jobs.append(lambda: seq("a decoder model", False, timing=(1, 25), decoder_model=7))
    jobs.append(lambda: seq("no units in a decoding tick", True, timing=(1, 25), decoder_model=0))
    jobs.append(lambda: seq("the identity matrix on subsampled chroma", True, mtrx=0))
    jobs.append(lambda: seq("another matrix on subsampled chroma", False, mtrx=1))
    jobs.append(lambda: seq("the identity matrix on full chroma", False, mtrx=0, profile=1))
    jobs.append(lambda: seq("no trailing bit", True, trailing=(0, 0)))
    def forbidden():
        for strict in (0, 1):
            for bit in (0, 1):
                rw = obu_world(ctx, P, L, 1, 3, payload=(0, 0x10, 0), hdr=FH, hdr_results=[(0, None)]); rw.fail = False
                rw.data[0] |= bit << 7; rw.set("c", "strict_std_compliance", strict); rw.set("c", "n_tile_data", 0)
                for k in (2, 3, 4): rw.data[k] = (0x10, 0, 0)[k - 2]
                w, f, res = parse(rw)
                verdict(rw, w, f, res, "an OBU whose forbidden bit is %s" % ("set" if bit else "clear"), strict, bit, lambda w, ev, mem: w.ptr(rw.get(w, mem, "c", "frame_hdr")))
    jobs.append(forbidden)
    def showable():
        for strict in (0, 1):
            for nfc in (1, 2):
                for sh in (0, 1):
                    rw = obu_world(ctx, P, L, nfc, 3, payload=(0, 0x10, 0), hdr=dict(show_existing_frame=1, existing_frame_idx=3), hdr_results=[(0, None)]); rw.fail = False
                    for k in (2, 3, 4): rw.data[k] = (0x10, 0, 0)[k - 2]
                    rw.set("slothdr3", "frame_type", 1); rw.set("c", "refs[3].p.showable", sh); rw.set("c", "strict_std_compliance", strict)
                    w, f, res = parse(rw)
                    verdict(rw, w, f, res, "a repeated frame that %s" % ("may be shown" if sh else "may not be shown"), strict, not sh, lambda w, ev, mem: shown(rw, w, mem, nfc))
    jobs.append(showable)
    return jobs

def shown(rw, w, mem, nfc):
    return w.ptr(rw.get(w, mem, "c", "out.p.data[0]")) if nfc == 1 else w.ptr(rw.get(w, mem, "od", "p.data[0]"))

def layers(R):
    """the operating point selects what is decoded"""
    ctx, P, L = R.ctx, R.OP, R.L
    jobs = []
    SETS = [((0x000,),), ((0x301, 0x101),), ((0x70f, 0x307, 0x103, 0x101),), ((0, 0x201),), (tuple(0x101 + (k << 1) for k in range(8)),), (tuple(0xf01 | (k & 7) << 1 for k in range(32)),), ((0xfff, 0x8ff),)]
    for (idcs,) in SETS:
        for op in sorted({0, 1, 2, 3, len(idcs) - 1, len(idcs), 31}):
            if op > 31: continue
            def f(idcs=idcs, op=op):
                for level in (0,):
                    rw = obu_world(ctx, P, L, 1, 1, payload=seq_bits(points=tuple((i, 4) for i in idcs))); rw.models.pop("parse_seq_hdr", None); rw.fail = False
                    rw.set("c", "operating_point", op)
                    w, f, res = parse(rw)
                    want = idcs[op if op < len(idcs) else 0]; sp = want >> 8; n = 0
                    what = "operating point %d of %d" % (op, len(idcs))
                    for ev, rv, mem in res:
                        if isinstance(rv, int) and sgn(rv) < 0: continue
                        n += 1; ctx.count("paths_judged")
                        if rw.get(w, mem, "c", "operating_point_idc") != want: ctx.violation(where(f), "%s is asked for and another one is decoded" % what, f.name, "point")
                        if rw.get(w, mem, "c", "max_spatial_id") != (sp.bit_length() - 1 if sp else 0): ctx.violation(where(f), "%s: the highest spatial layer is wrong" % what, f.name, "point")
                    ctx.count("operating_points_judged")
                    if not n: ctx.violation(where(f), "%s: the sequence header is refused" % what, f.name, "point")
            jobs.append(f)
    for idc in (0, 0x101, 0x103, 0x301, 0x702, 0xfff, 0x804):
        for t in (0, 1, 2, 7):
            for s in (0, 1, 2, 3):
                def f(idc=idc, t=t, s=s):
                    for typ in (3, 5, 6, 4, 7):
                        keep = not idc or (idc >> t & 1 and idc >> (8 + s) & 1)
                        pl = {5: (1, 0, 1, 0, 2, 0x80)}.get(typ, (0, 0x10, 0, 0, 0, 0))
                        rw = obu_world(ctx, P, L, 1, typ, payload=pl, ext=t << 5 | s << 3, hdr=FH, hdr_results=[(0, None)], submit_fails=False, fhdr=dict(FH) if typ == 4 else None); rw.fail = False
                        rw.set("c", "operating_point_idc", idc)
                        if typ == 6: rw.set("c", "n_tile_data", 0)
                        if typ in (3, 7): rw.set("c", "n_tile_data", 0)
                        w, f, res = parse(rw)
                        what = "an OBU of type %d, temporal layer %d, spatial layer %d, with operating point 0x%03x" % (typ, t, s, idc)
                        hit = 0; ctx.count("layers_judged")
                        for ev, rv, mem in res:
                            ctx.count("paths_judged")
                            e = effect(rw, w, ev, mem); hit += e
                            if not keep:
                                if e: ctx.violation(where(f), "%s is decoded" % what, f.name, "layer")
                                elif rv != rw.n_data: ctx.violation(where(f), "%s is not skipped as a whole" % what, f.name, "layer")
                        if keep and not hit: ctx.violation(where(f), "%s is dropped" % what, f.name, "layer")
                jobs.append(f)
    def always():      # sequence headers and temporal delimiters belong to every layer
        rw = obu_world(ctx, P, L, 1, 1, payload=(0,) * 4, ext=7 << 5 | 3 << 3, seq_results=[(0, None)]); rw.fail = False; rw.set("c", "operating_point_idc", 0x101)
        w, f, res = parse(rw)
        if not any(any(e[0] == "parse_seq" for e in ev) for ev, rv, mem in res): ctx.violation(where(f), "a sequence header outside the operating point is dropped", f.name, "layer")
        ctx.count("layers_judged")
    jobs.append(always)
    return jobs

def types(R):
    """frame types to decode"""
    ctx, P, L = R.ctx, R.OP, R.L
    jobs = []
    NAME = ("key", "inter", "intra-only", "switch")
    def wanted(dft, ft, refresh):
        """True / False / None: not specified"""
        if dft == 0: return True
        if dft == 1: return True if refresh else None if ft == 0 else False
        if dft == 2: return ft in (0, 2)
        return ft == 0
    for dft in range(4):
        for ft in range(4):
            for refresh in (0, 1, 0x80, 0xff):
                def f(dft=dft, ft=ft, refresh=refresh):
                    for typ in (4, 6):
                        h = dict(FH, frame_type=ft, refresh_frame_flags=refresh)
                        rw = obu_world(ctx, P, L, 1, typ, payload=(0, 0, 0, 0), hdr=h, hdr_results=[(0, None)], submit_fails=False, fhdr=h if typ == 4 else None); rw.fail = False
                        rw.set("c", "decode_frame_type", dft)
                        w, f, res = parse(rw); n = 0; ctx.count("frame_types_judged")
                        want = wanted(dft, ft, refresh)
                        what = "%s frame (refreshing %s) with decode_frame_type %d" % (("an " if NAME[ft][0] == "i" else "a ") + NAME[ft], "0x%02x" % refresh if refresh else "nothing", dft)
                        for ev, rv, mem in res:
                            ctx.count("paths_judged")
                            s = any(e[0] == "submit" for e in ev); n += s
                            if want is False:
                                if s: ctx.violation(where(f), "%s is decoded" % what, f.name, "type")
                                elif isinstance(rv, int) and sgn(rv) < 0: ctx.violation(where(f), "%s is an error instead of being skipped" % what, f.name, "type")
                        if want and not n: ctx.violation(where(f), "%s is not decoded" % what, f.name, "type")
                jobs.append(f)
            def f(dft=dft, ft=ft):
                for nfc in (1, 2):
                    rw = obu_world(ctx, P, L, nfc, 3, payload=(0, 0x10, 0), hdr=dict(show_existing_frame=1, existing_frame_idx=3), hdr_results=[(0, None)]); rw.fail = False
                    for k in (2, 3, 4): rw.data[k] = (0x10, 0, 0)[k - 2]
                    rw.set("slothdr3", "frame_type", ft); rw.set("c", "refs[3].p.showable", 1); rw.set("c", "decode_frame_type", dft); rw.set("c", "n_tile_data", 0)
                    w, f, res = parse(rw); n = 0; ctx.count("frame_types_judged")
                    want = True if dft < 2 else ft in (0, 2) if dft == 2 else ft == 0
                    what = "repeating %s frame with decode_frame_type %d, n_fc=%d" % (("an " if NAME[ft][0] == "i" else "a ") + NAME[ft], dft, nfc)
                    for ev, rv, mem in res:
                        ctx.count("paths_judged")
                        s = shown(rw, w, mem, nfc); n += s
                        if not want and s: ctx.violation(where(f), "%s shows it" % what, f.name, "type")
                        if not want and isinstance(rv, int) and sgn(rv) < 0: ctx.violation(where(f), "%s is an error instead of being skipped" % what, f.name, "type")
                    if want and not n: ctx.violation(where(f), "%s does not show it" % what, f.name, "type")
            jobs.append(f)
    return jobs

# --- 3. the in-loop filters and film grain
FILTERS = {"dav1d_loopfilter_sbrow_cols": (1, "deblocking"), "dav1d_loopfilter_sbrow_rows": (1, "deblocking"), "dav1d_cdef_brow": (2, "CDEF"), "dav1d_lr_sbrow": (4, "restoration")}
KERNEL = re.compile(r"^(dav1d_loopfilter_sbrow_cols|dav1d_loopfilter_sbrow_rows|dav1d_cdef_brow|dav1d_lr_sbrow)_(8|16)bpc$")

def filters(R):
    ctx, P, L = R.ctx, R.P, R.L
    entries = sorted(f.name for f in P.functions() if re.match(r"^dav1d_filter_sbrow\w*_(8|16)bpc$", f.name))
    ctx.require(len(entries) >= 10, "the filter stages were not found")
    # every way into a filter leads through these
    reach = {n: {m.group(1) for m in [KERNEL.match(i.callee or "") for i in P.fn(n).calls()] if m} for n in entries}
    jobs = []
    seen = {}
    def one(n):
        f = P.fn(n); done = set()
        for bits in range(8):
            for lv in ((0, 0), (5, 0), (0, 5)):
                for sby in (0, 1):
                    rw = RW(ctx, P, L, n_fc=1, n_tc=2); rw.fail = False
                    rw.objs("fh", "Dav1dFrameHeader", 1); rw.objs("sq", "Dav1dSequenceHeader", 1); rw.objs("tc", "Dav1dTaskContext", 1); rw.default0 |= {"fh", "sq", "tc"}
                    rw.set("tc", "f", O("fc")); rw.set("tc", "c", O("c")); rw.set("fc", "frame_hdr", O("fh")); rw.set("fc", "seq_hdr", O("sq")); rw.set("c", "inloop_filters", bits)
                    rw.set("fh", "loopfilter.level_y[0]", lv[0]); rw.set("fh", "loopfilter.level_y[1]", lv[1]); rw.set("sq", "cdef", 1); rw.set("fc", "lf.restore_planes", 7)
                    rw.set("fc", "sb_step", 16); rw.set("fc", "sbh", 2); rw.set("fc", "bh", 32); rw.set("fc", "bw", 32); rw.set("fc", "sb128w", 1); rw.set("fc", "cur.p.h", 128); rw.set("fc", "cur.p.layout", 1)
                    for m in ("cur", "sr_cur.p"):
                        rw.set("fc", m + ".stride[0]", 64); rw.set("fc", m + ".stride[1]", 32)
                    fm = FILTERS
                    rw.no_into |= {x for x in P.raw if KERNEL.match(x) or re.match(r"dav1d_copy_lpf_", x)}
                    arg = O("tc") if is_tc(P, f) else O("fc")
                    w, g, res = rw.run(n, {0: arg, 1: sby})
                    ctx.count("filter_runs")
                    if not res: ctx.violation(where(f), "every path runs into undefined behaviour", n, "ub")
                    for ev, rv, mem in res:
                        ctx.count("paths_judged")
                        run = {}
                        for e in ev:
                            if e[0] == "call" and e[1].callee and KERNEL.match(e[1].callee): run[KERNEL.match(e[1].callee).group(1)] = e[1]
                        for k, i in run.items():
                            done.add(k)
                            if not bits & FILTERS[k][0]: ctx.violation(i.where(), "%s runs although the application has disabled it" % FILTERS[k][1], n, "filter")
                        for k, (bit, nm) in FILTERS.items():
                            if k in expected(n) and bits & bit and (bit != 1 or lv != (0, 0)) and k not in run: ctx.violation(where(f), "%s does not run although it is enabled" % nm, n, "filter")
        ctx.setc("filters_" + n, sorted(done))
    for n in entries: jobs.append(lambda n=n: one(n))
    # no other way in
    for g in P.functions():
        if g.name in entries: continue
        for i in g.calls():
            if i.callee and KERNEL.match(i.callee) and not g.name.startswith("dav1d_filter_sbrow") :
                # a helper is fine as long as only the stages use it
                if not only_from(P, g.name, set(entries)): ctx.violation(i.where(), "%s is started outside the filter stages, where its setting is tested" % FILTERS[KERNEL.match(i.callee).group(1)][1], g.name, "filter")
    return jobs

def only_from(P, n, roots, depth=4):
    cs = {f.name for f in P.functions() for i in f.calls() if i.callee == n}
    return bool(cs) and depth > 0 and all(c in roots or only_from(P, c, roots, depth - 1) for c in cs)

def expected(n):
    n = re.sub(r"_(8|16)bpc$", "", n)
    return {"dav1d_filter_sbrow": set(FILTERS), "dav1d_filter_sbrow_deblock_cols": {"dav1d_loopfilter_sbrow_cols"}, "dav1d_filter_sbrow_deblock_rows": {"dav1d_loopfilter_sbrow_rows"},
            "dav1d_filter_sbrow_cdef": {"dav1d_cdef_brow"}, "dav1d_filter_sbrow_lr": {"dav1d_lr_sbrow"}}.get(n, set())

def is_tc(P, f):
    a = f.args[0]
    d = f.__dict__.get("argtypes")
    return re.match(r"dav1d_filter_sbrow_cdef_", f.name) is not None

def grain(R):
    ctx, P, L = R.ctx, R.P, R.L
    jobs = []
    def one(nfc, on, what, fields, must):
        rw = api_world(ctx, P, L); rw.objs("out", "Dav1dPicture", 1); rw.fail = False
        rw.set("c", "apply_grain", on); rw.set("c", "all_layers", 1); rw.set("c", "max_spatial_id", 0); rw.set("c", "n_tc", nfc)
        rw.fill_handle("c", "out", "ready", "Dav1dThreadPicture")
        for k, v in (("w", 64), ("h", 64), ("layout", 1), ("bpc", 8)): rw.set("c", "out.p.p." + k, v)
        rw.objs("ready>p.frame_hdr", "Dav1dFrameHeader", 1); rw.default0.add("ready>p.frame_hdr")
        for k, v in fields.items(): rw.set("ready>p.frame_hdr", "film_grain.data." + k, v)
        rw.cells[("ready>p.seq_hdr", L.off("Dav1dSequenceHeader", "layout"))] = 1
        rw.cells[("ready:p.ref", L.off("Dav1dRef", "const_data"))] = O("poolbuf"); rw.cells[("poolbuf", L.off("Dav1dMemPoolBuffer", "data"))] = O("picctx")
        w, f, res = rw.run("dav1d_get_picture", {0: O("c"), 1: O("out")})
        ctx.count("grain_judged"); n = 0
        for ev, rv, mem in res:
            ctx.count("paths_judged")
            g = next((e[1] for e in ev if e[0] in ("call", "enter") and e[1].callee and re.match(r"dav1d_(apply_grain_(8|16)bpc|task_delayed_fg|prep_grain_\w+)$", e[1].callee)), None)
            same = rw.get(w, mem, "out", "data[0]") == rw.get(w, Mem(), "c", "out.p.data[0]")
            if not on and (g is not None or not same): ctx.violation(g.where() if g is not None else where(f), "film grain is applied although it was not requested [%s]" % what, f.name, "grain")
            if on and must is True and (g is None or same): ctx.violation(where(f), "film grain is not applied although it was requested [%s]" % what, f.name, "grain")
            if must is False and g is not None: ctx.violation(g.where(), "film grain is applied to a picture without any [%s]" % what, f.name, "grain")
            n += 1
        if not n: ctx.violation(where(f), "no picture can be returned [%s]" % what, f.name, "grain")
    for nfc in (1, 2):
        for on in (0, 1):
            for what, fields, must in (("no grain", {}, False), ("luma points", {"num_y_points": 1}, True), ("blue points", {"num_uv_points[0]": 1}, True), ("red points", {"num_uv_points[1]": 2}, True), ("chroma from luma", {"num_y_points": 3, "chroma_scaling_from_luma": 1}, True)):
                jobs.append(lambda a=(nfc, on, what, fields, must): one(*a))
    return jobs

def run(ctx):
    ctx.rule = ("Every field of the settings is followed (abstract evaluation, no execution): opening a decoder with each value must leave it in the decoder instance; parsing OBUs around the frame-size limit, with each standard violation strict mode covers, for every layer and operating point, frame type and decode_frame_type "
                "must accept and refuse exactly what the setting documents; each filter stage is evaluated for all combinations of the filter bits and must call a filter exactly when its bit is set; film grain is applied exactly when requested and present.  Output of hidden frames and layers is judged by C23.")
    P = ctx.prog(); L = Lay(P)
    R = Run(ctx, P, L); R.OP = obu_program(ctx)
    jobs = arrival(R) + limits(R) + strictness(R) + layers(R) + types(R) + filters(R) + grain(R)
    ctx.setc("jobs", len(jobs))
    parallel(ctx, lambda: jobs, lambda j: j())
    ctx.assumptions.append("the callbacks and the header parsers' own bits are modelled; the effect of an in-loop filter on pixels is not judged, only whether it is started")
