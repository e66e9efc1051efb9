#!/usr/bin/env python3
"""Writes small AV1 streams (Section 5 / IVF): real headers, arbitrary tile bytes."""
import struct, random

class BW:
    def __init__(s): s.b = []
    def u(s, n, v):
        for i in range(n - 1, -1, -1): s.b.append((v >> i) & 1)
        return s
    def align(s):
        while len(s.b) % 8: s.b.append(0)
        return s
    def trail(s):
        s.b.append(1); return s.align()
    def bytes(s):
        s.align(); return bytes(int("".join(map(str, s.b[i:i + 8])), 2) for i in range(0, len(s.b), 8))

def leb(n):
    o = []
    while True:
        o.append((n & 127) | (128 if n > 127 else 0)); n >>= 7
        if not n: return bytes(o)

def obu(t, payload, tid=None, sid=0):
    if tid is None: return bytes([t << 3 | 2]) + leb(len(payload)) + payload
    return bytes([t << 3 | 6, tid << 5 | sid << 3]) + leb(len(payload)) + payload

TD = obu(2, b"")

class Seq:
    def __init__(s, w=64, h=64, hbd=0, mono=0, order_hint=5, film=0, superres=0, cdef=0, lr=0, idc=(0,), ref_mvs=0, sb128=0, err_frame_ids=0, profile=0, layout=420, level=8):
        s.__dict__.update(locals()); del s.__dict__["s"]
    def payload(s):
        b = BW()
        b.u(3, s.profile).u(1, 0).u(1, 0)
        b.u(1, 0).u(1, 0).u(5, len(s.idc) - 1)
        for i in s.idc:
            b.u(12, i).u(5, s.level)
            if s.level > 7: b.u(1, 0)
        b.u(4, 15).u(4, 15).u(16, s.w - 1).u(16, s.h - 1)
        b.u(1, 0)
        b.u(1, s.sb128).u(1, 0).u(1, 0)
        b.u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 1 if s.order_hint else 0)
        if s.order_hint: b.u(1, 0).u(1, s.ref_mvs)
        b.u(1, 1); b.u(1, 1)
        if s.order_hint: b.u(3, s.order_hint - 1)
        b.u(1, s.superres).u(1, s.cdef).u(1, s.lr)
        b.u(1, 1 if s.hbd else 0)
        if s.profile == 2 and s.hbd: b.u(1, 1 if s.hbd == 2 else 0)
        if s.profile != 1: b.u(1, s.mono)
        b.u(1, 0)
        if s.mono: b.u(1, 0)
        else:
            b.u(1, 0)
            if s.profile == 0: b.u(2, 0)
            b.u(1, 0)
        b.u(1, s.film)
        return b.trail().bytes()
    def obu(s): return obu(1, s.payload())

KEY, INTER, INTRA, SWITCH = 0, 1, 2, 3

def frame_hdr(q, type=KEY, show=1, showable=1, err=None, disable_cdf=0, refresh=None, oh=0, primary=7, size=None, refs=(0,) * 7, base_q=100, no_end_update=1,
              lf=(0, 0), sharp=0, tiles=(0, 0), maxtiles=None, seg=None, film=None, superres_denom=None, cdef_bits=0, lr_type=0, ref_mvs=0, update_tile=0, sct=0, n_bytes=1, ref_oh=None, cdef_y=0,
              mode_delta=0, show_existing=None, screen=None):
    b = BW()
    if show_existing is not None:
        return b.u(1, 1).u(3, show_existing)
    b.u(1, 0).u(2, type).u(1, show)
    if not show: b.u(1, showable)
    if type == SWITCH or (type == KEY and show): err = 1
    else:
        err = err or 0; b.u(1, err)
    b.u(1, disable_cdf)
    b.u(1, sct)
    if sct: b.u(1, 0)
    if type != SWITCH: b.u(1, 1 if size else 0)
    if q.order_hint: b.u(q.order_hint, oh)
    intra = type in (KEY, INTRA)
    if not intra and not err: b.u(3, primary)
    if type == SWITCH or (type == KEY and show): refresh = 0xff
    else:
        refresh = 0xff if refresh is None else refresh; b.u(8, refresh)
    if (not intra or refresh != 0xff) and err and q.order_hint:
        for i in range(8): b.u(q.order_hint, (ref_oh or [0] * 8)[i])
    w, h = size or (q.w, q.h)
    def fsize():
        if size: b.u(16, w - 1).u(16, h - 1)
        if q.superres:
            b.u(1, 1 if superres_denom else 0)
            if superres_denom: b.u(3, superres_denom - 9)
        b.u(1, 0)
    cw = w
    if superres_denom: cw = max((w * 8 + superres_denom // 2) // superres_denom, min(16, w))
    if intra:
        fsize()
        if sct and not superres_denom: b.u(1, 0)
    else:
        if q.order_hint: b.u(1, 0)
        for r in refs: b.u(3, r)
        if size and not err:
            for i in range(7): b.u(1, 0)
        fsize()
        b.u(1, 0); b.u(1, 1); b.u(1, 0)
        if not err and q.order_hint and q.ref_mvs: b.u(1, ref_mvs)
    if not disable_cdf: b.u(1, no_end_update)
    # tile info
    sb = 128 if q.sb128 else 64
    sbc, sbr = (cw + sb - 1) // sb, (h + sb - 1) // sb
    b.u(1, 1)
    def lg(k, t):
        n = 0
        while k << n < t: n += 1
        return n
    maxw = 4096 // sb; minc = lg(maxw, sbc); maxc = lg(1, min(sbc, 64)); maxr = lg(1, min(sbr, 64))
    minlog = max(minc, lg((4096 * 2304) // (sb * sb), sbc * sbr))
    c = minc
    while c < maxc:
        if c < tiles[0]: b.u(1, 1); c += 1
        else: b.u(1, 0); break
    r = max(minlog - c, 0)
    while r < maxr:
        if r < tiles[1]: b.u(1, 1); r += 1
        else: b.u(1, 0); break
    if c or r:
        b.u(c + r, update_tile).u(2, n_bytes - 1)
    tw = (sbc + (1 << c) - 1) >> c; th = (sbr + (1 << r) - 1) >> r
    nt = ((sbc + tw - 1) // tw) * ((sbr + th - 1) // th)
    b.ntiles = nt; b.log = c + r
    b.u(8, base_q).u(1, 0)
    if not q.mono: b.u(1, 0).u(1, 0)
    b.u(1, 0)
    if seg is None: b.u(1, 0)
    else: seg(b, primary if not intra and not err else 7)
    if base_q:
        b.u(1, 0)
        b.u(6, lf[0]).u(6, lf[1])
        if not q.mono and (lf[0] or lf[1]): b.u(6, lf[0]).u(6, lf[1])
        b.u(3, sharp).u(1, 0)
        if q.cdef:
            b.u(2, 0).u(2, cdef_bits)
            for i in range(1 << cdef_bits):
                b.u(6, cdef_y)
                if not q.mono: b.u(6, cdef_y)
        if q.lr:
            for p in range(1 if q.mono else 3): b.u(2, lr_type)
            if lr_type:
                if q.sb128: b.u(1, 0)
                else:
                    b.u(1, 0)
                if not q.mono: b.u(1, 0)
        b.u(1, 0)  # tx mode
    if not intra: b.u(1, 0)  # reference_select
    b.u(1, 0)  # reduced tx set
    if not intra:
        for i in range(7): b.u(1, 0)
    if q.film and (show or showable):
        if film: film(b, type)
        else: b.u(1, 0)
    return b

def frame(q, data=None, seed=1, tid=None, sid=0, split=False, n=6000, **k):
    b = frame_hdr(q, **k)
    if "show_existing" in k and k["show_existing"] is not None:
        return obu(3, b.trail().bytes(), tid, sid)
    nt = b.ntiles
    rnd = random.Random(seed)
    td = data if data is not None else [bytes(rnd.randrange(256) for _ in range(n)) for _ in range(nt)]
    if isinstance(td, bytes): td = [td]
    nb = k.get("n_bytes", 1)
    def tg(s=None, e=None):
        t = BW()
        if nt > 1:
            if s is None: t.u(1, 0)
            else: t.u(1, 1).u(b.log, s).u(b.log, e)
        o = t.bytes()
        s0, e0 = (0, nt - 1) if s is None else (s, e)
        for j in range(s0, e0 + 1):
            if j < e0: o += (len(td[j]) - 1).to_bytes(nb, "little")
            o += td[j]
        return o
    if split:
        o = obu(3, b.trail().bytes(), tid, sid)
        for j in range(nt): o += obu(4, tg(j, j) if nt > 1 else tg(), tid, sid)
        return o
    return obu(6, b.bytes() + tg(), tid, sid)

def ivf(tus, w=64, h=64):
    o = b"DKIF" + struct.pack("<HH4sHHIIII", 0, 32, b"AV01", w, h, 25, 1, len(tus), 0)
    for i, t in enumerate(tus): o += struct.pack("<IQ", len(t), i) + t
    return o
