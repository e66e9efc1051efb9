"""One superblock row of a tile, on abstract state: dav1d_decode_tile_sbrow is evaluated for concrete geometries with the decoding of a superblock and the
reading of a restoration unit as opaque steps.  Nothing is executed."""
from decworld import *
from rules.c04 import Heap, buffers_world

GEOM = [      # w, h, upscaled width, 128x128 superblocks, layout, tile columns, tile rows, restoration unit sizes (luma, chroma)
    (200, 200, 200, 0, 1, 1, 1, (6, 6)), (200, 200, 200, 0, 1, 3, 2, (6, 5)), (264, 136, 264, 0, 1, 1, 1, (7, 6)), (264, 136, 264, 1, 1, 1, 1, (7, 6)), (400, 300, 400, 1, 3, 2, 2, (8, 7)),
    (96, 104, 96, 0, 1, 1, 1, (6, 6)), (160, 130, 160, 0, 2, 1, 1, (6, 6)), (160, 130, 160, 0, 0, 2, 1, (6, 6)), (200, 100, 400, 0, 1, 1, 1, (6, 6)), (200, 100, 267, 0, 1, 2, 1, (6, 5)), (256, 129, 300, 1, 1, 1, 1, (7, 7)), (64, 64, 64, 0, 1, 1, 1, (8, 8))]

def units(n, size): return max((n + (size >> 1)) // size, 1)

def expected_units(g, bx, by, planes, denom):
    """restoration units whose parameters are read with the superblock at (bx, by), in reading order (AV1 specification 5.11.57)"""
    w, h, sr, sb128, lay, _, _, us = g
    n = 32 if sb128 else 16
    for p in range(3):
        if not planes >> p & 1: continue
        sv, sh = int(p > 0 and lay == 1), int(p > 0 and lay in (1, 2))
        u = 1 << us[p > 0]
        rows, cols = units((h + sv) >> sv, u), units((sr + sh) >> sh, u)
        r0 = (by * (4 >> sv) + u - 1) // u; r1 = ((by + n) * (4 >> sv) + u - 1) // u
        num, den = ((4 >> sh) * denom, u * 8) if sr != w else (4 >> sh, u)
        c0 = (bx * num + den - 1) // den; c1 = ((bx + n) * num + den - 1) // den
        for r in range(r0, min(r1, rows)):
            for c in range(c0, min(c1, cols)): yield p, (r * u) << sv, (c * u) << sh

def explore_rows(ctx, P, L, tell):
    if P.fn("decode_sb") is None or P.fn("read_restoration_info") is None:
        ctx.notes.append("decode_sb or read_restoration_info cannot be told apart in this tree: the walk over the superblocks of a tile row is not judged"); return
    f = P.fn("dav1d_decode_tile_sbrow")
    ctx.require(f is not None, "dav1d_decode_tile_sbrow is gone")
    bad = lambda kind, i, msg, note: tell("C27", kind, i, "%s [%s]" % (msg, note))
    def case(g, nfc, ntc, ps, typ, mvs, planes):
        w_, h_, sr, sb128, lay, cols, rows, us = g
        if lay == 0: planes &= 1
        cf = dict(w=w_, h=h_, sr=sr, sb128=sb128, layout=lay, cols=cols, rows=rows, typ=typ)
        rw = buffers_world(ctx, P, L, nfc, ntc, cf, Heap(False))
        rw.max_paths = 512
        rw.objs("tc", "Dav1dTaskContext", 1); rw.objs("ts", "Dav1dTileState", cols * rows)
        sb = 128 if sb128 else 64; nsb = lambda n: (n + sb - 1) // sb
        geo = lambda p: rw.cells[("fc", L.off("Dav1dFrameContext", p))]
        bw, bh, step = geo("bw"), geo("bh"), geo("sb_step")
        denom = max(9, min(16, (w_ and (sr * 8 + w_ // 2) // w_)))
        S = lambda p, v: rw.set("fc", p, v)
        rw.set("c", "flush_mem", 0)
        S("a", O("ctxa")); S("lf.mask", O("lfmask")); S("lf.lr_mask", O("lrmask")); S("lf.restore_planes", planes); S("ts", O("ts")); S("sr_sb128w", (sr + 127) >> 7)
        for k in range(2): S("lf.tx_lpf_right_edge[%d]" % k, O("redge%d" % k))
        S("bd_fn.backup_ipred_edge", ("ptr", ("g", "slot_backup"), 0))
        H = lambda p, v: rw.set("hdr", p, v)
        for k in range(2): H("restoration.unit_size[%d]" % k, us[k])
        for k in range(3): H("restoration.type[%d]" % k, 3 if planes >> k & 1 else 0)
        H("super_res.width_scale_denominator", denom); H("super_res.enabled", int(sr != w_))
        H("use_ref_frame_mvs", mvs); rw.set("seq", "ref_frame_mvs", mvs); H("allow_intrabc", 0)
        cs = [nsb(w_) * k // cols for k in range(cols + 1)]; rs = [nsb(h_) * k // rows for k in range(rows + 1)]
        n4 = sb // 4
        for r in range(rows):
            for q in range(cols):
                for p, v in (("row", r), ("col", q), ("row_start", rs[r] * n4), ("row_end", min(rs[r + 1] * n4, bh)), ("col_start", cs[q] * n4), ("col_end", min(cs[q + 1] * n4, bw))): rw.set("ts", "tiling." + p, v, r * cols + q)
                rw.set("ts", "msac.cnt", 0, r * cols + q); rw.set("ts", "lowest_pixel", O("lowest"), r * cols + q)
        rw.set("tc", "c", O("c")); rw.set("tc", "f", O("fc"))
        old = rw.init
        tcs = L.size("Dav1dTaskContext")
        rw.default0.add("tc")
        T = lambda m: rw.at("tc", m)
        def sb_(rw, w, i, av, mem, ev):
            rd = lambda m, ty: w.read(mem, T(m), ty)
            cd = rd("cur_sb_cdef_idx_ptr", "ptr")
            ev.append(("sb", i, rd("bx", "i32"), rd("by", "i32"), rd("a", "ptr"), rd("lf_mask", "ptr"), cd, w.read(mem, cd, "i8") if w.ptr(cd) else None, av[1])); return ("alts", [(0, None), (1, "a superblock cannot be decoded")]) if fails else 0
        def lr(rw, w, i, av, mem, ev): ev.append(("unit", i, av[2], av[1], av[3])); return UNK
        rw.models["decode_sb"] = sb_; rw.models["read_restoration_info"] = lr
        rw.models["dav1d_refmvs_tile_sbrow_init"] = lambda rw, w, i, av, mem, ev: ev.append(("mvinit", i, av[2:])) or UNK
        S("rf.iw8", (w_ + 7) >> 3); S("rf.ih8", (h_ + 7) >> 3); S("rf.rp_stride", 100); S("rf.rp", O("rp")); rw.set("tc", "rt.rf", rw.at("fc", "rf"))
        oldc = rw.call
        def call(w, i, av, mem, ev):
            if i.callee is None:
                s = rw.slot(i)
                if s == "save_tmvs": ev.append(("save", i, (av[6], av[4], av[7], av[5]))); return UNK
                if s == "load_tmvs": ev.append(("loadmv", i, av[1:6])); return UNK
                tg = ev[-1][3] if ev and ev[-1][0] == "call" else None
                if s == "backup_ipred_edge" or tg == ("ptr", ("g", "slot_backup"), 0): ev.append(("backup", i)); return UNK
            return oldc(w, i, av, mem, ev)
        rw.call = call
        lrsz, lroff = L.size("Av1Restoration"), [L.off("Av1Restoration", "lr[%d]" % p) for p in range(3)]
        asz, lfsz = L.size("BlockContext"), L.size("Av1Filter")
        usz = L.size("Av1RestorationUnit")
        cdo = L.off("Av1Filter", "cdef_idx")
        note = "%dx%d px%s, %dx%d tiles, %s superblocks, pass %d, %d threads" % (w_, h_, " upscaled to %d" % sr if sr != w_ else "", cols, rows, "128x128" if sb128 else "64x64", ps, ntc)
        got = {}
        for r in range(rows):
            for q in range(cols):
                for sby in range(rs[r], rs[r + 1]):
                    by = sby * n4
                    if by >= bh: continue
                    for fails in ((False, True) if g is GEOM[1] and sby == rs[r] else (False,)):
                        rw.set("tc", "ts", O("ts", (r * cols + q) * L.size("Dav1dTileState"))); rw.set("tc", "by", by); rw.set("tc", "frame_thread.pass", ps)
                        for m in ("lf_mask", "a", "cur_sb_cdef_idx_ptr"): rw.set("tc", m, 0)
                        w = rw.world()
                        try: res = w.run(f, {0: O("tc")})
                        except Limit as e: ctx.require(False, "dav1d_decode_tile_sbrow cannot be evaluated (%s)" % e)
                        ctx.count("tile_rows"); ctx.count("evaluated_steps", w.steps); ctx.count("paths", len(res))
                        i0 = f.blocks[0][0]
                        if not res: bad("end", i0, "a row of a tile is never finished", note); continue
                        for ev, v, mem in res:
                            failed = rw.failed(ev)
                            sbs = [e for e in ev if e[0] == "sb"]; lrs = [e for e in ev if e[0] == "unit"]
                            if failed:
                                if v == 0: bad("error", i0, "a tile row whose superblock cannot be decoded counts as decoded", note)
                                ctx.count("obligations"); continue
                            if v != 0: bad("error", i0, "a good tile row is reported as failed", note)
                            want = [(x * n4, by) for x in range(cs[q], cs[q + 1])]
                            want = [x for x in want if x[0] < bw]
                            ctx.count("obligations", len(want) * 4 + len(lrs) + 4)
                            if [(e[2], e[3]) for e in sbs] != want: bad("walk", sbs[0][1] if sbs else i0, "the superblocks of a tile row are not decoded once each from left to right", note); continue
                            off2 = geo("sb128w") * rows if ps == 2 and ntc > 1 else 0
                            for k, e in enumerate(sbs):
                                x128, y128 = e[2] >> 5, by >> 5
                                if e[4] != O("ctxa", (off2 + x128 + r * geo("sb128w")) * asz): bad("above", e[1], "a superblock is decoded with the above context of another", note)
                                if ps != 2:
                                    if e[5] != O("lfmask", (x128 + y128 * geo("sb128w")) * lfsz): bad("mask", e[1], "a superblock is decoded with the filter mask of another", note)
                                    at = 0 if sb128 else (e[2] >> 4 & 1) + (by >> 4 & 1) * 2
                                    if e[6] != O("lfmask", (x128 + y128 * geo("sb128w")) * lfsz + cdo + at): bad("cdef", e[1], "the CDEF index of a superblock is stored with another", note)
                                    elif e[7] != -1: bad("cdef", e[1], "a superblock starts with a CDEF index already read", note)
                            exp = [x for e in sbs for x in expected_units(g, e[2], by, planes, denom)] if ps != 2 else []
                            if [e[2] for e in lrs] != [x[0] for x in exp]:
                                bad("units", lrs[0][1] if lrs else i0, "the parameters of the restoration units are not read where the specification says", note)
                            else:
                                for e, (p, y, x) in zip(lrs, exp):
                                    at = O("lrmask", ((y >> 7) * ((sr + 127) >> 7) + (x >> 7)) * lrsz + lroff[p] + (((y & 64) >> 5) + ((x & 64) >> 6)) * usz)
                                    # a unit that starts between superblock rows is kept with the row that reads it
                                    at2 = O("lrmask", ((by >> 5) * ((sr + 127) >> 7) + (x >> 7)) * lrsz + lroff[p] + (((by & 16) >> 3) + ((x & 64) >> 6)) * usz)
                                    if e[3] not in (at, at2): bad("units", e[1], "the parameters of a restoration unit are stored for another", note)
                                    if e[3] in got and not fails: bad("units", e[1], "the parameters of two restoration units share one place", note)
                                    got[e[3]] = 1
                            # left to do with the whole row
                            pos = {k: [j for j, e in enumerate(ev) if e[0] == k] for k in ("sb", "backup", "save", "loadmv", "mvinit")}
                            n = len(pos["backup"])
                            if n != (0 if ps == 1 else 1) or n and pos["sb"] and pos["backup"][0] < pos["sb"][-1]: bad("edge", i0, "the bottom edge of a tile row is not kept once, after the row is reconstructed", note)
                            cx, cy = (cs[q] * n4 >> 1, min(cs[q + 1] * n4, bw) >> 1), (by >> 1, (by + step) >> 1)
                            for k, need in (("loadmv", ps != 2 and ntc > 1 and mvs), ("save", ps != 2 and ntc > 1 and mvs and typ in (1, 3)), ("mvinit", typ in (1, 3))):
                                if bool(pos[k]) != bool(need) or len(pos[k]) > 1: bad("mvs", i0, {"loadmv": "the motion vectors of the references are", "save": "the motion vectors of the row are", "mvinit": "the motion vector context of the row is"}[k] + (" not %s" if need else " wrongly %s") % {"loadmv": "projected", "save": "saved", "mvinit": "set up"}[k], note); continue
                                if not need: continue
                                e = ev[pos[k][0]]
                                if k == "loadmv" and (e[2][0] != r or tuple(e[2][1:]) [:3] != (cx[0], cx[1], cy[0])): bad("mvs", e[1], "the motion vectors of the references are projected for other blocks than those of the tile row", note)
                                if k == "save" and tuple(e[2]) != (cx[0], min(cx[1], (w_ + 7) >> 3), cy[0], min(cy[1], (h_ + 7) >> 3)): bad("mvs", e[1], "the motion vectors saved are not those of the tile row", note)
                                if pos["sb"] and (k == "save") != (pos[k][0] > pos["sb"][-1]) and (k == "save") != (pos[k][0] > pos["sb"][0]): bad("mvs", e[1], "the motion vectors of a tile row are handled on the wrong side of its decoding", note)
    js = []
    for g in GEOM:
        for planes in (7, 1, 6, 0):
            js.append((g, 1, 1, 0, 0, 0, planes))
    for g in GEOM[:4] + GEOM[9:10]:
        for ps, nfc, ntc in ((0, 1, 2), (1, 2, 2), (2, 2, 2), (1, 2, 1), (2, 2, 1)):
            for typ, mvs in ((0, 0), (1, 0), (1, 1)): js.append((g, nfc, ntc, ps, typ, mvs, 7))
    parallel(ctx, lambda: js, lambda j: case(*j))
