from av1gen import *
import struct, random
def meta(t, payload): return obu(5, leb(t) + payload + b"\x80")
def t35(cc, data): return meta(4, bytes([cc]) + data)
def mdcv(lmax, lmin): return meta(2, struct.pack(">8HII", 1, 2, 3, 4, 5, 6, 7, 8, lmax, lmin))
def cll(a, b): return meta(1, struct.pack(">HH", a, b))
BUGS = {}
def bug(i, **k): BUGS[i] = k

def s_base(n=6, **kw):
    q = Seq(**kw)
    tus = [TD + q.obu() + frame(q, seed=1, no_end_update=0)]
    for i in range(1, n): tus.append(TD + frame(q, type=INTER, oh=i, primary=0 if i > 1 else 7, refresh=1 << (i & 7), seed=i + 10, refs=[(i - 1) & 7] * 7, no_end_update=0))
    return tus

def f01():
    q = Seq(w=512, h=512)
    return ivf([TD + q.obu() + frame(q, type=KEY, seed=i + 30, base_q=160, n=16000) for i in range(1, 8)])
bug("b01", property="C20", edits=[("src/cdf.c", "{ CDF1(20855) }, { CDF1(23410) }", "{ CDF1(20855) }, { CDF1(23140) }")],
    needs="a frame with base_q_idx above 120 whose 4x4 chroma blocks code the extra end-of-block bit in one particular size class",
    breaks="one entry of the default probability table for the extra end-of-block bit (last quantiser category) has two digits exchanged",
    streams={"a.ivf": f01}, runs=["f:a.ivf drain"])

def f02():
    q = Seq()
    return ivf([TD + q.obu() + t35(0xB5, b"abcd") + t35(0xB5, b"xyz")])
def f02b():
    q = Seq()
    return ivf([TD + q.obu() + t35(0xB4, b"hello") + frame(q, seed=1)])
bug("b02", property="C17", edits=[("src/lib.c", "    c->itut_t35 = NULL;\n    c->n_itut_t35 = 0;\n    dav1d_ref_dec(&c->mastering", "    c->itut_t35 = NULL;\n    dav1d_ref_dec(&c->mastering")],
    needs="T.35 metadata that arrived before the flush without a visible frame following it, and T.35 metadata again after the flush",
    breaks="the count of pending T.35 messages survives dav1d_flush although the messages were dropped; the next message is appended behind entries that do not exist",
    streams={"a.ivf": f02, "b.ivf": f02b}, runs=["f:a.ivf flush f:b.ivf drain", "t=3 d=2 f:a.ivf flush f:b.ivf drain"])

def f03():
    q = Seq()
    return ivf([TD + q.obu() + mdcv(1000, 5) + frame(q, seed=1), TD + cll(10, 20) + frame(q, type=INTER, oh=1, primary=0, refresh=2, seed=3), TD + mdcv(7, 3) + frame(q, type=INTER, oh=2, primary=0, refresh=2, seed=4)])
bug("b03", property="C02", edits=[("src/picture.c", "    if (src->content_light_ref) dav1d_ref_inc(src->content_light_ref);\n    if (src->mastering_display_ref) dav1d_ref_inc(src->mastering_display_ref);\n",
     "    if (src->content_light_ref) {\n        dav1d_ref_inc(src->content_light_ref);\n        if (src->mastering_display_ref) dav1d_ref_inc(src->mastering_display_ref);\n    }\n")],
    needs="a stream with mastering-display metadata but no content-light metadata, and a picture held longer than the metadata stays current",
    breaks="a picture that carries only mastering-display metadata takes no reference on it; the metadata is freed under the application's picture",
    streams={"a.ivf": f03}, runs=["hold=1 f:a.ivf drain held close held drop", "hold=1 t=2 d=2 f:a.ivf drain held close held drop"])

def f04():
    q = Seq(w=256, h=256)
    tus = [TD + q.obu() + frame(q, seed=1, no_end_update=0, base_q=30, sct=1, n=20000)]
    for i in range(1, 12): tus.append(TD + frame(q, type=INTER, oh=i, primary=0, refresh=1, seed=i + 30, no_end_update=0, base_q=30, sct=1, n=20000))
    return ivf(tus)
bug("b04", property="C19", edits=[("src/cdf.c", "update_cdf_4d(2, 7, 5, k + 1, m.color_map);", "update_cdf_4d(2, 7, 4, k + 1, m.color_map);")],
    needs="palette blocks with the last colour context in two consecutive frames that share adapted probabilities",
    breaks="the adaptation counters of the colour-index tables of the last context are not reset when a frame's probabilities are saved",
    streams={"a.ivf": f04}, runs=["f:a.ivf drain"])

# --- second series
def f05():
    q = Seq(idc=(0x301, 0x101)); o = TD
    def layer(sid, i, **k): return frame(q, tid=0, sid=sid, oh=i, seed=i * 7 + sid, **k)
    tus = [TD + q.obu() + layer(0, 0, type=KEY) + layer(1, 0, type=INTER, primary=0, refresh=2)]
    for i in range(1, 6):
        t = TD + layer(0, i, type=INTER, primary=0, refresh=1)
        if i not in (2, 3): t += layer(1, i, type=INTER, primary=0, refresh=2, refs=[1] * 7)
        tus.append(t)
    return ivf(tus)
bug("b05", property="C23", edits=[("src/lib.c", "                c->out.flags & PICTURE_FLAG_NEW_TEMPORAL_UNIT)", "                c->cache.flags & PICTURE_FLAG_NEW_TEMPORAL_UNIT)")],
    needs="a stream with two spatial layers of which some temporal units lack the upper one, decoded with all_layers=0",
    breaks="whether the cached lower layer is complete is judged by the flags of the cached picture rather than of the one that follows, so the base layer of a complete unit is output too, or the wrong picture of a unit",
    streams={"a.ivf": f05}, runs=["all=0 f:a.ivf drain", "all=0 t=2 d=2 f:a.ivf drain"])

def f06():
    q = Seq()
    return ivf([TD + q.obu() + frame(q, seed=1), TD + frame(q, type=INTER, show=0, oh=2, primary=0, refresh=2, seed=2), TD + frame(q, type=INTER, oh=1, primary=0, refresh=4, seed=3), TD + frame(q, show_existing=1), TD + frame(q, type=INTER, oh=3, primary=0, refresh=4, seed=4)])
bug("b06", property="C33", edits=[("src/obu.c", "2@                                         c->itut_t35, c->itut_t35_ref, c->n_itut_t35,\n                                         &in->m);", "                                         c->itut_t35, c->itut_t35_ref, c->n_itut_t35,\n                                         &out_delayed->p.m);")],
    needs="an existing frame shown again while frame threading is on",
    breaks="the shown picture keeps timestamp and user data of the packet that decoded it instead of the packet that shows it",
    streams={"a.ivf": f06}, runs=["t=3 d=3 f:a.ivf drain"])

def broken(n=2):
    return [b"\xff\xff\xff\xff" * 3] * n
def f07():
    q = Seq(w=128, h=64); bad = [b"\x01"] * 2
    tus = [TD + q.obu() + frame(q, seed=1, tiles=(1, 0), n_bytes=2)]
    for i in range(1, 7):
        if i == 2:
            fr = bytearray(frame(q, type=INTER, oh=i, primary=0, refresh=2, seed=i, tiles=(1, 0), n_bytes=2, data=[b"\x55" * 8] * 2))
            k = bytes(fr).rindex(b"\x07\x00"); fr[k] = 200           # the first tile claims more bytes than there are
            tus.append(TD + bytes(fr))
        else: tus.append(TD + frame(q, type=INTER, oh=i, primary=0, refresh=1, seed=i, tiles=(1, 0), n_bytes=2))
    return ivf(tus)
bug("b07", property="C16", edits=[("src/decode.c", "            dav1d_data_props_copy(&c->cached_error_props, &out_delayed->p.m);\n            dav1d_thread_picture_unref(out_delayed);", "            dav1d_data_props_copy(&c->cached_error_props, &c->in.m);\n            dav1d_thread_picture_unref(out_delayed);")],
    needs="a frame that fails in a worker thread while later packets have been sent",
    breaks="the error is attributed to the packet being sent when the failure is noticed, not to the packet of the failed frame",
    streams={"a.ivf": f07}, runs=["t=3 d=3 f:a.ivf drain"])

def f08():
    q = Seq(w=128, h=64, idc=(0x301, 0x101)); o = TD
    def layer(sid, i, **k): return frame(q, tid=0, sid=sid, oh=i, seed=i * 7 + sid, tiles=(1, 0), n_bytes=2, **k)
    fr = bytearray(layer(1, 1, type=INTER, primary=0, refresh=2, refs=[1] * 7, data=[b"\x55" * 8] * 2))
    k = bytes(fr).rindex(b"\x07\x00"); fr[k] = 200
    return ivf([TD + q.obu() + layer(0, 0, type=KEY) + layer(1, 0, type=INTER, primary=0, refresh=2), TD + layer(0, 1, type=INTER, primary=0, refresh=1), bytes(fr)])
bug("b08", property="C15", edits=[("src/lib.c", "            dav1d_thread_picture_unref(out_delayed);\n            return error;", "            dav1d_thread_picture_unref(out_delayed);\n            if (output_picture_ready(c, 1))\n                return output_image(c, out);\n            return error;")],
    needs="a frame-threaded stream with spatial layers whose last frame is damaged while the layer below it is held back",
    breaks="when a failed frame is met while draining and a held-back layer can be returned, the picture is returned and the error is never reported",
    streams={"a.ivf": f08}, runs=["all=0 t=3 d=3 f:a.ivf drain"])

def f09():
    q = Seq(w=128, h=128, ref_mvs=1)
    tus = [TD + q.obu() + frame(q, seed=1)]
    for i in range(1, 4): tus.append(TD + frame(q, type=INTER, oh=i, primary=0, refresh=0xff & ~1, seed=i + 3, refs=(0, 1, 1, 2, 1, 1, 1), n=9000))
    tus.append(TD + frame(q, type=KEY, show=0, err=1, oh=9, refresh=1, seed=20, ref_oh=[0, 3, 3, 3, 3, 3, 3, 3]))
    tus.append(TD + frame(q, show_existing=0))
    for i in range(10, 14): tus.append(TD + frame(q, type=INTER, oh=i, primary=0, refresh=2, seed=i + 31, refs=(2, 3, 4, 5, 6, 7, 7), ref_mvs=1, n=9000))
    return ivf(tus)
bug("b09", property="C24", edits=[("src/obu.c", "                        dav1d_ref_inc(c->refs[r].segmap);\n                    dav1d_ref_dec(&c->refs[i].refmvs);", "                        dav1d_ref_inc(c->refs[r].segmap);")],
    needs="a hidden key frame shown later, and an inter frame after it that projects motion from the refreshed slots",
    breaks="the slots refreshed by a shown key frame keep the motion field of the frames they held before",
    streams={"a.ivf": f09}, runs=["f:a.ivf drain"])

def f10():
    q = Seq()
    return ivf([TD + q.obu() + frame(q, seed=1), TD + frame(q, type=INTRA, show=0, oh=1, err=0, primary=7, refresh=2, seed=2), TD + frame(q, type=INTER, show=0, oh=2, primary=0, refresh=4, seed=3), TD + frame(q, show_existing=1), TD + frame(q, show_existing=2), TD + frame(q, type=INTRA, oh=3, refresh=0, seed=5), TD + frame(q, type=INTER, oh=4, primary=0, refresh=0, seed=6)])
bug("b10", property="C18", edits=[("src/obu.c", "                if (c->decode_frame_type > DAV1D_DECODEFRAMETYPE_INTRA)\n                    goto skip;", "                if (c->decode_frame_type >= DAV1D_DECODEFRAMETYPE_INTRA)\n                    goto skip;")],
    needs="decode_frame_type=INTRA and a hidden intra frame that is shown later",
    breaks="an intra frame that is shown as an existing frame is dropped although intra frames were asked for",
    streams={"a.ivf": f10}, runs=["dft=%d f:a.ivf drain" % k for k in range(4)])

def f11():
    q = Seq(w=256, h=64)
    ok = frame(q, seed=1, tiles=(2, 0), split=True, n=500, n_bytes=2)
    b = frame_hdr(q, type=INTER, oh=1, primary=0, refresh=2, tiles=(2, 0), n_bytes=2)
    def tg(s, e):
        t = BW(); t.u(1, 1).u(b.log, s).u(b.log, e); return obu(4, t.bytes() + b"\x80" * 40)
    return ivf([TD + q.obu() + ok, TD + obu(3, b.trail().bytes()) + tg(0, 0) + tg(2, 2), TD + frame(q, type=INTER, oh=1, primary=0, refresh=2, seed=4, tiles=(2, 0), n=300, n_bytes=2)])
bug("b11", property="C01", edits=[("src/obu.c", "            for (int i = 0; i <= c->n_tile_data; i++)\n                dav1d_data_unref_internal", "            for (int i = 0; i < c->n_tile_data; i++)\n                dav1d_data_unref_internal")],
    needs="a frame whose tile groups arrive out of order",
    breaks="the packet reference taken for the offending tile group is left in an entry that is no longer counted and is overwritten by the next frame",
    streams={"a.ivf": f11}, runs=["f:a.ivf drain close counts", "t=2 d=2 f:a.ivf drain close counts"])

bug("b12", property="C10", edits=[("src/picture.c", "    if (res < 0) {\n        dav1d_mem_pool_push(c->pic_ctx_pool, buf);\n        return res;", "    if (res < 0) {\n        if (p->p.bpc == bpc && p->stride[0])\n            p_allocator->release_picture_callback(p, p_allocator->cookie);\n        dav1d_mem_pool_push(c->pic_ctx_pool, buf);\n        return res;")] if 0 else
    [("src/picture.c", "    pic_ctx->pic = *p;\n    p->ref = dav1d_ref_init(", "    pic_ctx->pic = *p;\n    if (c->n_fc > 1 && !extra_ptr) pic_ctx->allocator.cookie = c->allocator.allocator_cookie;\n    p->ref = dav1d_ref_init(")] if 0 else
    [("src/picture.c", "    const int res = p_allocator->alloc_picture_callback(p, p_allocator->cookie);\n    if (res < 0) {\n        dav1d_mem_pool_push(c->pic_ctx_pool, buf);\n        return res;\n    }\n\n    pic_ctx->allocator = *p_allocator;\n    pic_ctx->pic = *p;\n    p->ref = dav1d_ref_init(&pic_ctx->ref, buf, free_buffer, c->pic_ctx_pool, 0);\n",
      "    pic_ctx->allocator = *p_allocator;\n    p->ref = dav1d_ref_init(&pic_ctx->ref, buf, free_buffer, c->pic_ctx_pool, 0);\n    const int res = p_allocator->alloc_picture_callback(p, p_allocator->cookie);\n    pic_ctx->pic = *p;\n    if (res < 0) {\n        dav1d_ref_dec(&p->ref);\n        return res;\n    }\n")],
    needs="an application allocator that fails for one picture",
    breaks="when the allocation callback fails the release callback is called for the picture it did not provide",
    streams={"a.ivf": lambda: ivf(s_base(5))}, runs=["alloc=1 fail=2 f:a.ivf drain close counts", "alloc=1 t=2 d=2 fail=2 f:a.ivf drain close counts"])

def f13():
    q = Seq()
    return ivf([TD + q.obu() + cll(1, 2) + obu(5, leb(1) + b"\x03\xe8") + frame(q, seed=1), TD + frame(q, type=INTER, oh=1, primary=0, refresh=2, seed=3)])
bug("b13", property="C26", edits=[("src/obu.c", "                dav1d_ref_dec(&ref);\n                goto error;\n            }\n\n            dav1d_ref_dec(&c->content_light_ref);", "                dav1d_ref_dec(&ref);\n                if (c->strict_std_compliance || !gb.error) goto error;\n                break;\n            }\n\n            dav1d_ref_dec(&c->content_light_ref);")] if 0 else
    [("src/obu.c", "            if (check_trailing_bits(&gb, c->strict_std_compliance) < 0) {\n                dav1d_ref_dec(&ref);\n                goto error;\n            }\n\n            dav1d_ref_dec(&c->content_light_ref);", "            if (c->strict_std_compliance && check_trailing_bits(&gb, 1) < 0) {\n                dav1d_ref_dec(&ref);\n                goto error;\n            }\n\n            dav1d_ref_dec(&c->content_light_ref);")],
    needs="a content-light metadata unit that is cut short, without strict mode",
    breaks="a truncated content-light message takes effect with zeros for the missing bits",
    streams={"a.ivf": f13}, runs=["f:a.ivf drain", "strict=1 f:a.ivf drain"])

def f17():
    q = Seq(w=128, h=20, lr=1)
    return ivf([TD + q.obu() + frame(q, seed=i, lr_type=k, base_q=60) if i == 1 else TD + frame(q, type=KEY, seed=i, lr_type=k, base_q=60) for i, k in ((1, 1), (2, 2), (3, 3), (4, 1))])
bug("b14", property="C27", edits=[("src/decode.c", "if (y && y + half_unit > h) continue;", "if (y + half_unit > h) continue;")],
    needs="a frame with loop restoration that is lower than half a restoration unit",
    breaks="the restoration units of such a frame are never read, so its restoration filter and every later symbol change",
    streams={"a.ivf": f17}, runs=["f:a.ivf drain"])

def f18():
    q = Seq(w=512, h=512)
    return ivf([TD + q.obu() + frame(q, type=KEY, seed=31, base_q=160, n=16000), TD + frame(q, type=INTRA, oh=1, size=(500, 16), refresh=0xff & ~1, seed=3, n=16000), TD + frame(q, type=INTER, oh=2, err=1, ref_oh=[0] + [1] * 7, size=(500, 400), refs=(1,) * 7, refresh=2, seed=4, n=16000)])
bug("b15", property="C13", edits=[("src/decode.c", "                f->frame_hdr->height > c->refs[refidx].p.p.p.h * 16 ||", "                f->frame_hdr->height > c->refs[refidx].p.p.p.w * 16 ||")],
    needs="an inter frame more than sixteen times as high as a wide, flat reference frame",
    breaks="the upper bound of the vertical scaling is compared with the width of the reference, so references out of range are accepted",
    streams={"a.ivf": f18}, runs=["f:a.ivf drain"])

def f16():
    q = Seq()
    return ivf([TD + q.obu() + frame(q, seed=1), TD + frame(q, type=INTER, show=0, oh=1, primary=0, refresh=2, seed=2)])
bug("b16", property="C06", edits=[("src/lib.c", "        } else if (drained) {\n            pthread_mutex_unlock(&c->task_thread.lock);\n            break;\n        }", "        } else if (drained) {\n            break;\n        }")],
    needs="draining a frame-threaded decoder of which only some frame contexts hold a frame",
    breaks="the early exit of the drain loop leaves the scheduler lock held; the next call blocks for ever",
    streams={"a.ivf": f16}, runs=["t=4 d=4 f:a.ivf drain close counts"])

def f19():
    q = Seq(w=256, h=256)
    return ivf([TD + q.obu() + frame(q, seed=33, lf=(40, 40), sharp=5, base_q=160, n=16000)])
bug("b17", property="C09", edits=[("src/decode.c", "    if (f->frame_hdr->loopfilter.sharpness != f->lf.last_sharpness) {\n        dav1d_calc_eih(&f->lf.lim_lut, f->frame_hdr->loopfilter.sharpness);\n        f->lf.last_sharpness = f->frame_hdr->loopfilter.sharpness;", "    static int last_sharpness = -1;\n    if (f->frame_hdr->loopfilter.sharpness != last_sharpness) {\n        dav1d_calc_eih(&f->lf.lim_lut, f->frame_hdr->loopfilter.sharpness);\n        last_sharpness = f->frame_hdr->loopfilter.sharpness;")],
    needs="a second decoder instance (or frame context) in the same process with the same filter sharpness",
    breaks="the sharpness for which the filter limits were computed is remembered for the whole process; further instances filter with an empty table",
    streams={"a.ivf": f19}, runs=["f:a.ivf drain close f:a.ivf drain"])

def f20():
    q = Seq(w=128, h=128, film=1)
    def film(b, t):
        b.u(1, 1).u(16, 77)
        if t == INTER: b.u(1, 1)
        b.u(4, 15)
        for i in range(15): b.u(8, i * 16).u(8, 40)
        b.u(1, 0)                       # no scaling from luma
        b.u(4, 0).u(4, 0)
        b.u(2, 0).u(2, 0)
        for i in range(0): pass
        b.u(2, 0).u(2, 0).u(1, 0).u(1, 0)
    return ivf([TD + q.obu() + frame(q, seed=1, film=film)])
bug("b18", property="C11", edits=[("src/obu.c", "num_y_points > 14", "num_y_points > 15")],
    needs="a film grain header that announces fifteen luma scaling points",
    breaks="the check on the number of luma scaling points admits one more than the table holds",
    streams={"a.ivf": f20}, runs=["f:a.ivf drain", "grain=0 f:a.ivf drain"])

def f21(last, left):
    q = Seq(w=256, h=64); rnd = random.Random(5)
    o = frame(q, data=[bytes(rnd.randrange(256) for _ in range(200)) for _ in range(2)], type=KEY, tiles=(1, 0), n_bytes=2)
    import av1gen
    k = len(o) - 402            # the bytes of the tile group behind its header
    h = o[:k]
    # the unit again with only `left` bytes behind the headers
    p = 1
    while h[p] & 0x80: p += 1
    return ivf([TD + q.obu() + frame(q, seed=1, tiles=(1, 0), n_bytes=2), TD + (obu(6, h[p + 1:] + o[k:k + left]) if last else o)])
bug("b19", property="C12", edits=[("src/decode.c", "                if (f->frame_hdr->tiling.n_bytes > size) goto error;", "                if (!size) goto error;")],
    needs="a tile group that ends within the size field of a tile, at the very end of the packet",
    breaks="the bytes of the size field are fetched although fewer are left, so the decoder reads past the packet",
    streams={"a.ivf": lambda: f21(1, 1), "b.ivf": lambda: f21(0, 0), "c.ivf": lambda: f21(1, 0)}, runs=["guard=1 f:%s drain" % x for x in ("a.ivf", "b.ivf", "c.ivf")] + ["guard=1 t=2 d=2 f:a.ivf drain"])

bug("b20", property="C03", edits=[("src/lib.c", "        if (c->n_fc > 1) {\n            dav1d_free(f->tile_thread.lowest_pixel_mem);\n            dav1d_free(f->frame_thread.b);", "        if (c->n_fc > 1) {\n            dav1d_free(f->frame_thread.b);\n            if (!f->frame_thread.b) dav1d_free(f->tile_thread.lowest_pixel_mem);")] if 0 else
    [("src/lib.c", "            dav1d_free_aligned(f->frame_thread.pal_idx);\n", "            if (!f->frame_thread.pal)\n                dav1d_free_aligned(f->frame_thread.pal_idx);\n")],
    needs="closing a frame-threaded decoder after a frame that allows screen content tools",
    breaks="the palette index buffer of every frame context is leaked by dav1d_close",
    streams={"a.ivf": lambda: ivf([TD + (q := Seq()).obu() + frame(q, seed=1, sct=1)] + [TD + frame(q, type=KEY, seed=i, sct=1) for i in range(2, 9)])},
    runs=["t=4 d=4 " + "f:a.ivf drain close " * 2 + "live " + "f:a.ivf drain close live " * 2, "f:a.ivf drain close live f:a.ivf drain close live"])

def f22():
    q = Seq(hbd=2, profile=2, mono=1); r = Seq(hbd=1); 
    return ivf([TD + r.obu() + frame(r, seed=4), TD + q.obu() + frame(q, seed=1), TD + frame(q, type=INTER, oh=1, primary=0, refresh=2, seed=2)])
bug("b21", property="C21", edits=[("src/decode.c", "            dav1d_loop_filter_dsp_init_##bd##bpc(&dsp->lf); \\\n", "            if (bpc <= 10) dav1d_loop_filter_dsp_init_##bd##bpc(&dsp->lf); \\\n")],
    needs="a 12-bit stream with the deblocking filter on",
    breaks="the deblocking functions of 12-bit streams are never set up and a null pointer is called",
    streams={"a.ivf": lambda: ivf([TD + (q := Seq(hbd=2, profile=2, mono=1, w=128, h=128)).obu() + frame(q, seed=1, lf=(30, 30), base_q=200), TD + frame(q, type=INTER, oh=1, primary=0, refresh=2, seed=2, lf=(20, 20))]), "b.ivf": lambda: ivf([TD + (q := Seq(hbd=1, w=128, h=128)).obu() + frame(q, seed=1, lf=(30, 30), base_q=200)])}, runs=["f:a.ivf drain", "f:b.ivf drain"])

bug("b22", property="C14", edits=[("src/lib.c", "s->operating_point <= 31, DAV1D_ERR(EINVAL));", "s->operating_point <= 32, DAV1D_ERR(EINVAL));")],
    needs="an application that asks for the operating point one past the last one a sequence header can hold",
    breaks="dav1d_open accepts operating point 32",
    streams={"a.ivf": lambda: ivf(s_base(2))}, runs=["op=%d f:a.ivf drain" % k for k in (0, 31, 32, 33, -1)])

def f23():
    q = Seq(w=256, h=256); s = dict(size=(64, 64))
    return ivf([TD + q.obu() + frame(q, seed=1, lf=(30, 30), **s), TD + frame(q, type=KEY, seed=2, lf=(30, 30)), TD + frame(q, type=KEY, seed=3, lf=(30, 30), **s), TD + frame(q, type=INTER, oh=1, primary=0, refresh=2, seed=4, lf=(20, 20), **s, ref_oh=None)])
bug("b23", property="C04", edits=[("src/decode.c", "        if (!f->lf.mask || !f->lf.level) {\n            f->lf.mask_sz = 0;\n            goto error;", "        if (!f->lf.mask || !f->lf.level) {\n            goto error;")],
    needs="an allocation that fails when the frame size changes, followed by a frame of the former size",
    breaks="the remembered size of the deblocking masks survives a failed reallocation, and the next frame writes through the null pointer",
    streams={"a.ivf": f23}, runs=["oom=%d f:a.ivf drain" % k for k in range(0, 110)])

bug("b24", property="C25", edits=[("tools/dav1d.c", "    } while (data.sz > 0 || !input_read(in, &data));", "    } while (!input_read(in, &data));")],
    needs="a packet of which the decoder takes only a part because a picture has to be fetched first",
    breaks="the tool reads the next packet over the unconsumed rest, so frames are lost (and the rest leaks)",
    demo='''#!/bin/bash
# decodes a file with the command-line tool and counts the frames that are written
d=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
t=$(mktemp -d) || exit 99; trap 'rm -r -- "$t"' EXIT
for opt in "--threads 1" "--threads 2 --framedelay 2"; do
timeout 60 "$R/_build/tools/dav1d" -q -i "$d/a.ivf" --muxer yuv --strict 0 -o "$t/o.yuv" $opt || exit 1
[ "$(stat -c %s "$t/o.yuv")" = $((8 * 64 * 64 * 3 / 2)) ] || exit 1
done
exit 0
''', files={"a.ivf": lambda: ivf([TD + (q := Seq()).obu() + frame(q, seed=1) + frame(q, type=KEY, seed=2)] + [TD + frame(q, type=KEY, seed=2 * i) + frame(q, type=KEY, seed=2 * i + 1) for i in (2, 3, 4)])})

def f25():
    q = Seq(w=256, h=64); rnd = random.Random(5); n = 200
    o = bytearray(frame(q, data=[bytes(rnd.randrange(256) for _ in range(n)), b""], tiles=(1, 0), n_bytes=2, type=KEY, show=0, oh=1, refresh=2)); o[len(o) - n - 2] += 1
    return ivf([TD + q.obu() + frame(q, seed=1, tiles=(1, 0), n_bytes=2), TD + bytes(o), TD + frame(q, type=INTER, oh=2, primary=0, refs=(1,) * 7, refresh=4, seed=3, tiles=(1, 0), n_bytes=2)])
bug("b25", property="C08", edits=[("src/thread_task.c", "    atomic_store(&f->sr_cur.progress[0], FRAME_ERROR);\n    atomic_store(&f->sr_cur.progress[1], FRAME_ERROR);", "    atomic_store(&f->sr_cur.progress[1], FRAME_ERROR);")],
    needs="frame threading, a frame that fails before its tiles start, and a later frame predicted from it",
    breaks="the block data progress of the failed frame is never published; frames that refer to it wait for ever",
    streams={"a.ivf": f25}, runs=["t=2 d=2 f:a.ivf drain close counts", "t=4 d=3 f:a.ivf drain close counts"])

def f26():
    q = Seq(w=2048, h=2048); rnd = random.Random(5); n = 200
    o = bytearray(frame(q, data=[bytes(rnd.randrange(256) for _ in range(n)), b""], tiles=(1, 0), n_bytes=2, type=KEY)); o[len(o) - n - 2] += 1
    return ivf([TD + q.obu() + bytes(o)])
bug("b26", property="C07", edits=[("src/thread_task.c", "    dav1d_decode_frame_exit(f, error);\n    f->n_tile_data = 0;\n    pthread_cond_signal(&f->task_thread.cond);\n}", "    dav1d_decode_frame_exit(f, error);\n    f->n_tile_data = 0;\n}")],
    needs="frame threading and a frame that fails before its tiles start while the application already waits for it",
    breaks="the thread that waits for the frame context is not woken and the call never returns",
    streams={"a.ivf": f26}, runs=["!T=20", "!for i in $(seq 10); do run t=2 d=2 f:a.ivf drain close counts; [ $r = 0 ] || break; run t=4 d=3 f:a.ivf drain close counts; [ $r = 0 ] || break; done"])

bug("b27", property="C22", edits=[("src/x86/cpu.c", "if (X(xcr0, 0x00000006)) /* XMM/YMM */ {", "if (X(xcr0, 0x00000002)) /* XMM */ {")],
    needs="a processor with AVX2 under a system that does not save the upper halves of the vector registers",
    breaks="AVX2 kernels are used although the operating system does not preserve their registers",
    demo="""#!/bin/bash
# runs the CPU detection against an emulated processor: AVX2 present, the YMM state not enabled by the system
d=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
t=$(mktemp -d) || exit 99; trap 'rm -r -- "$t"' EXIT
gcc -w -O1 -DNDEBUG -I"$R" -I"$R/_build" -I"$R/_build/include" -I"$R/include" -I"$R/_build/include/dav1d" -I"$R/include/compat/gcc" "$d/emul.c" "$R/src/cpu.c" "$R/src/x86/cpu.c" -o "$t/emul" -lpthread || exit 99
"$t/emul"
""", files={"emul.c": r'''// an emulated processor with every feature bit set; the argument of each case is what the system enabled (XCR0)
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include "src/cpu.h"
#include "src/x86/cpu.h"
typedef struct { uint32_t eax, ebx, edx, ecx; } Regs;
static uint64_t xcr0;
void dav1d_cpu_cpuid(Regs *r, unsigned leaf, unsigned sub) {
    if (leaf == 0) { memset(r, 0, sizeof *r); r->eax = 7; }
    else if (leaf == 1) { r->eax = 0x000906ea; r->ebx = 0; r->edx = ~0u; r->ecx = ~0u; }
    else { r->eax = 0; r->ebx = r->ecx = r->edx = ~0u; }
}
uint64_t dav1d_cpu_xgetbv(unsigned x) { return xcr0; }
void dav1d_log(void *c, const char *f, ...) {}
unsigned dav1d_get_cpu_flags_x86(void);
int main(void) {
    static const struct { uint64_t x; int avx2, avx512; } C[] = { { 0x2, 0, 0 }, { 0x0, 0, 0 }, { 0x4, 0, 0 }, { 0x6, 1, 0 }, { 0xe6, 1, 1 }, { 0xe2, 0, 0 }, { 0x26, 1, 0 } };
    for (unsigned k = 0; k < sizeof C / sizeof *C; k++) {
        xcr0 = C[k].x;
        unsigned f = dav1d_get_cpu_flags_x86();
        if (!!(f & DAV1D_X86_CPU_FLAG_AVX2) != C[k].avx2 || !!(f & DAV1D_X86_CPU_FLAG_AVX512ICL) != C[k].avx512) { printf("XCR0 %llx: flags %x\n", (unsigned long long)xcr0, f); return 1; }
    }
    return 0;
}
'''})
