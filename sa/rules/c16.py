"""C16: a decoding error identifies the packet that caused it."""
from decworld import *
from scan import addr_class

def props(rw, w, mem, obj, path, idx=0):
    """every member of the packet properties held there"""
    base = rw.at(obj, path, idx)[2]
    return tuple((p, w.read(mem, O(obj, base + o), "ptr" if k in ("ref", "ptr") else k)) for o, k, p in rw.leaves("Dav1dDataProps"))

def diff(a, b): return ", ".join(x[0] for x, y in zip(a, b) if x[1] != y[1])

def run(ctx):
    ctx.rule = ("Frame submission, OBU parsing, drain and the picture calls are evaluated by constant and symbolic-cell propagation (no execution) from states in which the packet being parsed, the packet of the frame being submitted, every delayed picture and the previously "
                "recorded error each carry distinct properties, with every fallible step failing in turn.  Whenever a path ends with an error, or with an error remembered for the next call, the recorded properties must be those of the packet to which the failing step belongs; "
                "nothing on the way to the application may replace them, and the query hands them out once and resets them.  The chain by which a frame-threaded frame keeps the properties of its packet (packet, tile data, picture, delayed picture) is checked link by link.")
    ctx.assumptions += ["a failure of film-grain synthesis on an output picture is not a decoding error of a packet and is not covered"]
    P = obu_program(ctx); L = Lay(P)
    def work(c):
        rw = c.rw
        w, f, res = c.run()
        where = "%s:%d" % (f.file, f.line)
        def bad(m, kind="props"): ctx.violation(where, "%s: %s [%s]" % (c.fn, m, c.cfg), c.fn, kind)
        E = lambda mem: props(rw, w, mem, "c", "cached_error_props")
        if c.kind in ("submit", "obu") or c.fn == "dav1d_get_picture": before = E(Mem())
        for ev, rv, mem in res:
            why = rw.failed(ev)
            neg = isinstance(rv, int) and rv < 0
            if c.kind == "submit" or c.kind == "obu":
                want = props(rw, w, Mem(), "c", "in.m")
                got = E(mem)
                old = any(e[0] == "load" and "retval" in (addr_class(e[1].fn, e[1].a[0])[0] or "") and e[3] == -22 for e in ev)      # the delayed frame turned out to have failed
                ctx.count("paths_judged")
                if neg and any(e[0] == "alt" and e[3] == "the frame fails" for e in ev):      # submission records it itself
                    if got not in (before, want): bad("a failed submission is reported with properties (%s) that are neither what the submission recorded nor the current packet's" % diff(got, want))
                elif neg:
                    ctx.count("errors_identified")
                    if got != want: bad("%s: the error is reported without the %s of the packet being decoded" % (why[-1] if why else "an invalid OBU", diff(got, want)))
                    if old: ctx.violation(where, "%s: when a delayed frame turns out to have failed and the current packet fails as well, the properties of the delayed frame's packet are lost" % c.fn, c.fn, "two")
                elif old:
                    ctx.count("errors_identified")
                    wd = props(rw, w, Mem(), "od", "p.m")
                    if got != wd: bad("the error of a delayed frame is remembered without the %s of its packet" % diff(got, wd))
                elif got != before: bad("the recorded properties of the last error change although nothing failed")
                # the chain
                if c.kind == "submit":
                    td = props(rw, w, Mem(), "tile", "data.m")
                    for n, e in enumerate(ev):
                        if e[0] == "snap":
                            ctx.count("links_checked")
                    if c.info["nfc"] > 1 and any(e[0] == "queued" for e in ev) and not neg:
                        d = props(rw, w, mem, "od", "p.m")
                        if d != td: bad("the delayed picture does not carry the %s of the packet its frame came from" % diff(d, td))
                        ctx.count("links_checked")
                elif not neg and c.info.get("obu") in (4, 6) and not any(e[0] == "submit" for e in ev):
                    n = rw.get(w, mem, "c", "n_tile_data"); t = rw.get(w, mem, "c", "tile"); p0 = c.info.get("tiles_pending") or 0
                    for k in range(n if isinstance(n, int) and n <= 8 else 0):
                        if k < p0: continue
                        b = t[2] + k * L.size("Dav1dTileGroup") + L.off("Dav1dTileGroup", "data.m")
                        d = tuple((p, w.read(mem, ("ptr", t[1], b + o), "ptr" if kd in ("ref", "ptr") else kd)) for o, kd, p in rw.leaves("Dav1dDataProps"))
                        ctx.count("links_checked")
                        if d != want: bad("tile data is kept without the %s of its packet" % diff(d, want))
                elif not neg and c.info.get("show") is not None and c.info["nfc"] > 1 and any(e[0] == "store" and e[2] == rw.at("c", "frame_thread.next") for e in ev):
                    d = props(rw, w, mem, "od", "p.m")
                    if rw.get(w, mem, "od", "p.data[0]") == O("slot3>p.data[0]") or rw.get(w, mem, "od", "p.ref") == O("slot3:p.ref"):
                        ctx.count("links_checked")
                        if d != want: bad("the delayed picture of a shown frame does not carry the %s of the packet that shows it" % diff(d, want))
            elif c.fn in ("dav1d_get_picture", "dav1d_send_data"):
                got = E(mem); b4 = E(Mem())
                parsed = [e for e in ev if e[0] == "alt" and e[3] == "the packet cannot be decoded"]
                drained = [e for e in ev if e[0] == "load" and "retval" in (addr_class(e[1].fn, e[1].a[0])[0] or "") and e[3] == -22]
                ctx.count("paths_judged")
                if parsed: want = tuple((p, 9991 + ("timestamp", "duration", "offset", "size").index(p) if p in ("timestamp", "duration", "offset", "size") else dict(b4)[p]) for p, _ in b4)
                elif drained:
                    idx = drained[-1][2][2] // L.size("Dav1dFrameContext") if w.ptr(drained[-1][2]) and drained[-1][2][2] is not None else 0
                    want = props(rw, w, Mem(), "od", "p.m", idx)
                else: want = b4
                if parsed or drained: ctx.count("errors_identified")
                if got != want: bad("%s" % ("the properties recorded for a packet that cannot be decoded are replaced before the application can ask" if parsed else
                                        "the error of a drained frame is reported without the %s of its packet" % diff(got, want) if drained else "the recorded properties of the last error change although nothing failed"))
            elif c.fn == "dav1d_get_decode_error_data_props":
                ctx.count("paths_judged")
                if neg: continue
                a = props(rw, w, mem, "props", "timestamp"); b = E(Mem())
                if a != b: bad("the query does not hand out the recorded properties (%s)" % diff(a, b), "query")
                d = dict(E(mem))
                none = {"timestamp": (-(1 << 63), 1 << 63), "offset": (-1, (1 << 64) - 1)}
                for p, v in d.items():
                    ok = v in none.get(p, (0,))
                    if not ok: bad("the query leaves %s recorded" % p, "query")
    parallel(ctx, lambda: all_cases(ctx, P, L), work)
