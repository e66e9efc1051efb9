"""C26: a truncated or overlong header never takes effect."""
from decworld import *
from engine import *
from effects import Effects
from scan import addr_class, const_int

def readers(P):
    """functions that may put a bit reader into its error state: they store to GetBits.error or call one that does, and take the reader as an argument"""
    direct = set(); graph = {}
    for f in P.functions():
        for i in f.all_insts():
            if i.op == "store" and addr_class(f, i.a[1])[0] == "GetBits.error" and const_int(i.a[0]) != 0: direct.add(f.name)
        graph[f.name] = {i.callee for i in f.calls() if i.callee}
    out = set(direct)
    ch = True
    while ch:
        ch = False
        for n, cs in graph.items():
            if n not in out and cs & out: out.add(n); ch = True
    return direct, out

class Tested(Rule):
    """reads / tests of the reader's error state on every path to a successful return"""
    def __init__(self, E, rd): self.modsets = E; self.rd = rd; self.reads = 0; self.rets = 0; self.open = []
    def start(self, st): st.r["d"] = None
    def known0(self, st):
        R = self.eng
        return any(R.cls(l) == "GetBits.error" and R.rng(st, t) == (0, 0) for l, t in st.mem.items())
    def key(self, st, b): return (st.r["d"] is not None, self.known0(st))
    def on_call(self, st, inst, name, args):
        if name in self.rd: st.r = dict(st.r); st.r["d"] = inst.id; self.reads += 1
        return None
    def on_ret(self, st, inst, v):
        self.rets += 1
        R = self.eng
        if v is None or st.r["d"] is None: return
        if R.rng(st, v)[1] < 0: return
        if not self.known0(st):
            i = R.fn.insts.get(st.r["d"])
            self.open.append(i.where() if i is not None else "?")

def tested(ctx, P, E, f, rd):
    """(True, []) when the function succeeds only after it has tested the error state after its last read"""
    r = Tested(E, rd); e = Engine(P, f, r); e.run()
    ctx.count("parsers_followed"); ctx.count("reads_followed", r.reads); ctx.count("block_visits", e.steps)
    return not r.open, r.open

def truncation(ctx, P, L, inner):
    def parser(full):
        """model of a header parser: takes the bits; running out is either reported by itself or left to the caller"""
        def sub(name, hdr, nbits):
            def m(rw, w, i, av, mem, ev):
                gb = av[1]
                ev.append(("parse", i))
                if name == "parse_frame_hdr":
                    h = w.read(mem, rw.at("c", "frame_hdr"), "ptr")
                    if w.ptr(h):
                        for k, v in hdr.items(): mem.store(("ptr", h[1], h[2] + L.off("Dav1dFrameHeader", k)), v)
                else: mem.fill(av[0], L.size("Dav1dSequenceHeader"), "?")
                for k in range(nbits): rw.bits.take(w, gb, 1, mem)
                over = w.read(mem, rw.bits.at(gb, "err"), "i32") == 1
                if over: return -22 if inner[name] else 0
                return 0
            return m
        return sub
    sub = parser(None)
    FH = {"frame_type": 0, "tiling.cols": 1, "tiling.rows": 1, "width[1]": 64, "width[0]": 64, "height": 64, "refresh_frame_flags": 255}
    def world(typ, payload, hdr=FH, nbits=10, strict=0, **kw):
        rw = obu_world(ctx, P, L, 1, typ, payload=payload, hdr={}, **kw)
        rw.models["parse_frame_hdr"] = sub("parse_frame_hdr", hdr, nbits); rw.models["parse_seq_hdr"] = sub("parse_seq_hdr", {}, nbits)
        rw.fail = False
        rw.set("c", "strict_std_compliance", strict)
        return rw
    def state(rw, w, mem):
        return {m: rw.get(w, mem, "c", m) for m in ("seq_hdr", "seq_hdr_ref", "content_light", "content_light_ref", "mastering_display", "mastering_display_ref", "n_itut_t35", "n_tile_data", "n_tiles", "operating_point_idc", "max_spatial_id", "frame_flags")}
    LAB = {"seq_hdr": "sequence header", "seq_hdr_ref": "sequence header", "content_light": "content light metadata", "content_light_ref": "content light metadata", "mastering_display": "mastering display metadata", "mastering_display_ref": "mastering display metadata",
           "n_itut_t35": "T.35 metadata", "n_tile_data": "tile data", "n_tiles": "tile count", "operating_point_idc": "operating point", "max_spatial_id": "spatial layer", "frame_flags": "event flags"}
    def judge(rw, what, reject, quiet=False):
        """reject: the OBU must have no effect and (unless quiet) the call must fail"""
        w, f, res = parse(rw)
        where = "%s:%d" % (f.file, f.line)
        ctx.count("truncations" if reject else "complete_headers")
        ok = 0
        for ev, rv, mem in res:
            ctx.count("paths_judged")
            neg = isinstance(rv, int) and rv < 0
            a, b = state(rw, w, mem), state(rw, w, Mem())
            if not reject:
                ok += not neg
                continue
            ch = [LAB[k] for k in a if a[k] != b[k]]
            if any(e[0] == "submit" for e in ev): ch.append("frame")
            fh = rw.get(w, mem, "c", "frame_hdr")
            parsed = any(e[0] == "parse" for e in ev)
            if parsed and fh != 0 and "sequence" not in what and "tile" not in what: ch.append("frame header")
            if ch: ctx.violation(where, "%s takes effect: %s" % (what, ", ".join(sorted(set(ch)))), f.name, "effect")
            elif not neg and not quiet: ctx.violation(where, "%s is accepted" % what, f.name, "accepted")
        if not reject and not ok: ctx.violation(where, "%s is never accepted" % what, f.name, "rejects")
    U = (None,)
    for strict in (0, 1):
        for n in range(4):      # ten bits of header and the trailing bit need two bytes
            for typ, nm in ((1, "sequence header"), (3, "frame header")):
                if n == 0 and typ == 1 and False: continue
                bits = 10
                pl = (0x00, 0x20, 0, 0)[:n]
                if n == 1 or n == 0: judge(world(typ, pl, strict=strict), "a truncated %s" % nm, True)
                elif typ == 3 or inner["parse_seq_hdr"]: judge(world(typ, pl, strict=strict), "a complete %s" % nm, False)
        if strict:
            judge(world(3, (0, 0x00, 0), strict=1), "a frame header without trailing bit (strict mode)", True)
            judge(world(3, (0, 0x21, 0), strict=1), "a frame header with bits after the trailing bit (strict mode)", True)
            judge(world(3, (0, 0x20, 1), strict=1), "a frame header with bytes after the trailing bit (strict mode)", True)
            judge(world(5, (1, 1, 2, 3, 4, 0x81), strict=1), "content light metadata with bits after the trailing bit (strict mode)", True)
            judge(world(5, (1, 1, 2, 3, 4, 0x80, 7), strict=1), "content light metadata with bytes after the trailing bit (strict mode)", True)
            judge(world(3, (0, 0x20, 0, 1), strict=1), "a frame header with bytes after the trailing bit (strict mode)", True)
            judge(world(5, (1, 1, 2, 3, 4, 0x80, 0, 7), strict=1), "content light metadata with bytes after the trailing bit (strict mode)", True)
        # exactly as long as the header: the trailing bit is missing
        judge(world(3, (0,), nbits=8, strict=strict), "a frame header that ends before its trailing bit", True)
        for n in range(0, 2): judge(world(6, (0, 0)[:n], strict=strict), "a frame whose header is truncated", True)
        judge(world(6, (0, 0, 1, 2, 3), strict=strict), "a complete frame", False)
        for typ, head, need, nm in ((5, 1, 4, "content light metadata"), (5, 2, 24, "mastering display metadata")):
            for n in range(need + 1): judge(world(5, (head,) + (1,) * n, strict=strict), "truncated " + nm, True)
            judge(world(5, (head,) + (1,) * need + (0x80,), strict=strict), "complete " + nm, False)
        # T.35: malformed payloads are dropped, never kept
        for pl in ((4,), (4, 0xb5), (4, 0xb5, 0x80), (4, 0xff), (4, 0xff, 1), (4, 0xff, 1, 0x80), (4, 0xb5, 1), (4, 0xb5, 1, 0, 0), (4, 0xb5, 0, 0), (4, 0, 0, 0)):
            judge(world(5, pl, strict=strict), "malformed T.35 metadata", True, quiet=True)
        judge(world(5, (4, 0xb5, 1, 2, 0x80, 0), strict=strict), "complete T.35 metadata", False)
        judge(world(5, (), strict=strict), "metadata without a type", True)
        judge(world(5, (0x81,), strict=strict), "metadata with a truncated type", True)
    # tile groups: one flag and two numbers of two bits, then alignment
    G = {"frame_type": 1, "tiling.cols": 4, "tiling.rows": 4, "tiling.log2_cols": 2, "tiling.log2_rows": 2, "refresh_frame_flags": 3}
    judge(world(4, (), fhdr=G), "a truncated tile group header", True)
    judge(world(4, (0x80,), fhdr=G), "a truncated tile group header", True)
    judge(world(4, (0x80, 0x80, 1), fhdr=G), "a complete tile group header", False)
    judge(world(4, (0x00, 1), fhdr=G), "a complete tile group header", False)
    judge(world(4, (0xc0, 0x40, 1), fhdr=G), "a tile group that ends before it starts", True)
    judge(world(4, (0x88, 0x80, 1), fhdr=G), "a tile group that does not continue the previous one", True)
    # the OBU header itself
    for data, nm in (({0: 1 << 3 | 2}, 1), ({0: 1 << 3 | 4 | 2, 1: 0}, 2), ({0: 1 << 3 | 4}, 1), ({0: 3 << 3 | 2, 1: 0x80}, 2), ({0: 6 << 3 | 2, 1: 0xff, 2: 0xff}, 3), ({0: 2 << 3 | 4}, 1), ({0: 2 << 3 | 2}, 1)):
        rw = world(data[0] >> 3 & 15, ())
        rw.data.clear(); rw.data.update(data); rw.set("c", "in.sz", nm)
        judge(rw, "an OBU whose header is truncated", True)
    for typ in (1, 3, 4, 5, 6):
        rw = world(typ, (1,) * 4, size=90)
        judge(rw, "an OBU that claims to be longer than the packet", True)

def sequence_query(ctx, P, L, inner):
    """dav1d_parse_sequence_header"""
    f = P.fn("dav1d_parse_sequence_header"); ctx.require(f is not None, "dav1d_parse_sequence_header is gone")
    where = "%s:%d" % (f.file, f.line)
    def go(obus, nbits, what, reject):
        data = {}; n = 0
        for typ, size, pl in obus:
            data[n] = typ << 3 | (2 if size is not None else 0); n += 1
            if size is not None: data[n] = size; n += 1
            for b in pl: data[n] = b; n += 1
        rw = RW(ctx, P, L)
        rw.objs("seqout", "Dav1dSequenceHeader", 1)
        rw.bits = Bits(rw, data); rw.models.update(rw.bits.models())
        def m(rw, w, i, av, mem, ev):
            ev.append(("parse", i))
            for k in range(nbits): rw.bits.take(w, av[1], 1, mem)
            if w.read(mem, rw.bits.at(av[1], "err"), "i32") == 1 and inner["parse_seq_hdr"]: return -22
            return 0
        rw.models["parse_seq_hdr"] = m
        old = rw.init
        rw.init = lambda inst, a, ty: (data.get(a[2], UNK) if ty == "i8" else UNK) if a[1] == ("obj", "data") else old(inst, a, ty)
        w, f2, res = rw.run(f, {0: O("seqout"), 1: O("data"), 2: n})
        ctx.count("truncations" if reject else "complete_headers")
        for ev, rv, mem in res:
            ctx.count("paths_judged")
            neg = isinstance(rv, int) and rv < 0
            if reject and not neg: ctx.violation(where, "dav1d_parse_sequence_header accepts %s" % what, f.name, "accepted")
            if not reject and rv != 0: ctx.violation(where, "dav1d_parse_sequence_header rejects %s" % what, f.name, "rejects")
    go([(1, 3, (0, 0, 0x80))], 17, "a complete sequence header", False)
    go([(1, None, (0, 0, 0x80))], 17, "a complete sequence header without length", False)
    go([(2, 0, ()), (1, 3, (0, 0, 0x80)), (3, 2, (1, 2))], 17, "a sequence header between other OBUs", False)
    for n in (16, 24): go([(1, 1, (0,)), (3, 4, (1, 2, 3, 4))], n, "a sequence header that runs past its OBU", True)
    go([(1, 1, (0,))], 17, "a truncated sequence header", True)
    go([(1, 9, (0, 0))], 8, "an OBU that claims to be longer than the buffer", True)
    go([(2, 0, ())], 8, "a buffer without a sequence header", True)
    go([(1, 3, (0, 0, 0x80)), (3, 7, (1,))], 17, "a following OBU that claims to be longer than the buffer", True)

def run(ctx):
    ctx.rule = ("(1) The reader's error state is only ever set, never cleared, by anything but initialisation of a reader. (2) A path-sensitive analysis of the header parsers decides for each whether it can succeed without having tested that state after its last read; those that can leave the test to their callers. "
                "(3) OBU parsing and dav1d_parse_sequence_header are evaluated by constant and symbolic-cell propagation (no execution) with headers that end at every byte position, in strict and normal mode: a header whose reader ran past its end (or past its OBU), or that is followed by stray bits in strict mode, must be rejected without any effect on the decoder's state, and a complete one accepted.")
    ctx.assumptions += ["the readers set the error state whenever they run past the end (C12)"]
    P = obu_program(ctx); L = Lay(P); E = Effects(P)
    direct, rd = readers(P)
    ctx.require(len(direct) >= 2, "no bit reader sets GetBits.error")
    ctx.setc("bit_readers", sorted(direct))
    n = 0
    for f in P.functions():
        for i in f.all_insts():
            if i.op != "store": continue
            if addr_class(f, i.a[1])[0] != "GetBits.error": continue
            n += 1; ctx.count("error_state_stores")
            if const_int(i.a[0]) == 0:
                # only where the reader is set up
                if not any(j.op == "store" and addr_class(f, j.a[1])[0] == "GetBits.ptr_start" for j in f.all_insts()):
                    ctx.violation(i.where(), "the error state of a bit reader is cleared outside its initialisation", f.name, "cleared")
    ctx.require(n >= 3, "GetBits.error is hardly ever set")
    inner = {}
    for nm in SUBPARSERS:
        f = P.fn(nm)
        ctx.require(f is not None, "%s is gone" % nm)
        ok, op = tested(ctx, P, E, f, rd)
        inner[nm] = ok
        ctx.sample("%s: %s" % (nm, "tests the error state after its last read on every successful path" if ok else "leaves the test to its callers"))
    ctx.setc("parsers_that_test_for_overrun_themselves", sorted(k for k in inner if inner[k]))
    truncation(ctx, P, L, inner)
    sequence_query(ctx, P, L, inner)
