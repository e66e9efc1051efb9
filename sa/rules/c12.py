"""C12: bitstream readers never read past the end of the packet."""
from decworld import *
from rules.c14 import sgn

def where(f): return "%s:%d" % (f.file, f.line)

def judge_reads(ctx, w, ev, buf, lo, hi, bad):
    """every byte fetched from the buffer lies in [lo, hi)"""
    n = 0
    for e in ev:
        if e[0] in ("load",): a, sz = e[2], (int(e[1].ty[1:]) + 7) // 8 if e[1].ty[:1] == "i" and e[1].ty[1:].isdigit() else 8
        elif e[0] == "copy": a, sz = e[3], e[4]
        else: continue
        if not w.ptr(a) or a[1] != ("obj", buf): continue
        n += 1
        if a[2] is None or not isinstance(sz, int):
            bad(e[1], "a byte is fetched from a position that no check bounds"); break
        if sz == 0: continue
        if a[2] < lo or a[2] + sz > hi: bad(e[1], "a byte is fetched %s" % ("past the end" if a[2] + sz > hi else "before the start")); break
    ctx.count("fetches_judged", n)
    return n

# --- the header bit reader
class Reader:
    def __init__(self, ctx, P, L):
        self.ctx, self.P, self.L = ctx, P, L
        self.o = {m: L.off("GetBits", m) for m in ("ptr", "ptr_start", "ptr_end", "bits_left", "error", "state")}
        ctx.require(None not in self.o.values(), "GetBits has changed")
    def world(self, left, rem, err, start=3):
        rw = api_world(self.ctx, self.P, self.L); rw.fail = False; rw.max_paths = 2048
        rw.objs("gb", "GetBits", 1)
        rw.set("gb", "ptr", O("data", start)); rw.set("gb", "ptr_start", O("data", 0)); rw.set("gb", "ptr_end", O("data", start + rem)); rw.set("gb", "bits_left", left); rw.set("gb", "error", err)
        old = rw.init
        def init(inst, a, ty):
            if a[1] == ("obj", "data"): return UNK
            if a[1] == ("obj", "gb") and a[2] == self.o["state"]: return UNK
            return old(inst, a, ty)
        rw.init = init
        return rw
    def states(self):
        for left in range(8):
            for rem in (0, 1, 2, 3, 4, 5, 9): yield left, rem, 0
            yield left, 0, 1
        for left in (-1, -2, -7, -8, -31, -32, -33, -1000, -2 ** 30): yield left, 0, 1
    def run(self, fn, extra, bits=None):
        """bits: number of bits the call takes when they are there, None when it depends on them"""
        ctx = self.ctx
        f = self.P.fn(fn)
        for left, rem, err in self.states():
            rw = self.world(left, rem, err)
            w, f, res = rw.run(fn, {0: O("gb"), **extra})
            end = 3 + rem
            what = "%s%s with %d bits and %d bytes left%s" % (fn, "(%s)" % ", ".join(str(x) for x in extra.values()) if extra else "", left, rem, " in the error state" if err else "")
            ctx.count("reader_states")
            first = []
            def bad(i, m):
                if not first: first.append(1); ctx.violation(i.where() if i is not None else where(f), "%s: %s" % (what, m), fn, "read" if "fetched" in m else "state")
            if not res: bad(None, "every path runs into undefined behaviour")
            for ev, rv, mem in res:
                ctx.count("paths_judged")
                judge_reads(ctx, w, ev, "data", 3, end, bad)
                p = rw.get(w, mem, "gb", "ptr"); e = rw.get(w, mem, "gb", "error"); b = rw.get(w, mem, "gb", "bits_left")
                if rw.get(w, mem, "gb", "ptr_end") != O("data", end): bad(None, "the end of the packet is moved"); continue
                if not w.ptr(p) or p[2] is None or p[2] > end: bad(None, "the read position passes the end of the packet"); continue
                if not isinstance(b, int) or not isinstance(e, int): bad(None, "the state of the reader afterwards is not known"); continue
                b = sgn(b)
                avail = left + 8 * rem
                over = bits is not None and not err and bits > avail
                if err and not e: bad(None, "the error state is left")
                if over and not e: bad(None, "running out of data is not recorded as an error")
                if bits is not None and not err and bits <= avail:
                    if e: bad(None, "an error is recorded although there are enough bits")
                    elif (end - p[2]) * 8 + b != avail - bits: bad(None, "it does not take exactly %d bits" % bits)
                if bits is None and not err and not e and (end - p[2]) * 8 + b > avail: bad(None, "it goes backwards")
                if not e and not 0 <= b <= 7: bad(None, "%d bits are left over, more than a byte" % b if b > 7 else "more bits are taken than there are, without an error")
                if e and (b > 7 or p[2] != end) and over: bad(None, "the reader can go on after the end of the packet")

def readers(ctx, P, L):
    R = Reader(ctx, P, L)
    jobs = [lambda: R.run("dav1d_get_bit", {}, 1)]
    for n in range(1, 33): jobs.append(lambda n=n: (R.run("dav1d_get_bits", {1: n}, n), R.run("dav1d_get_sbits", {1: n}, n)))
    jobs.append(lambda: R.run("dav1d_get_uleb128", {}))
    jobs.append(lambda: R.run("dav1d_get_vlc", {}))
    for m in (2, 3, 4, 5, 8, 9, 16, 63, 64, 65, 255, 4096, 65535): jobs.append(lambda m=m: R.run("dav1d_get_uniform", {1: m}))
    for ref, n in ((0, 11), (1 << 10, 11), (-5, 12), (100, 12)): jobs.append(lambda ref=ref, n=n: R.run("dav1d_get_bits_subexp", {1: ref, 2: n}))
    def init():
        for sz in (1, 2, 100, 2 ** 32, 2 ** 63 - 1):
            rw = R.world(5, 3, 1)
            w, f, res = rw.run("dav1d_init_get_bits", {0: O("gb"), 1: O("data", 7), 2: sz})
            for ev, rv, mem in res:
                ctx.count("paths_judged")
                g = {m: rw.get(w, mem, "gb", m) for m in R.o}
                if (g["ptr"], g["ptr_start"], g["ptr_end"], g["error"], g["bits_left"]) != (O("data", 7), O("data", 7), O("data", 7 + sz), 0, 0): ctx.violation(where(f), "a bit reader does not start with exactly the bytes of its packet", f.name, "init")
    jobs.append(init)
    return jobs

# --- OBUs
SIZES = {1: (0, 1, 2, 5), 3: (0, 1, 2, 3), 4: (0, 1, 2, 3), 5: (0, 1, 2, 3, 4, 5, 6, 9, 26, 27), 6: (0, 1, 2, 3, 5), 7: (0, 2), 8: (0, 3), 2: (0, 1), 0: (0, 1), 15: (0, 4)}
FH = {"frame_type": 0, "tiling.cols": 2, "tiling.rows": 2, "tiling.log2_cols": 1, "tiling.log2_rows": 1, "width[1]": 64, "width[0]": 64, "height": 64, "refresh_frame_flags": 255}

def obus(ctx, P, L):
    jobs = []
    def one(typ, n, first, ext, length, claim, cut, strict, extra=0):
        """n payload bytes of which the first are known; claim: the length field says so many; cut: the packet holds fewer bytes than the header asks for; extra: bytes of the next OBU behind"""
        pl = tuple(first[k] if k < len(first) else None for k in range(n)) + (None,) * extra
        if not length and not pl and typ is None: return
        rw = obu_world(ctx, P, L, 1, typ, payload=pl, ext=0 if ext else None, length=length, size=(n if claim is None else claim) if length else None, hdr=dict(FH), fhdr=dict(FH) if typ == 4 else None, hdr_bits=11)
        rw.fail = False; rw.max_paths = 20000; rw.set("c", "strict_std_compliance", strict)
        tot = rw.n_data
        if cut is not None:
            tot = cut; rw.set("c", "in.sz", tot)
            for k in list(rw.data):
                if k >= tot: del rw.data[k]
        rw.set("c", "n_tile_data", 0); rw.set("c", "n_tiles", 0)
        w, f, res = parse(rw)
        head = 1 + (1 if ext else 0) + (1 if length else 0)
        end = min(tot, head + (n if claim is None else claim)) if length else tot
        what = "an OBU of type %d%s with %d bytes%s%s%s" % (typ, " (metadata %d)" % first[0] if typ == 5 and first else "", n, ", announced as %d" % claim if claim is not None else "", ", in a packet of %d bytes" % cut if cut is not None else "", ", followed by others" if extra else "")
        ctx.count("obus_judged")
        first_bad = []
        def bad(i, m):
            if not first_bad: first_bad.append(1); ctx.violation(i.where() if i is not None else where(f), "%s: %s" % (what, m), f.name, "read")
        for ev, rv, mem in res:
            ctx.count("paths_judged")
            judge_reads(ctx, w, ev, "data", 0, end, bad)
            rv = sgn(rv) if isinstance(rv, int) else rv
            if not isinstance(rv, int): bad(None, "the number of bytes consumed is not known"); continue
            if rv >= 0 and not (0 < rv <= tot): bad(None, "%d of %d bytes are consumed" % (rv, tot))
            if rv >= 0 and length and rv != end: bad(None, "%d bytes are consumed and the OBU has %d" % (rv, end))
            nt = rw.get(w, mem, "c", "n_tile_data"); t = rw.get(w, mem, "c", "tile")
            if not isinstance(nt, int) or not w.ptr(t): continue
            subs = any(e[0] == "submit" for e in ev)
            for e in ev:      # tile groups delimited on the way
                if e[0] == "store" and w.ptr(e[2]) and e[2][1] == t[1] and e[2][2] == t[2] + L.off("Dav1dTileGroup", "data.sz") and isinstance(e[3], int): last_sz = e[3]
            if nt == 1:
                d = w.read(mem, ("ptr", t[1], t[2] + L.off("Dav1dTileGroup", "data.data")), "ptr"); s = w.read(mem, ("ptr", t[1], t[2] + L.off("Dav1dTileGroup", "data.sz")), "i64")
                ctx.count("tile_groups_delimited")
                if not (w.ptr(d) and d[1] == ("obj", "data") and d[2] is not None and isinstance(s, int) and 0 <= d[2] and 0 <= s and d[2] + s <= end): bad(None, "the tile group kept is not within the OBU")
                elif d[2] < head: bad(None, "the tile group starts before the payload")
    for typ, ns in SIZES.items():
        for n in ns:
            firsts = [()] if typ != 5 else [(m,) for m in (1, 2, 3, 4)] + [(4, 0xff), (4, 0xb5)] if n else [()]
            for first in firsts:
                if len(first) > n: continue
                for ext in (0, 1):
                    for strict in (0, 1):
                        jobs.append(lambda a=(typ, n, first, ext, 1, None, None, strict): one(*a))
                        if typ in (3, 4, 5, 6) and not ext: jobs.append(lambda a=(typ, n, first, ext, 1, None, None, strict, 3): one(*a))
                    if n or ext: jobs.append(lambda a=(typ, n, first, ext, 0, None, None, 1): one(*a))
                for claim in (n + 1, n + 2, 127): jobs.append(lambda a=(typ, n, first, 0, 1, claim, None, 0): one(*a))
                if n: jobs.append(lambda a=(typ, n, first, 0, 1, n - 1, None, 0): one(*a)); 
                for cut in (1, 2):
                    jobs.append(lambda a=(typ, n, first, 1, 1, None, cut, 0): one(*a))
    # trailing zeros and the payload of T.35 messages: every byte unknown
    for n in range(1, 7):
        jobs.append(lambda n=n: one(5, n, (4,), 0, 1, None, None, 0)); jobs.append(lambda n=n: one(5, n, (4,), 0, 1, None, None, 0, 2))
    for z in range(0, 5):
        jobs.append(lambda z=z: one(5, 2 + z, (4,) + (0,) * z, 0, 1, None, None, 0)); jobs.append(lambda z=z: one(5, 2 + z, (4, 0xff) + (0,) * z, 0, 1, None, None, 0)); jobs.append(lambda z=z: one(5, 3 + z, (4, 0xff, 0x80) + (0,) * z, 0, 1, None, None, 0))
    return jobs

def seqs(ctx, P, L):
    """dav1d_parse_sequence_header walks the OBUs of a buffer"""
    jobs = []
    def one(data, n, what):
        rw = RW(ctx, P, L, n_fc=1, n_tc=1); rw.fail = False; rw.max_paths = 4096
        B = Bits(rw, data); rw.models.update(B.models())
        inits = []
        def seq(rw, w, i, av, mem, ev):
            for k in range(13): B.take(w, av[1], 1, mem)
            over = w.read(mem, B.at(av[1], "err"), "i32")
            return ("alts", [(0, None), (-22, None)]) if not over else -22
        rw.models["parse_seq_hdr"] = seq
        def init(rw, w, i, av, mem, ev):
            d, s = av[1], av[2]
            if not (w.ptr(d) and d[2] is not None and isinstance(s, int) and s > 0 and d[2] >= 0 and d[2] + s <= n): ctx.violation(i.where(), "%s: a reader is opened on bytes outside the buffer" % what, "dav1d_parse_sequence_header", "read")
            return B.init(rw, w, i, av, mem, ev)
        rw.models["dav1d_init_get_bits"] = init
        old = rw.init
        rw.init = lambda inst, a, ty: (data.get(a[2]) if ty == "i8" else UNK) if a[1] == ("obj", "data") else old(inst, a, ty)
        w, f, res = rw.run("dav1d_parse_sequence_header", {0: O("out"), 1: O("data"), 2: n})
        ctx.count("buffers_judged")
        bad1 = []
        def bad(i, m):
            if not bad1: bad1.append(1); ctx.violation(i.where(), "%s: %s" % (what, m), f.name, "read")
        # the reader's position is never set behind the end
        for ev, rv, mem in res:
            ctx.count("paths_judged")
            judge_reads(ctx, w, ev, "data", 0, n, bad)
            for e in ev:
                if e[0] == "store" and w.ptr(e[2]) and e[2][1][0] == "al" and w.ptr(e[3]) and e[3][1] == ("obj", "data") and (e[3][2] is None or e[3][2] > n): bad(e[1], "the read position is set behind the end of the buffer")
    for n in range(1, 8):
        for typ in (1, 2, 5):
            for ext in (0, 1):
                for claim in (None, 0, 1, 2, 3, 9):
                    d = {0: typ << 3 | ext << 2 | (2 if claim is not None else 0)}
                    if claim is not None: d[1 + ext] = claim
                    nxt = 1 + ext + (1 + claim if claim is not None else 99)
                    if nxt < n: d[nxt] = 1 << 3 | 2; d[nxt + 1] = 1
                    d = {k: v for k, v in d.items() if k < n}
                    jobs.append(lambda d=d, n=n, typ=typ, claim=claim: one(d, n, "a buffer of %d bytes starting with an OBU of type %d%s" % (n, typ, ", announced as %d bytes" % claim if claim is not None else "")))
    return jobs

# --- tiles
def tiles(ctx, P, L):
    jobs = []
    def one(nb, sizes, S, tiles, what):
        """sizes: the size fields as written; S: bytes in the tile group"""
        rw = RW(ctx, P, L, n_fc=1, n_tc=1); rw.fail = False; rw.max_paths = 4096
        rw.objs("fh", "Dav1dFrameHeader", 1); rw.objs("sq", "Dav1dSequenceHeader", 1); rw.objs("ts", "Dav1dTileState", 16); rw.default0 |= {"fh", "sq", "ts"}
        data = {}; pos = 0
        for s in sizes:
            for k in range(nb): data[pos + k] = s - 1 >> 8 * k & 255
            pos += nb + s
        data = {k: v for k, v in data.items() if k < S}
        rw.set("fc", "frame_hdr", O("fh")); rw.set("fc", "seq_hdr", O("sq")); rw.set("fc", "ts", O("ts"))
        cols = min(tiles, 4); rows = (tiles + cols - 1) // cols
        rw.set("fh", "tiling.cols", cols); rw.set("fh", "tiling.rows", rows); rw.set("fh", "tiling.n_bytes", nb); rw.set("fh", "width[0]", 64); rw.set("fh", "width[1]", 64)
        rw.set("fc", "n_tile_data", 1); rw.set("ftile0", "start", 0); rw.set("ftile0", "end", tiles - 1); rw.set("ftile0", "data.data", O("data", 2)); rw.set("ftile0", "data.sz", S)
        old = rw.init
        rw.init = lambda inst, a, ty: (data.get(a[2] - 2) if ty == "i8" and a[2] is not None else UNK) if a[1] == ("obj", "data") else old(inst, a, ty)
        rw.no_into |= {"dav1d_cdf_thread_copy"}
        got = []
        def msac(rw, w, i, av, mem, ev): ev.append(("tile", i, av[1], av[2])); return UNK
        rw.models["dav1d_msac_init"] = msac
        w, f, res = rw.run("dav1d_decode_frame_init_cdf", {0: O("fc")})
        ctx.count("tile_groups_split")
        bad1 = []
        def bad(i, m):
            if not bad1: bad1.append(1); ctx.violation(i.where() if i is not None else where(f), "%s: %s" % (what, m), f.name, "read")
        # what the specification makes of it
        want = []; p = 0; ok = True
        for k in range(tiles):
            if k == tiles - 1: want.append((p, S - p)); break
            if S - p < nb: ok = False; break
            s = sum(data.get(p + q, 0) << 8 * q for q in range(nb)) + 1; p += nb
            if s > S - p: ok = False; break
            want.append((p, s)); p += s
        if not res: bad(None, "every path runs into undefined behaviour")
        for ev, rv, mem in res:
            ctx.count("paths_judged")
            judge_reads(ctx, w, ev, "data", 2, 2 + S, bad)
            ts = [(e[2], e[3]) for e in ev if e[0] == "tile"]
            for d, s in ts:
                ctx.count("tiles_delimited")
                if not (w.ptr(d) and d[1] == ("obj", "data") and d[2] is not None and isinstance(s, int) and 0 <= s and 2 <= d[2] and d[2] + s <= 2 + S): bad(next(e[1] for e in ev if e[0] == "tile"), "a tile is delimited outside its tile group"); break
            neg = isinstance(rv, int) and sgn(rv) < 0
            if ok and neg: bad(None, "a well-formed tile group is rejected")
            if not ok and not neg: bad(None, "a tile group whose sizes do not fit is not rejected")
            if ok and not neg and [(d[2] - 2, s) for d, s in ts if w.ptr(d) and d[2] is not None] != want: bad(None, "the tiles are not split at their size fields")
    for nb in (1, 2, 3, 4):
        for tiles in (1, 2, 3, 5):
            for sizes in ((1, 1, 1, 1), (3, 2, 7, 1), (255, 1, 2, 3)):
                sizes = sizes[:tiles - 1]
                full = sum(sizes) + nb * len(sizes)
                for S in sorted({0, 1, nb - 1, nb, nb + 1, full - 1, full, full + 1, full + 5, full - sizes[-1] if sizes else 0, full - sizes[-1] - 1 if sizes else 1}):
                    if S < 0: continue
                    jobs.append(lambda a=(nb, sizes, S, tiles, "%d tiles of %s bytes with %d-byte sizes in %d bytes" % (tiles, "/".join(map(str, sizes)) or "all", nb, S)): one(*a))
        if nb > 1:
            big = (1 << 8 * nb)
            for S in (nb, nb + 1, 100): jobs.append(lambda a=(nb, (big,), S, 2, "a tile size of %d in %d bytes" % (big, S)): one(*a))
    return jobs

# --- the symbol decoder
def symbols(ctx, P, L):
    jobs = []
    win = 64
    def state(rem, cnt, rng=0x8000, start=5, B=None):
        rw = api_world(ctx, P, L); rw.fail = False; rw.max_paths = 8192
        rw.objs("ms", "MsacContext", 1)
        rw.set("ms", "buf_pos", O("data", start)); rw.set("ms", "buf_end", O("data", start + rem)); rw.set("ms", "cnt", cnt); rw.set("ms", "rng", rng)
        o = L.off("MsacContext", "dif")
        rw.set("ms", "allow_update_cdf", 0)
        cdf = {"cdf%d" % n: [32768 * (n - k) // (n + 1) for k in range(n)] + [0] for n in range(1, 16)}
        old = rw.init
        def init(inst, a, ty):
            if a[1] == ("obj", "data") or a[1] == ("obj", "ms") and a[2] == o: return UNK
            if a[1][0] == "obj" and str(a[1][1]) in cdf and ty == "i16" and a[2] is not None and a[2] % 2 == 0 and a[2] // 2 < len(cdf[a[1][1]]): return cdf[a[1][1]][a[2] // 2]
            return old(inst, a, ty)
        rw.init = init
        rw.models.update({n[:-2]: (lambda rw, w, i, av, mem, ev, n=n: ("into", n)) for n in P.raw if n.startswith("dav1d_msac_decode_") and n.endswith("_c")})
        return rw
    def judge(rw, w, f, res, rem, what, start=5):
        bad1 = []
        def bad(i, m):
            if not bad1: bad1.append(1); ctx.violation(i.where() if i is not None else where(f), "%s: %s" % (what, m), f.name, "read")
        ctx.count("decoder_states")
        if not res: bad(None, "every path runs into undefined behaviour")
        for ev, rv, mem in res:
            ctx.count("paths_judged")
            judge_reads(ctx, w, ev, "data", start, start + rem, bad)
            p = rw.get(w, mem, "ms", "buf_pos")
            if not w.ptr(p) or p[2] is None or p[2] > start + rem or p[2] < start: bad(None, "the read position leaves the tile")
            if rw.get(w, mem, "ms", "buf_end") != O("data", start + rem): bad(None, "the end of the tile is moved")
    SYM = sorted(n for n in P.raw if n.startswith("dav1d_msac_decode_") and n.endswith("_c"))
    ctx.require(len(SYM) >= 4, "the symbol decoding functions were not found")
    for n in SYM:
        for rem in (0, 1, 2, 7, 8, 9):
            for cnt in (-15, -14, -1, 0, 1, 5, 14, 30, 48):
                def f(n=n, rem=rem, cnt=cnt):
                    for rng in (0x8000, 0xffff):
                        rw = state(rem, cnt, rng)
                        extra = {1: 0x4000} if n == "dav1d_msac_decode_bool_c" else {1: O("cdf4"), 2: 4} if "symbol" in n else {1: O("cdf3")} if "hi_tok" in n else {1: O("cdf1")} if "adapt" in n else {}
                        w, g, res = rw.run(n, {0: O("ms"), **extra})
                        judge(rw, w, g, res, rem, "%s with %d bytes left" % (n, rem))
                if "hi_tok" in n and (cnt > 1 or rem > 2): continue
                jobs.append(f)
    def init():
        for sz in range(0, 20):
            rw = state(0, 0)
            w, f, res = rw.run("dav1d_msac_init", {0: O("ms"), 1: O("data", 5), 2: sz, 3: 0})
            judge(rw, w, f, res, sz, "a tile of %d bytes" % sz)
            for ev, rv, mem in res:
                p = rw.get(w, mem, "ms", "buf_pos"); c = rw.get(w, mem, "ms", "cnt")
                if not w.ptr(p) or not isinstance(c, int) or sgn(c) != 8 * (p[2] - 5) - 15: ctx.violation(where(f), "the symbol decoder does not count the bits of a tile of %d bytes" % sz, f.name, "count")
    jobs.append(init)
    return jobs

def overrun(ctx, P, L):
    """the end of a row of superblocks: a decoder that ran out of data fails the tile, and the trailing bits looked at lie inside the tile"""
    jobs = []
    def one(B, pos, cnt, strict, last, passes, want):
        """B bytes in the tile, pos of them taken in; want: must it fail (None: depends on the bytes)"""
        rw = RW(ctx, P, L, n_fc=1, n_tc=1); rw.fail = False; rw.max_paths = 4096
        rw.objs("fh", "Dav1dFrameHeader", 1); rw.objs("sq", "Dav1dSequenceHeader", 1); rw.objs("ts", "Dav1dTileState", 1); rw.objs("t", "Dav1dTaskContext", 1); rw.default0 |= {"fh", "sq", "ts", "t"}
        rw.set("t", "f", O("fc")); rw.set("t", "c", O("c")); rw.set("t", "ts", O("ts")); rw.set("fc", "frame_hdr", O("fh")); rw.set("fc", "seq_hdr", O("sq")); rw.set("t", "frame_thread.pass", passes)
        rw.set("c", "strict_std_compliance", strict); rw.set("fc", "sb_shift", 4); rw.set("fc", "sb_step", 16); rw.set("fc", "bh", 32); rw.set("fc", "sb128w", 1)
        rw.set("t", "by", 0); rw.set("fh", "tiling.row_start_sb[1]", 1 if last else 2); rw.set("fh", "tiling.rows", 1)
        rw.set("ts", "msac.buf_pos", O("data", 3 + pos)); rw.set("ts", "msac.buf_end", O("data", 3 + B)); rw.set("ts", "msac.cnt", cnt)
        old = rw.init
        rw.init = lambda inst, a, ty: UNK if a[1] == ("obj", "data") else old(inst, a, ty)
        w, f, res = rw.run("dav1d_decode_tile_sbrow", {0: O("t")})
        ctx.count("row_ends_judged")
        what = "a tile of %d bytes with %d taken in and a bit count of %d%s" % (B, pos, cnt, " in strict mode" if strict else "")
        b1 = []
        def bad(i, m):
            if not b1: b1.append(1); ctx.violation(i.where() if i is not None else where(f), "%s: %s" % (what, m), f.name, "read" if "fetched" in m else "overrun")
        if not res: bad(None, "every path runs into undefined behaviour")
        for ev, rv, mem in res:
            ctx.count("paths_judged")
            judge_reads(ctx, w, ev, "data", 3, 3 + B, bad)
            if want is True and not (isinstance(rv, int) and rv != 0): bad(None, "reading past the end of the tile is not reported")
            if want is False and rv != 0: bad(None, "a row that was read completely fails")
    for passes in (0, 1):
        for cnt in (-15, -16, -30, -31, -100, -2 ** 31):
            for strict in (0, 1): jobs.append(lambda a=(4, 4, cnt, strict, 1, passes, True): one(*a)); jobs.append(lambda a=(0, 0, cnt, strict, 0, passes, True): one(*a))
        for cnt in (-14, -13, -1, 0, 1, 40): jobs.append(lambda a=(9, 9, cnt, 0, 1, passes, False): one(*a)); jobs.append(lambda a=(9, 9, cnt, 1, 0, passes, False): one(*a))
    for B in range(1, 13):
        for pos in range(0, B + 1):
            for used in range(0, 8 * B, 1 if B < 4 else 3):
                cnt = 8 * pos - 15 - used
                if -14 <= cnt <= 48 and pos > 0: jobs.append(lambda a=(B, pos, cnt, 1, 1, 0, None): one(*a))
    return jobs

def run(ctx):
    ctx.rule = ("The bit reader is evaluated (abstract, no execution; bytes unknown) from every state it can be in - bits left, bytes left, error - for every width: it must fetch only bytes of its packet, take exactly the bits asked for, and enter and stay in the error state when they are not there, which makes the set of states closed.  "
                "OBU parsing, the sequence-header probe, the splitting of tile groups and the symbol decoder are evaluated for lengths around every boundary: each fetch, each delimited tile and each opened reader must lie within the packet, OBU or tile.")
    P = ctx.prog(); OP = obu_program(ctx); L = Lay(P)
    jobs = readers(ctx, P, L) + obus(ctx, OP, L) + seqs(ctx, OP, L) + tiles(ctx, P, L) + symbols(ctx, P, L) + overrun(ctx, P, L)
    ctx.setc("jobs", len(jobs))
    parallel(ctx, lambda: jobs, lambda j: j())
    ctx.assumptions.append("the symbol decoder's assembly variants are not source this analysis reads; header parsers read through the bit reader only (a byte fetched directly is judged where it is evaluated)")
