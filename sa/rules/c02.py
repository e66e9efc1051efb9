"""C02: copying, moving or dropping a handle treats every buffer the handle carries."""
from world import *
from scan import *
from itertools import product

REFS = {   # handle type -> function taking one more reference on everything (dst empty, src)
    "dav1d_data_ref": "Dav1dData", "dav1d_picture_ref": "Dav1dPicture", "dav1d_thread_picture_ref": "Dav1dThreadPicture", "dav1d_cdf_thread_ref": "CdfThreadContext"}
OVER = {"dav1d_data_props_copy": "Dav1dDataProps"}       # dst may hold something, which is dropped
MOVES = {"dav1d_picture_move_ref": "Dav1dPicture", "dav1d_thread_picture_move_ref": "Dav1dThreadPicture"}
DROPS = {"dav1d_data_unref_internal": "Dav1dData", "dav1d_data_props_unref_internal": "Dav1dDataProps", "dav1d_picture_unref_internal": "Dav1dPicture",
         "dav1d_thread_picture_unref": "Dav1dThreadPicture", "dav1d_cdf_thread_unref": "CdfThreadContext",
         "dav1d_picture_unref": "Dav1dPicture", "dav1d_data_unref": "Dav1dData", "dav1d_data_props_unref": "Dav1dDataProps"}

def O(n, off=0): return ("ptr", ("obj", n), off)

class H:
    """one handle type: its cells and the ones that own a counted buffer"""
    def __init__(self, P, L, name):
        self.name = name; self.leaves = []; self.refs = []
        d = P.struct(name)
        st = [(0, d, "", None)]
        while st:
            o, d, p, t = st.pop()
            if d["k"] == "ptr":
                x = L.strip(d["to"]) if d.get("to", -1) is not None else None
                tn = x.get("name") if x else None
                self.leaves.append((o, "ptr", p))
                if tn == "Dav1dRef": self.refs.append((o, p))
            elif d["k"] in ("struct", "union"):
                for m in d["m"]:
                    st.append((o + m[1], L.strip(m[3]), (p + "." if p else "") + m[0], None))
                    if d["k"] == "union": break
            elif d["k"] == "array":
                el = L.strip(d["elem"]); n = d["size"] // el["size"] if el["size"] else 0
                for j in range(min(n, 16)): st.append((o + j * el["size"], el, "%s[%d]" % (p, j), None))
            else: self.leaves.append((o, "i%d" % (8 * d["size"]), p))
        self.leaves.sort(); self.refs.sort()
        self.size = P.struct(name)["size"]

class Eval:
    def __init__(self, ctx, P, L):
        self.ctx, self.P, self.L = ctx, P, L
        self.cnt = L.off("Dav1dRef", "ref_cnt")
    def hcall(self, w, i, av, mem, ev):
        n = i.callee or ""
        if n == "dav1d_ref_dec":
            v = w.read(mem, av[0], "ptr", i)
            if v != 0: ev.append(("dec", i, v))
            if w.ptr(av[0]): mem.store(av[0], 0)
            return UNK
        if n == "dav1d_ref_inc": ev.append(("inc", i, av[0])); return UNK
        if n in self.P.raw and n not in ("dav1d_log",): return ("into", n)
        return NotImplemented
    def events(self, ev):
        inc, dec = {}, {}
        for e in ev:
            if e[0] == "inc": inc[e[2]] = inc.get(e[2], 0) + 1
            elif e[0] == "dec": dec[e[2]] = dec.get(e[2], 0) + 1
            elif e[0] == "rmw" and isinstance(e[2], tuple) and e[2][1][0] == "obj" and e[2][2] == self.cnt and e[2][1][1].startswith(("S", "D")):
                k = ("ptr", e[2][1], 0)
                s = e[1].x[1]
                t = e[3] if isinstance(e[3], int) else 1
                if s == "sub": t = -t
                if t > 0: inc[k] = inc.get(k, 0) + t
                else: dec[k] = dec.get(k, 0) - t
        return inc, dec
    def run(self, fn, args, init):
        f = self.P.fn(fn)
        w = World(self.P, init, self.hcall, max_paths=64)
        try: return w, f, w.run(f, args)
        except Limit:
            return w, f, None

def combos(n):
    if n <= 7: return list(product((0, 1), repeat=n))
    base = [tuple(1 for _ in range(n)), tuple(0 for _ in range(n))]
    for k in range(n):
        base.append(tuple(int(j == k) for j in range(n))); base.append(tuple(int(j != k) for j in range(n)))
    return base

def consistent(h, off, ty, pres):
    """value of a cell of a handle for which the buffers in pres are present: data pointers of an absent buffer are null"""
    return None

def check_kind(ctx, E, fn, h, kind):
    P = E.P
    f = P.fn(fn)
    ctx.require(f is not None, "%s is gone" % fn)
    where = "%s:%d" % (f.file, f.line)
    ctx.count("helpers_checked")
    main = [(o, p) for o, p in h.refs if p in ("ref", "p.ref")]
    for pres in combos(len(h.refs)):
        have = {o for (o, p), b in zip(h.refs, pres) if b}
        names = ", ".join(p for (o, p), b in zip(h.refs, pres) if b) or "nothing"
        def cell(tag, o, ty):
            for (ro, p) in h.refs:
                if o == ro: return O("%s%d" % (tag, ro)) if ro in have else 0
            if ty == "ptr":
                # payload pointers follow the buffer they point into
                nm = [p for oo, t, p in h.leaves if oo == o]
                if main and nm and nm[0].split(".")[-1].startswith("data") and not nm[0].split(".")[-2:-1] == ["user_data"] and main[0][0] not in have: return 0
            return ("ptr", ("tok%s" % tag, o), 0) if ty == "ptr" else ("tok", tag, o)
        def init(inst, a, ty):
            if a[1] == ("obj", "src"): return cell("S", a[2], ty)
            if a[1] == ("obj", "dst"):
                if kind == "over": return cell("D", a[2], ty)
                return 0 if kind != "drop" else NotImplemented
            if a[1][0] == "obj" and a[2] == E.cnt: return 7
            return NotImplemented
        args = {0: O("src")} if kind == "drop" else {0: O("dst"), 1: O("src")}
        w, f, res = E.run(fn, args, init)
        ctx.count("combinations")
        def bad(m, i=None): ctx.violation(i.where() if i is not None else where, "%s: %s when it carries %s" % (fn, m, names), fn, kind)
        if res is None: ctx.require(False, "%s cannot be evaluated" % fn)
        if not res: bad("does not return"); continue
        for ev, rv, mem in res:
            inc, dec = E.events(ev)
            for o, p in h.refs:
                ctx.count("obligations")
                s, d = O("S%d" % o), O("D%d" % o)
                i, x = inc.pop(s, 0), dec.pop(s, 0)
                di, dx = inc.pop(d, 0), dec.pop(d, 0)
                pr = o in have
                if kind in ("ref", "over"):
                    if i - x != int(pr): bad("takes %d references on %s instead of %d" % (i - x, p, int(pr)))
                if kind == "over" and dx - di != int(pr): bad("drops the previous %s %d times instead of %d" % (p, dx - di, int(pr)))
                if kind == "move" and i != x: bad("changes the reference count of %s" % p)
                if kind == "drop" and x - i != int(pr): bad("drops %s %d times instead of %d" % (p, x - i, int(pr)))
            for k in list(inc) + list(dec): bad("changes the reference count of something that is not in the handle")
            for o, ty, p in h.leaves:
                ctx.count("cells")
                if kind in ("ref", "over", "move"):
                    v = w.read(mem, ("ptr", ("obj", "dst"), o), ty)
                    want = cell("S", o, ty)
                    if v != want: bad("the copy does not get %s" % p)
                isref = any(o == ro for ro, _ in h.refs)
                if kind in ("move", "drop"):
                    v = w.read(mem, ("ptr", ("obj", "src"), o), ty)
                    if ty == "ptr" and v != 0: bad("%s is still set in the handle afterwards" % p)
                if kind == "ref" or kind == "over":
                    v = w.read(mem, ("ptr", ("obj", "src"), o), ty)
                    if v != cell("S", o, ty): bad("modifies %s of the source" % p)

def props(ctx, E, P, L):
    """dav1d_picture_copy_props attaches metadata to a picture"""
    fn = "dav1d_picture_copy_props"; f = P.fn(fn)
    ctx.require(f is not None, fn + " is gone")
    pairs = [("content_light", "content_light_ref"), ("mastering_display", "mastering_display_ref"), ("itut_t35", "itut_t35_ref")]
    where = "%s:%d" % (f.file, f.line)
    # argument positions by type
    pos = {}
    tn = []
    for a in f.args:
        d = P.ty(a[2]) if len(a) > 2 and a[2] is not None else None
        x = d
        tn.append(x.get("name") if x else None)
    want = {"content_light": "Dav1dContentLightLevel", "mastering_display": "Dav1dMasteringDisplay", "itut_t35": "Dav1dITUTT35"}
    for k, t in want.items():
        if t in tn:
            pos[k] = tn.index(t)
            if pos[k] + 1 < len(tn) and tn[pos[k] + 1] == "Dav1dRef": pos[k + "_ref"] = pos[k] + 1
    ip = [k for k, a in enumerate(f.args) if a[0] == "i64"]
    pp = [k for k, t in enumerate(tn) if t == "Dav1dDataProps"]
    ctx.require(len(pos) == 6 and ip and pp, "signature of %s changed" % fn)
    uo = L.off("Dav1dDataProps", "user_data.ref"); mo = L.off("Dav1dPicture", "m")
    for pres in product((0, 1), repeat=4):
        for old in (0, 1):
            args = {0: O("dst"), ip[0]: ("tok", "n", 0), pp[0]: O("props")}
            for j, (a, r) in enumerate(pairs):
                args[pos[a]] = O("V" + a) if pres[j] else 0
                args[pos[r]] = O("S" + r) if pres[j] else 0
            def init(inst, a, ty):
                if a[1] == ("obj", "dst"):
                    for _, r in pairs:
                        if a[2] == L.off("Dav1dPicture", r): return O("D" + r) if old else 0
                    if a[2] == mo + uo: return O("Dud") if old else 0
                if a[1] == ("obj", "props"):
                    if a[2] == uo: return O("Sud") if pres[3] else 0
                    return ("tok", "props", a[2])
                if a[1][0] == "obj" and a[2] == E.cnt: return 7
                return NotImplemented
            w, f, res = E.run(fn, args, init)
            ctx.count("combinations")
            def bad(m): ctx.violation(where, "%s: %s" % (fn, m), fn, "props")
            if res is None: ctx.require(False, fn + " cannot be evaluated")
            if not res: bad("does not return")
            for ev, rv, mem in res:
                inc, dec = E.events(ev)
                for j, r in enumerate([b for _, b in pairs] + ["ud"]):
                    ctx.count("obligations", 2)
                    i = inc.pop(O("S" + r), 0) - dec.pop(O("S" + r), 0)
                    d = dec.pop(O("D" + r), 0) - inc.pop(O("D" + r), 0)
                    if i != pres[j]: bad("takes %d references on the new %s instead of %d" % (i, r, pres[j]))
                    if d != old: bad("drops the previous %s %d times instead of %d" % (r, d, old))
                for k in list(inc) + list(dec): bad("changes the reference count of something else")
                rd = lambda path, ty: w.read(mem, ("ptr", ("obj", "dst"), L.off("Dav1dPicture", path)), ty)
                for j, (a, r) in enumerate(pairs):
                    if rd(a, "ptr") != args[pos[a]] or rd(r, "ptr") != args[pos[r]]: bad("%s of the picture is not the metadata that was passed" % a)
                if rd("n_itut_t35", "i64") != args[ip[0]]: bad("n_itut_t35 of the picture is not the count that was passed")
                if w.read(mem, ("ptr", ("obj", "dst"), mo), "i64") != ("tok", "props", 0): bad("the packet properties are not copied")

def alloc(ctx, E, P, L):
    """a new picture carries the headers and metadata of what it was allocated for"""
    leaf = ["seq_hdr", "frame_hdr", "content_light", "mastering_display", "itut_t35"]
    po = lambda m: L.off("Dav1dPicture", m)
    H0 = H(P, L, "Dav1dPicture")
    def hc(w, i, av, mem, ev):
        n = i.callee or ""
        if n == "dav1d_mem_pool_pop": return O("pool_buf")
        if n in ("dav1d_mem_pool_push", "dav1d_log"): ev.append(("pushed", i)); return UNK
        if i.callee is None:
            if w.ptr(av[0]) and i.ty == "i32": ev.append(("alloccb", i, av)); mem.store(("ptr", av[0][1], av[0][2] + po("data")), O("pixels")); return 0
            return NotImplemented
        return E.hcall(w, i, av, mem, ev)
    # 1. a copy for film grain or super-resolution
    fn = "dav1d_picture_alloc_copy"; f = P.fn(fn)
    ctx.require(f is not None, fn + " is gone")
    for nfc in (1, 2):
        def init(inst, a, ty):
            if a[1] == ("obj", "dst"): return 0
            if a[1] == ("obj", "src"):
                for o, p in H0.refs:
                    if a[2] == o: return O("S" + p)
                return ("ptr", ("tokS", a[2]), 0) if ty == "ptr" else ("tok", "S", a[2])
            if a[1] == ("obj", "c") and a[2] == L.off("Dav1dContext", "n_fc"): return nfc
            if a[1] == ("tokS", po("m")): return NotImplemented
            if a[1][0] == "obj" and a[2] == E.cnt: return 7
            return NotImplemented
        w = World(P, init, hc, max_paths=64)
        try: res = w.run(f, {0: O("c"), 1: O("dst"), 2: 640, 3: O("src")})
        except Limit: ctx.require(False, fn + " cannot be evaluated")
        done = [r for r in res if r[1] == 0]
        where = "%s:%d" % (f.file, f.line)
        if not done: ctx.violation(where, fn + " never succeeds", fn, "alloc")
        for ev, rv, mem in done:
            inc, dec = E.events(ev)
            for m in leaf:
                ctx.count("obligations", 2)
                if w.read(mem, O("dst", po(m)), "ptr") != ("ptr", ("tokS", po(m)), 0): ctx.violation(where, "%s: the new picture does not carry %s of its source" % (fn, m), fn, "alloc")
                if w.read(mem, O("dst", po(m + "_ref")), "ptr") != O("S%s_ref" % m): ctx.violation(where, "%s: the new picture does not hold %s_ref of its source" % (fn, m), fn, "alloc")
                if inc.pop(O("S%s_ref" % m), 0) - dec.pop(O("S%s_ref" % m), 0) != 1: ctx.violation(where, "%s: no reference is taken on %s" % (fn, m), fn, "alloc")
            if w.read(mem, O("dst", po("n_itut_t35")), "i64") != ("tok", "S", po("n_itut_t35")): ctx.violation(where, "%s: n_itut_t35 is not carried over" % fn, fn, "alloc")
            if inc.pop(O("Sm.user_data.ref"), 0) - dec.pop(O("Sm.user_data.ref"), 0) != 1: ctx.violation(where, "%s: no reference is taken on the user data" % fn, fn, "alloc")
            if w.read(mem, O("dst", po("m.timestamp")), "i64") != ("tok", "S", po("m.timestamp")): ctx.violation(where, "%s: the packet properties are not carried over" % fn, fn, "alloc")
            if inc.get(O("Sref"), 0): ctx.violation(where, "%s: the pixel buffer of the source is referenced" % fn, fn, "alloc")
    # 2. the picture of a frame
    fn = "dav1d_thread_picture_alloc"; f = P.fn(fn)
    ctx.require(f is not None, fn + " is gone")
    co = lambda m: L.off("Dav1dContext", m); fo = lambda m: L.off("Dav1dFrameContext", m)
    tdm = L.off("Dav1dTileGroup", "data") + L.off("Dav1dData", "m")
    for nfc, show in product((1, 2), (0, 1)):
        cellc = {co("n_fc"): nfc, co("content_light_ref"): O("Scontent_light_ref"), co("mastering_display_ref"): O("Smastering_display_ref"), co("itut_t35_ref"): O("Situt_t35_ref"),
                 co("n_itut_t35"): 3, co("content_light"): O("Vcontent_light"), co("mastering_display"): O("Vmastering_display"), co("itut_t35"): O("Vitut_t35")}
        cellf = {fo("seq_hdr"): O("Vseq_hdr"), fo("frame_hdr"): O("Vframe_hdr"), fo("seq_hdr_ref"): O("Sseq_hdr_ref"), fo("frame_hdr_ref"): O("Sframe_hdr_ref"), fo("tile"): O("ftile"), fo("c"): O("c")}
        so = fo("sr_cur.p")
        def init(inst, a, ty):
            if a[1] == ("obj", "c") and a[2] in cellc: return cellc[a[2]]
            if a[1] == ("obj", "f"):
                if a[2] in cellf: return cellf[a[2]]
                if a[2] is not None and so <= a[2] < so + H0.size: return 0
            if a[1] == ("obj", "ftile"):
                if a[2] == tdm + L.off("Dav1dDataProps", "user_data.ref"): return O("Sud")
                if a[2] == tdm + L.off("Dav1dDataProps", "timestamp"): return ("tok", "ts", 0)
            if a[1] == ("obj", "Vframe_hdr") and a[2] == L.off("Dav1dFrameHeader", "show_frame"): return show
            if a[1][0] == "obj" and a[2] == E.cnt: return 7
            return NotImplemented
        w = World(P, init, hc, max_paths=256)
        try: res = w.run(f, {0: O("c"), 1: O("f"), 2: 8})
        except Limit: ctx.require(False, fn + " cannot be evaluated")
        done = [r for r in res if r[1] == 0]
        where = "%s:%d" % (f.file, f.line)
        if not done: ctx.violation(where, fn + " never succeeds", fn, "alloc")
        for ev, rv, mem in done:
            inc, dec = E.events(ev)
            rd = lambda m, ty: w.read(mem, O("f", so + po(m)), ty)
            for m in leaf:
                meta = m not in ("seq_hdr", "frame_hdr")
                ctx.count("obligations")
                if meta and not show: continue
                if rd(m, "ptr") != O("V" + m) or rd(m + "_ref", "ptr") != O("S%s_ref" % m): ctx.violation(where, "%s: a %s frame's picture does not carry %s" % (fn, "visible" if show else "hidden", m), fn, "alloc")
                n = inc.pop(O("S%s_ref" % m), 0); d = dec.pop(O("S%s_ref" % m), 0)
                if m == "itut_t35":
                    # handed over: the picture holds one, the decoder none
                    left = w.read(mem, O("c", co("itut_t35_ref")), "ptr") != 0
                    if n - d != (1 if left else 0): ctx.violation(where, "%s: T.35 metadata is not handed over to the picture exactly once" % fn, fn, "alloc")
                    if rd("n_itut_t35", "i64") != 3: ctx.violation(where, "%s: n_itut_t35 is not handed over" % fn, fn, "alloc")
                    if left or w.read(mem, O("c", co("n_itut_t35")), "i32") != 0: ctx.violation(where, "%s: T.35 metadata stays attached to the decoder and would be repeated" % fn, fn, "alloc")
                elif n - d != 1: ctx.violation(where, "%s: no reference is taken on %s" % (fn, m), fn, "alloc")
            if inc.pop(O("Sud"), 0) - dec.pop(O("Sud"), 0) != 1 or rd("m.user_data.ref", "ptr") != O("Sud"): ctx.violation(where, "%s: the user data of the packet is not attached" % fn, fn, "alloc")
            if rd("m.timestamp", "i64") != ("tok", "ts", 0): ctx.violation(where, "%s: the packet properties are not attached" % fn, fn, "alloc")
            ctx.count("combinations")

def counter(ctx, P, L):
    """the counter itself"""
    cnt = L.off("Dav1dRef", "ref_cnt"); cb = L.off("Dav1dRef", "free_callback"); ud = L.off("Dav1dRef", "user_data"); cd = L.off("Dav1dRef", "const_data"); fr = L.off("Dav1dRef", "free_ref")
    f = P.fn("dav1d_ref_dec"); ctx.require(f is not None, "dav1d_ref_dec is gone")
    where = "%s:%d" % (f.file, f.line)
    def bad(m, i=None): ctx.violation(i.where() if i is not None else where, "dav1d_ref_dec: " + m, "dav1d_ref_dec", "counter")
    for n, free in product((0, 1, 2, 5), (0, 1)):
        def init(inst, a, ty):
            if a[1] == ("obj", "pp"): return O("ref") if n else 0
            if a[1] == ("obj", "ref"):
                return {cnt: n, fr: free, ud: O("ud"), cd: O("cd"), cb: O("cb")}.get(a[2], NotImplemented)
            return NotImplemented
        w = World(P, init, None)
        res = w.run(f, {0: O("pp")})
        ctx.count("combinations")
        for ev, rv, mem in res:
            ctx.count("obligations", 3)
            cbs = [e for e in ev if e[0] == "call" and e[1].callee is None]
            frees = [e for e in ev if e[0] == "call" and e[1].callee and "free" in e[1].callee and e[2] and e[2][0] == O("ref")]
            last = n == 1
            if len(cbs) != int(last): bad("the release callback runs %d times when %d references are left" % (len(cbs), n))
            for e in cbs:
                if e[2][:2] != [O("cd"), O("ud")] or e[3] != O("cb"): bad("the release callback does not get the data and cookie it was registered with", e[1])
            if len(frees) != int(last and free == 1): bad("the counter block is freed %d times with %d references left and free_ref %d" % (len(frees), n, free))
            if n and w.read(mem, O("pp"), "ptr") != 0: bad("the dropped reference stays in the handle")
            if n and w.read(mem, O("ref", cnt), "i32") != n - 1: bad("the count is not decremented by one")
            for e in ev:
                if e[0] == "rmw" and e[1].x[0] < 5: bad("the decrement is not an acquire-release operation: the last owner may miss the writes of others", e[1])
    # every constructor starts at one
    for f in P.functions():
        for i in f.all_insts():
            if i.op in ("store",) and (addr_class(f, i.a[1])[0] or "") == "Dav1dRef.ref_cnt":
                ctx.count("constructors")
                if const_int(i.a[0]) != 1: ctx.violation(i.where(), "a new counted buffer does not start with one reference", f.name, "counter")
            if i.op == "atomicrmw" and (addr_class(f, i.a[0])[0] or "") == "Dav1dRef.ref_cnt":
                ctx.count("count_updates")
                if const_int(i.a[1]) != 1 or i.x[1] not in ("add", "sub"): ctx.violation(i.where(), "a reference count changes by something other than one", f.name, "counter")

def run(ctx):
    ctx.rule = ("Each function that copies, moves, overwrites or drops a handle is partially evaluated (constants and symbolic cells propagated, no execution) for every combination of present and absent buffers. "
                "The buffers of a handle are read off its type: every member that is a Dav1dRef*.  Required: one more reference for each present buffer and an identical copy (copy), no change and an empty source (move), one drop "
                "of each present buffer and no pointer left (drop); new pictures carry and reference all headers and metadata; the counter primitive runs the callback exactly at the last drop.")
    P = ctx.prog(); L = Lay(P)
    E = Eval(ctx, P, L)
    hs = {n: H(P, L, n) for n in ("Dav1dData", "Dav1dDataProps", "Dav1dPicture", "Dav1dThreadPicture", "CdfThreadContext")}
    ctx.setc("buffers_per_handle", ", ".join("%s:%d" % (n, len(h.refs)) for n, h in hs.items()))
    for n, h in hs.items(): ctx.sample("%s: %s" % (n, ", ".join(p for _, p in h.refs)))
    for kind, tab in (("ref", REFS), ("over", OVER), ("move", MOVES), ("drop", DROPS)):
        for fn, t in tab.items(): check_kind(ctx, E, fn, hs[t], kind)
    props(ctx, E, P, L)
    alloc(ctx, E, P, L)
    counter(ctx, P, L)
    ctx.assumptions = ["a handle whose pixel or packet buffer is absent has null data pointers (established by the functions that empty handles, checked here)"]
