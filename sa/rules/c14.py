"""C14: every public entry point validates its arguments before acting."""
import re, os
from decworld import *

INT_MIN, INT_MAX, SIZE_MAX = -2 ** 31, 2 ** 31 - 1, 2 ** 64 - 1
SILENT = ("dav1d_version", "dav1d_version_api", "dav1d_default_settings", "dav1d_flush")      # report nothing: their argument is the caller's duty

def api(ctx):
    """the public functions as the headers declare them: name -> (result, [parameter text])"""
    import front
    out = {}
    for h in sorted(os.listdir(front.REPO + "/include/dav1d")):
        if not h.endswith(".h"): continue
        s = open(front.REPO + "/include/dav1d/" + h, errors="replace").read()
        s = re.sub(r"/\*.*?\*/|//[^\n]*", " ", s, flags=re.S)
        s = re.sub(r"^[ \t]*#(?:[^\n\\]|\\.)*", "", s, flags=re.M | re.S)
        for m in re.finditer(r"\bDAV1D_API\b\s+([^;{}()]*?)\b(dav1d_\w+)\s*\(", s):
            k = m.end(); d = 1; cur = ""; ps = []
            while d:
                ch = s[k]; k += 1
                if ch == "(": d += 1
                if ch == ")": d -= 1
                if d == 0 or ch == "," and d == 1: ps.append(" ".join(cur.split())); cur = ""
                else: cur += ch
            out[m.group(2)] = (" ".join(m.group(1).split()), [p for p in ps if p and p != "void"])
    return out

def required(fn, params):
    """indexes of the pointers that must not be null"""
    r = []
    for k, p in enumerate(params):
        if "(*" in p.replace(" ", ""): r.append(k)
        elif "*" in p and not re.match(r"(const )?void ?\*", p) and not (fn == "dav1d_data_wrap_user_data" and k == 1): r.append(k)      # the user's own pointer is opaque
    return r

HARMLESS = re.compile(r"^(f?printf|vf?printf|fputs|puts|fwrite|pthread_once|llvm\..*|__fprintf_chk|__vfprintf_chk)$")
def effects(w, ev):
    """what a path does to anything but its own variables: (instruction, text)"""
    own = lambda a: isinstance(a, tuple) and a[0] == "ptr" and a[1][0] == "al"
    for e in ev:
        t = e[0]
        if t in ("store", "rmw", "cas", "set", "copy") and not own(e[2]): yield e[1], "memory is written"
        elif t in ("alloc", "create", "pop"): yield e[1], "memory is allocated"
        elif t in ("free", "dec", "inc", "push"): yield e[1], "a reference or a block is released or taken"
        elif t == "call":
            n = e[1].callee
            if n is None: yield e[1], "a callback is called"
            elif n.startswith("pthread_") and n != "pthread_once": yield e[1], n + " is called"

class Run:
    def __init__(self, ctx, P, L): self.ctx, self.P, self.L = ctx, P, L
    def world(self):
        rw = api_world(self.ctx, self.P, self.L, models={"dav1d_parse_obus": m_parse(False, False), "dlsym": lambda rw, w, i, av, mem, ev: 0,
            "dav1d_num_logical_processors": lambda rw, w, i, av, mem, ev: 4, "__sched_cpucount": lambda rw, w, i, av, mem, ev: 4})
        rw.objs("s", "Dav1dSettings", 1); rw.default0.add("s")
        for m in ("alloc_picture_callback", "release_picture_callback"): rw.set("s", "allocator." + m, ("ptr", ("g", "dav1d_default_picture_" + m.split("_")[0]), 0))
        rw.set("s", "allocator.cookie", 0)
        rw.objs("data", "Dav1dData", 1); rw.objs("pic", "Dav1dPicture", 1); rw.objs("picin", "Dav1dPicture", 1); rw.objs("props", "Dav1dDataProps", 1)
        return rw
    def args(self, rw, fn, params):
        """good arguments"""
        out = {}
        for k, p in enumerate(params):
            t = p.replace("const ", "")
            if "(*" in p.replace(" ", ""): v = ("ptr", ("g", "user_cb"), 0)
            elif re.match(r"Dav1dContext \*\*", t): v = O("handle")
            elif t.startswith("Dav1dContext"): v = O("c")
            elif t.startswith("Dav1dSettings"): v = O("s")
            elif t.startswith("Dav1dDataProps"): v = O("props")
            elif t.startswith("Dav1dData"): v = O("data")
            elif t.startswith("Dav1dPicture"): v = O("picin" if p.startswith("const") else "pic")
            elif "*" in t: v = O("arg%d" % k)
            else: v = 16
            out[k] = v
        return out
    def go(self, rw, fn, args):
        f = self.P.fn(fn)
        self.ctx.require(f is not None, "%s is declared in a public header and not defined" % fn)
        w = rw.world()
        try: res = w.run(f, args)
        except Limit as e: self.ctx.require(False, "%s cannot be evaluated (%s)" % (fn, e))
        self.ctx.count("paths", len(res)); self.ctx.count("evaluated_steps", w.steps)
        return w, f, res
    def reject(self, rw, fn, args, ret, what):
        """the call has no effect and reports an error"""
        f = self.P.fn(fn); rw.fail = False; rw.max_paths = 256
        self.ctx.require(f is not None, "%s is declared in a public header and not defined" % fn)
        w = rw.world(); w.max = 200000
        try: res = w.run(f, args)
        except Limit as e:
            self.ctx.violation("%s:%d" % (f.file, f.line), "%s is not rejected: the call goes on to work" % what, fn, "reject"); return
        self.ctx.count("paths", len(res)); self.ctx.count("evaluated_steps", w.steps)
        where = "%s:%d" % (f.file, f.line)
        self.ctx.count("calls_rejected")
        if not res: self.ctx.violation(where, "%s is not rejected: every path runs into undefined behaviour" % what, fn, "reject")
        for ev, rv, mem in res:
            for i, how in w.nulls(ev):
                self.ctx.violation(i.where(), "%s: a null pointer is %s" % (what, how), fn, "null"); break
            for i, how in effects(w, ev):
                self.ctx.violation(i.where(), "%s: %s before the call is rejected" % (what, how), fn, "effect"); break
            if ret == "int" and not (isinstance(rv, int) and -2 ** 31 <= sgn(rv) < 0): self.ctx.violation(where, "%s is not reported with a negative error code" % what, fn, "result")
            if ret == "ptr" and rv != 0: self.ctx.violation(where, "%s is not reported with a null result" % what, fn, "result")
    def accept(self, rw, fn, args, what, good=lambda w, ev, rv, mem: sgn(rv) == 0):
        """some path takes the call"""
        w, f, res = self.go(rw, fn, args)
        self.ctx.count("calls_accepted")
        if not any(good(w, ev, rv, mem) for ev, rv, mem in res): self.ctx.violation("%s:%d" % (f.file, f.line), "%s is not accepted" % what, fn, "accept")
        return w, res

def sgn(v): return v if not isinstance(v, int) or v < 2 ** 31 else v - 2 ** 32 if v < 2 ** 32 else v - 2 ** 64

def kind(ret): return "ptr" if "*" in ret else "void" if ret == "void" else "int"

def nulls(R, A):
    ctx = R.ctx
    for fn, (ret, params) in sorted(A.items()):
        if fn in SILENT: continue
        for k in required(fn, params):
            rw = R.world()
            if fn == "dav1d_get_picture" or fn == "dav1d_send_data": pass
            a = R.args(rw, fn, params); a[k] = 0
            R.reject(rw, fn, a, kind(ret), "a null %s" % pname(params[k]))
            ctx.count("pointer_parameters")

def pname(p): return re.findall(r"[A-Za-z_]\w*", p.split("(*")[-1] if "(*" in p else p)[0 if "(*" in p else -1]

RANGES = {      # documented in dav1d.h
    "n_threads": ([INT_MIN, -257, -2, -1, 257, 258, 1024, INT_MAX], [0, 1, 2, 3, 255, 256]),
    "max_frame_delay": ([INT_MIN, -257, -2, -1, 257, 258, 1024, INT_MAX], [0, 1, 2, 255, 256]),
    "operating_point": ([INT_MIN, -2, -1, 32, 33, 255, INT_MAX], [0, 1, 7, 30, 31]),
    "decode_frame_type": ([4, 5, 255, 2 ** 31, 2 ** 32 - 1], [0, 1, 2, 3]),
}

def ranges(R):
    ctx = R.ctx
    for m, (bad, good) in RANGES.items():
        for fn in ("dav1d_open", "dav1d_get_frame_delay"):
            if fn == "dav1d_get_frame_delay" and m not in ("n_threads", "max_frame_delay"): continue
            mk = lambda rw, fn=fn: {0: O("handle"), 1: O("s")} if fn == "dav1d_open" else {0: O("s")}
            for v in bad:
                yield lambda fn=fn, v=v, m=m, mk=mk: (lambda rw: (rw.set("s", m, v), R.reject(rw, fn, mk(rw), "int", "%s = %d" % (m, v)), ctx.count("settings_out_of_range")))(small(R, m, v))
            for v in good:
                yield lambda fn=fn, v=v, m=m, mk=mk: (lambda rw: (rw.set("s", m, v), R.accept(rw, fn, mk(rw), "%s = %d" % (m, v), (lambda w, ev, rv, mem: sgn(rv) == 0) if fn == "dav1d_open" else (lambda w, ev, rv, mem: isinstance(rv, int) and sgn(rv) > 0)), ctx.count("settings_in_range")))(small(R, m, v, ok=True))
    D = lambda s: ("ptr", ("g", "dav1d_default_picture_" + s), 0)
    U = lambda s: ("ptr", ("g", "cb_" + s), 0)
    for m in ("alloc_picture_callback", "release_picture_callback"):
        def none(m=m):
            for other in (D, U):
                rw = small(R)
                for x in ("alloc_picture_callback", "release_picture_callback"): rw.set("s", "allocator." + x, other(x.split("_")[0]))
                rw.set("s", "allocator." + m, 0)
                R.reject(rw, "dav1d_open", {0: O("handle"), 1: O("s")}, "int", "no " + m)
                ctx.count("settings_out_of_range")
        yield none
    for a, r, ck, ok in ((D, U, 0, False), (U, D, 0, False), (D, D, O("cookie"), False), (D, D, 0, True), (U, U, O("cookie"), True), (U, U, 0, True)):
        def pair(a=a, r=r, ck=ck, ok=ok):
            rw = small(R); rw.set("s", "allocator.alloc_picture_callback", a("alloc")); rw.set("s", "allocator.release_picture_callback", r("release")); rw.set("s", "allocator.cookie", ck)
            what = "the library's %s with the application's %s" % (("allocator", "release callback") if a is D else ("release callback", "allocator")) if a is not r else "the default picture allocator with a cookie" if ck and a is D else "a pair of picture callbacks"
            if ok: R.accept(rw, "dav1d_open", {0: O("handle"), 1: O("s")}, what)
            else:
                w, f, res = R.go(rw, "dav1d_open", {0: O("handle"), 1: O("s")})
                ctx.count("settings_out_of_range")
                for ev, rv, mem in res:
                    if not isinstance(rv, int) or sgn(rv) >= 0: ctx.violation("%s:%d" % (f.file, f.line), "%s is accepted" % what, "dav1d_open", "accept"); break
        yield pair

def small(R, m=None, v=None, ok=False):
    rw = R.world(); rw.fail = False
    rw.set("s", "n_threads", 256 if m == "max_frame_delay" else 1); rw.set("s", "max_frame_delay", 0 if m == "n_threads" else 1)
    rw.models["pthread_cond_wait"] = lambda rw, w, i, av, mem, ev: 0
    rw.max_paths = 64
    return rw

def sizes(R):
    ctx = R.ctx
    H = SIZE_MAX // 2
    big = (H + 1, H + 2, SIZE_MAX)
    def mkdata(rw, sz): rw.fill_handle("data", "", "given", "Dav1dData"); rw.set("data", "sz", sz)
    for v in (0,) + big:
        def f(v=v):
            for held in (0, 1):
                rw = R.world(); mkdata(rw, v)
                if held: rw.fill_handle("c", "in", "held", "Dav1dData")
                R.reject(rw, "dav1d_send_data", {0: O("c"), 1: O("data")}, "int", "a packet of %s bytes" % show(v)); ctx.count("sizes_rejected")
        yield f
        def f(v=v): R.reject(R.world(), "dav1d_parse_sequence_header", {0: O("seqout"), 1: O("bytes"), 2: v}, "int", "a buffer of %s bytes" % show(v)); ctx.count("sizes_rejected")
        yield f
    for v in big:
        def f(v=v):
            R.reject(R.world(), "dav1d_data_create", {0: O("data"), 1: v}, "ptr", "a packet of %s bytes" % show(v)); ctx.count("sizes_rejected")
            R.reject(R.world(), "dav1d_data_wrap", {0: O("data"), 1: O("bytes"), 2: v, 3: ("ptr", ("g", "user_cb"), 0), 4: O("cookie")}, "int", "a packet of %s bytes" % show(v)); ctx.count("sizes_rejected")
        yield f
    def f():      # bytes announced without data
        for held in (0, 1):
            for v in (1, 16, H):
                rw = R.world(); rw.set("data", "sz", v); rw.set("data", "data", 0)
                if held: rw.fill_handle("c", "in", "held", "Dav1dData")
                rw.models.pop("dav1d_parse_obus")
                rw.models["dav1d_parse_obus"] = deref
                R.reject(rw, "dav1d_send_data", {0: O("c"), 1: O("data")}, "int", "a packet with a size and no data"); ctx.count("sizes_rejected")
    yield f
    for v in (1, 2, H):
        def f(v=v):
            rw = R.world(); mkdata(rw, v)
            R.accept(rw, "dav1d_send_data", {0: O("c"), 1: O("data")}, "a packet of %s bytes" % show(v), lambda w, ev, rv, mem: any(e[0] == "parse" for e in ev))
            rw = R.world(); rw.fail = False
            R.accept(rw, "dav1d_data_create", {0: O("data"), 1: v}, "a packet of %s bytes" % show(v), lambda w, ev, rv, mem: w.ptr(rv))
            rw = R.world(); rw.fail = False
            R.accept(rw, "dav1d_data_wrap", {0: O("data"), 1: O("bytes"), 2: v, 3: ("ptr", ("g", "user_cb"), 0), 4: 0}, "a packet of %s bytes" % show(v))
            rw = R.world(); rw.fail = False
            R.accept(rw, "dav1d_data_wrap_user_data", {0: O("data"), 1: 0, 2: ("ptr", ("g", "user_cb"), 0), 3: 0}, "an opaque null pointer")
            ctx.count("sizes_accepted", 3)
        yield f
    def f():      # an empty packet only asks for more output
        rw = R.world(); rw.set("data", "sz", 0); rw.set("data", "data", 0)
        R.accept(rw, "dav1d_send_data", {0: O("c"), 1: O("data")}, "an empty packet")
    yield f

def deref(rw, w, i, av, mem, ev):
    """parsing reads the packet"""
    d = w.read(mem, ("ptr", av[1][1], av[1][2] + rw.L.off("Dav1dData", "data")), "ptr")
    ev.append(("load", i, d if d is not None else 0, None))
    return -22

def show(v): return {SIZE_MAX: "SIZE_MAX", SIZE_MAX // 2: "SIZE_MAX / 2", SIZE_MAX // 2 + 1: "SIZE_MAX / 2 + 1", SIZE_MAX // 2 + 2: "SIZE_MAX / 2 + 2"}.get(v, str(v))

def states(R):
    """release functions on what they cannot release"""
    ctx = R.ctx
    def f():
        for fn, obj, st in (("dav1d_data_unref", "data", "Dav1dData"), ("dav1d_picture_unref", "pic", "Dav1dPicture")):
            rw = R.world()
            for o, k, p in rw.leaves(st):
                if p == "ref": rw.set(obj, p, O("dangling"))
            R.reject(rw, fn, {0: O(obj)}, "void", "a handle with a reference and no data"); ctx.count("states_rejected")
        rw = R.world(); rw.cells[("handle", 0)] = 0
        R.reject(rw, "dav1d_close", {0: O("handle")}, "void", "a handle that holds no decoder"); ctx.count("states_rejected")
    yield f

def delays(R):
    """dav1d_get_frame_delay tells how many frame contexts a decoder opened with the same settings has"""
    ctx = R.ctx
    vals = [0] + list(range(1, 257))
    for lo in range(0, 257, 32):
        def f(lo=lo):
            for n in vals[lo:lo + 32]:
                for d in (0, 1, 2, 3, 8, 16, 255, 256):
                    rw = small(R); rw.set("s", "n_threads", n); rw.set("s", "max_frame_delay", d)
                    w, g, res = R.go(rw, "dav1d_get_frame_delay", {0: O("s")})
                    nt = n or 4
                    want = min(d, nt) if d else min(8, next(k for k in range(1, 17) if k * k >= nt))
                    ctx.count("delays_compared")
                    if [rv for ev, rv, mem in res] != [want]: ctx.violation("%s:%d" % (g.file, g.line), "the frame delay reported for %d threads and a limit of %d frames is not the documented one" % (n, d), g.name, "delay"); return
        yield f
    for n, d in ((1, 0), (2, 0), (2, 1), (2, 2), (4, 0), (4, 3), (5, 0), (3, 256), (10, 0), (16, 2), (50, 0), (0, 0)):
        def f(n=n, d=d):
            rw = small(R); rw.set("s", "n_threads", n); rw.set("s", "max_frame_delay", d)
            w, g, res = R.go(rw, "dav1d_get_frame_delay", {0: O("s")})
            w, h, res2 = R.go(rw, "dav1d_open", {0: O("handle"), 1: O("s")})
            for ev, rv, mem in res2:
                c = w.read(mem, O("handle"), "ptr")
                if sgn(rv) != 0 or not w.ptr(c): continue
                ctx.count("delays_compared")
                if [w.read(mem, ("ptr", c[1], c[2] + R.L.off("Dav1dContext", "n_fc")), "i32")] != [x[1] for x in res]: ctx.violation("%s:%d" % (h.file, h.line), "the frame delay reported for %d threads and a limit of %d frames is not the one the decoder has" % (n, d), g.name, "delay")
        yield f

def run(ctx):
    ctx.rule = ("The public functions and their parameters are read from the installed headers.  Each is evaluated (abstract, no execution) with each pointer it needs null in turn, with every documented limit of the settings and sizes exceeded at and beyond both ends, and with handles that hold nothing to release: "
                "every path must return an error (or nothing), without an access through a null pointer and without having written, allocated, released or called anything before; values at both ends of each range must be accepted, and the reported frame delay must be that of the decoder.")
    P = ctx.prog(); L = Lay(P)
    R = Run(ctx, P, L)
    A = api(ctx)
    ctx.require(len(A) >= 15, "the public functions were not found in the headers")
    ctx.setc("public_functions", len(A))
    jobs = [lambda fn=fn: nulls(R, {fn: A[fn]}) for fn in sorted(A)]
    jobs += list(ranges(R)) + list(sizes(R)) + list(states(R)) + list(delays(R))
    parallel(ctx, lambda: jobs, lambda j: j())
    for fn in SILENT: ctx.require(fn in A, "%s is no longer public" % fn)
    ctx.assumptions.append("validation failures return instead of aborting (release builds, NDEBUG); functions that report nothing and release nothing (%s) leave their argument to the caller" % ", ".join(SILENT))
