"""C25: the command-line tool moves whole packets and pictures, or fails."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0])
import front
from world import *
from decworld import parallel
from refworld import O

EOF_AT = 8          # cell of a file object: the last read hit the end of the file
READ = ("fread", "fread_unlocked"); SEEK = ("fseeko", "fseeko64", "fseek"); TELL = ("ftello", "ftello64", "ftell"); OPEN = ("fopen", "fopen64"); WRITE = ("fwrite", "fwrite_unlocked")
FMT = ("fprintf", "printf", "fputs", "fputc", "puts", "snprintf", "sprintf", "fflush", "vfprintf", "perror", "isatty", "fileno", "putc", "__sprintf_chk", "__fprintf_chk")

class Eval(World):
    """remembers divisions by zero"""
    def ev(self, env, i, f=None):
        if i.op in ("udiv", "sdiv", "urem", "srem") and self.val(env, i.a[1]) == 0 and i not in self.zero: self.zero.append(i)
        return World.ev(self, env, i, f)

class Files:
    """the C library as far as the tool's input and output need it; one step per path may fail (fault), files have the given content"""
    def __init__(self, ctx, P, content=b"", fault=True, faults=("open", "read", "seek", "alloc", "write"), models=None, reads=6):
        self.ctx, self.P, self.content, self.fault, self.faults = ctx, P, content, fault, set(faults)
        self.models = dict(models or {}); self.cells = {}; self.reads = reads
    def init(self, inst, a, ty):
        k = (a[1], a[2])
        if k in self.cells: return self.cells[k]
        if a[1][0] == "obj" and a[1][1].startswith("file"): return 0
        if a[1] == ("obj", "priv"): return 0
        if a[1][0] == "g" and a[2] is not None and ty == "ptr":        # a table of pointers that is not declared constant
            g = self.P.gv(a[1][1])
            t = g.get("init") if g is not None and not g.get("const") else None
            if isinstance(t, list) and g["size"] == 8 * len(t) and a[2] % 8 == 0 and 0 <= a[2] // 8 < len(t):
                x = t[a[2] // 8]
                if x is None: return 0
                if isinstance(x, dict) and x.get("op", [0])[0] == "g": return ("ptr", ("g", x["op"][1]), 0)
        if a[1][0] == "g" and a[1][1] in ("stdout", "stderr", "stdin"): return O(a[1][1])
        return NotImplemented
    def can(self, ev, kind): return self.fault and kind in self.faults and not any(e[0] == "fault" or e[0] == "alt" and e[3] for e in ev)
    def name(self, i): return i.callee or ""
    def call(self, w, i, av, mem, ev):
        n = self.name(i)
        if i.callee is None:
            t = w.val(ev[-1][3], ["c", 0]) if False else ev[-1][3]
            n = t[1][1] if w.ptr(t) and t[1][0] == "g" else ""
        if n in self.models: return self.models[n](self, w, i, av, mem, ev)
        if n in OPEN:
            f = O("file%d" % sum(1 for e in ev if e[0] == "opened"))
            ev.append(("opened", i, f))
            ok = (f, None, ((f, 0), (O(f[1][1], EOF_AT), 0)))
            return ("alts", [ok, (0, "the file cannot be opened")] if self.can(ev, "open") else [ok])
        if n == "fclose":
            ev.append(("closed", i, av[0])); return 0
        if n in READ: return self.read(w, i, av, mem, ev)
        if n in SEEK:
            f = av[0]; pos = w.read(mem, f, "i64")
            if self.can(ev, "seek"): bad = [(-1, "a seek fails")]
            else: bad = []
            base = {0: 0, 1: pos, 2: len(self.content) if self.content is not None else UNK}.get(av[2])
            to = base + av[1] if isinstance(base, int) and isinstance(av[1], int) else UNK
            ev.append(("seek", i, to))
            if isinstance(to, int) and to < 0: return -1
            return ("alts", [(0, None, ((f, to), (O(f[1][1], EOF_AT), 0)))] + bad)
        if n in TELL: return w.read(mem, av[0], "i64")
        if n == "feof": return w.read(mem, O(av[0][1][1], EOF_AT), "i32")
        if n == "ferror": return 1 if any(e[0] == "alt" and e[3] == "a read fails" for e in ev) else 0
        if n == "rewind": mem.store(av[0], 0); mem.store(O(av[0][1][1], EOF_AT), 0); return UNK
        if n in ("malloc", "calloc"):
            p = ("ptr", ("obj", "heap%d" % sum(1 for e in ev if e[0] == "alloc")), 0)
            ev.append(("alloc", i, p))
            if n == "calloc": mem.fill(p, None, 0)
            return ("alts", [(p, None)] + ([(0, "memory runs out")] if self.can(ev, "alloc") else []))
        if n == "free":
            ev.append(("free", i, av[0])); return UNK
        if n == "dav1d_data_create":
            p = ("ptr", ("obj", "pkt"), 0)
            ev.append(("create", i, av[1]))
            return ("alts", [(p, None)] + ([(0, "memory runs out")] if self.can(ev, "alloc") else []))
        if n in ("dav1d_data_unref", "dav1d_picture_unref"):
            ev.append(("unref", i, av[0])); return UNK
        if n in WRITE:
            sz = av[1] * av[2] if isinstance(av[1], int) and isinstance(av[2], int) else UNK
            ev.append(("wrote", i, av[0], sz, av[3]))
            return ("alts", [(av[2], None)] + ([(0, "a write fails")] if self.can(ev, "write") else []))
        if n == "memcmp" and isinstance(av[2], int):
            x = [self.byte(w, mem, av[0], k) for k in range(av[2])]; y = [self.byte(w, mem, av[1], k) for k in range(av[2])]
            if None not in x + y: return 0 if x == y else 1 if x > y else -1
            return UNK
        if n in ("strcmp", "strncmp", "strlen", "strchr") and all(w.ptr(x) for x in av[:2 if "cmp" in n else 1]):
            x = self.text(w, mem, av[0]); y = self.text(w, mem, av[1]) if "cmp" in n else ""
            if x is not None and y is not None:
                if n == "strlen": return len(x)
                if n == "strchr":
                    k = x.find(chr(av[1] & 255)) if isinstance(av[1], int) else None
                    return UNK if k is None else 0 if k < 0 else ("ptr", av[0][1], av[0][2] + k)
                if n == "strncmp": x, y = x[:av[2]], y[:av[2]]
                return 0 if x == y else 1 if x > y else -1
        if n == "__errno_location": return O("errno")
        if n in FMT: ev.append(("say", i)); return 0
        if n == "strerror": return O("text")
        if n.startswith("XXH"): 
            if len(av) >= 3 and w.ptr(av[1]) and av[1][1][0] == "obj" and isinstance(av[2], int): ev.append(("hashed", i, av[1], av[2]))
            return O("xxh") if i.ty == "ptr" else 0 if i.ty == "i32" else NotImplemented
        if n in self.P.raw and self.P.fn(n).blocks: return ("into", n)
        return NotImplemented
    def text(self, w, mem, a):
        out = ""
        for k in range(64):
            b = self.byte(w, mem, a, k)
            if b is None: return None
            if b == 0: return out
            out += chr(b)
    def string(self, o, t):
        for k, ch in enumerate(t.encode() + b"\0"): self.cells[(("obj", o), k)] = ch
        return O(o)
    def byte(self, w, mem, a, k):
        if not w.ptr(a) or a[2] is None: return None
        v = w.read(mem, ("ptr", a[1], a[2] + k), "i8")
        return v & 255 if isinstance(v, int) else None
    def read(self, w, i, av, mem, ev):
        p, sz, n, f = av[:4]
        pos = w.read(mem, f, "i64") if w.ptr(f) else UNK
        if self.content is None:        # any content: the read succeeds, meets the end of the file or fails
            eof = O(f[1][1], EOF_AT)
            if w.read(mem, eof, "i32") == 1: return 0
            if sum(1 for e in ev if e[0] == "read") >= self.reads: return "stop"
            ev.append(("read", i, p, None, None))
            if w.ptr(p) and p[2] is not None: mem.fill(p, None if not isinstance(sz, int) or not isinstance(n, int) else sz * n, "?")
            return ("alts", [(n, None, ((eof, 0),)), (0, None if p[1] != ("obj", "pkt") else "the file ends inside it", ((eof, 1),))] + ([(0, "a read fails", ((eof, 0),))] if self.can(ev, "read") else []))
        if not all(isinstance(x, int) for x in (sz, n, pos)):
            ev.append(("read", i, p, None, None)); return UNK
        have = max(len(self.content) - pos, 0); want = sz * n
        got = min(want, have); r = got // sz if sz else 0
        st = [(f, pos + got), (O(f[1][1], EOF_AT), 1 if got < want else 0)]
        if w.ptr(p) and p[2] is not None and p[1] != ("obj", "pkt"):
            for k in range(got): st.append((("ptr", p[1], p[2] + k), self.content[pos + k]))
        ev.append(("read", i, p, pos, got if got == want else None))
        out = [(r, None, tuple(st))]
        if self.can(ev, "read"): out.append((0, "a read fails", ((O(f[1][1], EOF_AT), 0),)))
        return ("alts", out)
    def shortfall(self, i, env):
        """a branch on whether a read delivered the unknown number of items it was asked for"""
        g = i.fn
        def strip(v):
            while isinstance(v, int) and v in g.insts and g.insts[v].op in ("sext", "zext", "trunc", "freeze"): v = g.insts[v].a[0]
            if isinstance(v, int) and v in g.insts and g.insts[v].op == "load" and isinstance(g.insts[v].a[0], int): return ("at", g.insts[v].a[0])
            return v
        c = g.insts.get(i.a[0]) if i.op == "br" and len(i.x) == 2 and isinstance(i.a[0], int) else None
        if c is None or c.op != "icmp": return None
        p = c.x if isinstance(c.x, str) else c.x[0]
        for a, b, swap in ((0, 1, False), (1, 0, True)):
            r = strip(c.a[a]); k = g.insts.get(r) if isinstance(r, int) else None
            if k is None or k.op != "call" or k.callee not in READ: continue
            ask = [strip(x) for x in k.a[1:3] if not isinstance(x, list)]
            if isinstance(c.a[b], list) or strip(c.a[b]) not in ask: continue
            full = env.get(r) is UNK
            if p in ("eq", "ne"): return full == (p == "eq")
            if p[1:] in ("lt", "gt") and (p[1:] == "gt") == swap: return not full      # fewer than asked for
            if p[1:] in ("ge", "le") and (p[1:] == "le") == swap: return full
        return None
    def leave(self, w, i, env, ev, mem):
        """a loop over unknown values that does nothing but compute is left after two rounds"""
        s = self.shortfall(i, env)
        if s is not None: return int(s)
        n, last = 0, None
        for e in reversed(ev):
            if e[0] in ("read", "call"): break
            if e[0] == "br" and e[1] is i:
                n += 1; last = last if last is not None else e[2]
        if n < 2 or i.op != "br" or len(i.x) < 2: return UNK
        return 0 if last == i.x[0] else 1
    def run(self, fn, args, mem=None, max_paths=4000):
        w = Eval(self.P, self.init, self.call, max_paths=max_paths, branch=self.leave if self.content is None else None)
        w.zero = []
        try: res = w.run(fn, args, mem)
        except Limit as e: self.ctx.require(False, "%s cannot be evaluated (%s)" % (fn.name, e))
        self.ctx.count("paths", len(res)); self.ctx.count("evaluated_steps", w.steps)
        for i in w.zero: self.ctx.violation(i.where(), "a division by zero is possible", fn=i.fn.name, kind="divide")
        return w, res

def note(ev): return next((e[3] for e in ev if e[0] == "alt" and e[3]), None)
def failed(v): return isinstance(v, int) and v != 0

# ------------------------------------------------------------------ files
def le(n, k): return bytes((n >> 8 * j) & 255 for j in range(k))
def leb(n):
    o = b""
    while True:
        b = n & 127; n >>= 7
        o += bytes([b | (128 if n else 0)])
        if not n: return o

def ivf(sizes, ts=None, frames=None, rate=(30, 1)):
    d = b"DKIF" + le(0, 2) + le(32, 2) + b"AV01" + le(64, 2) + le(64, 2) + le(rate[0], 4) + le(rate[1], 4) + le(len(sizes) if frames is None else frames, 4) + le(0, 4)
    pk = []
    for k, s in enumerate(sizes):
        t = k * 2 + 5 if ts is None else ts[k]
        pk.append((len(d) + 12, s, len(d), t))
        d += le(s, 4) + le(t, 8) + bytes(s)
    return d, pk
def obu(t, n, ext=False): return bytes([t << 3 | 2 | (4 if ext else 0)]) + (b"\0" if ext else b"") + leb(n) + bytes(n)
def section5(units):
    d, pk = b"", []
    for u in units:
        b = obu(2, 0) + b"".join(obu(*x) for x in u)
        pk.append((len(d), len(b), None, None)); d += b
    return d, pk
def annexb(units):
    """units: temporal units of frame units of OBU sizes"""
    d, pk = b"", []
    for tu in units:
        fs = []
        for fu in tu: fs.append(b"".join(leb(n) + b"\1" * n for n in fu))
        body = b"".join(leb(len(f)) + f for f in fs)
        at = len(d) + len(leb(len(body))); d += leb(len(body))
        for fu, f in zip(tu, fs):
            at += len(leb(len(f))); d += leb(len(f))
            for n in fu:
                at += len(leb(n)); pk.append((at, n, None, None)); at += n
            d += f
    return d, pk

def units(d):
    """temporal units of a Section 5 file that ends where an OBU ends; the last one is left out when it does not"""
    out, p = [], 0
    while p < len(d):
        q = p + 1 + (d[p] >> 2 & 1); n = k = 0
        while q < len(d):
            n |= (d[q] & 127) << 7 * k; k += 1; q += 1
            if not d[q - 1] & 128: break
        if d[p] >> 3 & 15 == 2: out.append([p, 0])
        p = q + n
        out[-1][1] = p
    return [(a, b - a, None, None) for a, b in out if b <= len(d)]

def slots(P, table, names):
    """functions of a dispatch table, by the member they are in"""
    L = Lay(P)
    g = P.gv(table)
    st = "Demuxer" if "demuxer" in table else "Muxer"
    flat = {o: v for o, n, v in g["flat"]}
    out = {}
    for m in names:
        o = L.off(st, m)
        v = flat.get(o)
        out[m] = P.fn(v[1]) if isinstance(v, list) and v[0] == "g" else None
    return out

FILE_CASES = {
    "ivf_demuxer": [("three packets", ivf([5, 1, 300]), None), ("timestamps that do not grow", ivf([5, 6, 7], ts=[3, 3, 1]), "ts"), ("no packets", ivf([]), None), ("one packet", ivf([40]), None)],
    "section5_demuxer": [("three units", section5([[(1, 4), (6, 9)], [(6, 3, True), (4, 130)], [(6, 1)]]), None), ("one unit", section5([[(1, 2), (3, 4), (4, 8)]]), None)],
    "annexb_demuxer": [("three units", annexb([[[1, 5], [7]], [[1, 200]], [[3], [4, 4]]]), None), ("one unit", annexb([[[9]]]), None)],
}

def demuxers(ctx, P):
    L = Lay(P)
    def report(fn, kind, msg, i=None): ctx.violation(i.where() if i is not None else fn.name, msg, fn=fn.name, kind=kind)
    def one(c):
        table, what, content, pk, cut, opt = c
        S = slots(P, table, ("open", "read", "close"))
        ctx.require(S["open"] is not None and S["read"] is not None, "%s has no open or read function" % table)
        data = content if cut is None else content[:cut]
        if cut is not None and pk and table == "section5_demuxer": pk = units(data)
        kind = table.split("_")[0]
        # opening, with one failing step
        F = Files(ctx, P, data)
        w, res = F.run(S["open"], {0: O("priv"), 1: O("name"), 2: O("fps"), 3: O("num"), 4: O("tb")})
        tag = "%s file with %s" % (kind, what) + ("" if cut is None else ", cut short")
        if not res: report(S["open"], "open", "opening cannot be completed [%s]" % tag)
        start = None
        for ev, v, mem in res:
            ctx.count("obligations", 2)
            if w.nulls(ev):
                for i, x in w.nulls(ev): report(S["open"], "open", "a null pointer is %s when opening [%s]" % (x, tag), i)
            opened = [e[2] for k, e in enumerate(ev) if e[0] == "opened" and ev[k + 1][2] != 0]
            closed = [e[2] for e in ev if e[0] == "closed"]
            if not isinstance(v, int):
                report(S["open"], "open", "the result of opening is not known [%s]" % tag); continue
            bad = note(ev)
            if bad and "opened" in bad and v >= 0: report(S["open"], "open", "opening succeeds although the file could not be opened")
            if v < 0:
                left = [f for f in opened if closed.count(f) != 1]
                if left: report(S["open"], "release", "a failing open leaves the file open or closes it twice [%s]" % tag)
                if bad is None and cut is None and pk: report(S["open"], "open", "a well-formed file cannot be opened [%s]" % tag)
            else:
                if closed: report(S["open"], "release", "a file is closed although opening succeeds [%s]" % tag)
                if bad is None: start = mem
        # reading until it fails, with one failing step at any place
        if start is None: return
        for fault in (False, True):
            todo = [(start, 0, 0)]
            while todo:
                mem, k, junk = todo.pop()
                F = Files(ctx, P, data, fault=fault)
                w, res = F.run(S["read"], {0: O("priv"), 1: O("buf")}, mem)
                if not res: report(S["read"], "read", "reading cannot be completed [%s]" % tag)
                for ev, v, m2 in res:
                    ctx.count("obligations", 3); ctx.count("packets_read")
                    bad = note(ev)
                    made = [e for j, e in enumerate(ev) if e[0] == "create" and ev[j + 1][2] != 0]
                    freed = [e for e in ev if e[0] == "unref" and e[2] == O("buf")]
                    for i, x in w.nulls(ev): report(S["read"], "read", "a null pointer is %s when reading [%s]" % (x, tag), i)
                    if any(e[0] == "closed" for e in ev): report(S["read"], "release", "reading a packet closes the file [%s]" % tag)
                    if not isinstance(v, int):
                        report(S["read"], "read", "the result of reading is not known [%s]" % tag); continue
                    if v != 0:
                        if v > 0: report(S["read"], "read", "reading fails with a result the tool takes for success [%s]" % tag)
                        if len(made) != len(freed): report(S["read"], "release", "a packet that was not read whole is %s [%s]" % ("not released" if len(made) > len(freed) else "released although it was never allocated", tag))
                        if bad is None and cut is None and k < len(pk): report(S["read"], "read", "packet %d of a well-formed file is not delivered [%s]" % (k, tag))
                        continue
                    if bad and not ("seek" in bad and kind != "ivf"):     # a stream demuxer notices a failed seek by what it reads next
                        report(S["read"], "read", "a packet is delivered although %s [%s]" % (bad, tag))
                        continue
                    if bad: continue
                    if len(made) != 1 or freed:
                        report(S["read"], "read", "a packet is delivered without its data [%s]" % tag); continue
                    got = [e for e in ev if e[0] == "read" and w.ptr(e[2]) and e[2][1] == ("obj", "pkt")]
                    sz = made[0][2]
                    cover, ok = 0, True
                    for e in sorted(got, key=lambda e: e[2][2] or 0):
                        if e[2][2] != cover or e[4] is None: ok = False
                        else: cover += e[4]
                    if not ok or cover != sz: report(S["read"], "read", "a packet is delivered although its bytes were not all read [%s]" % tag, (got or made)[0][1]); continue
                    at = got[0][3] if got else None
                    if k >= len(pk): report(S["read"], "read", "more packets are delivered than the file holds [%s]" % tag, made[0][1]); continue
                    if (at, sz) != pk[k][:2]: report(S["read"], "read", "packet %d is delivered from bytes %s..%s instead of %d..%d [%s]" % (k, at, at + sz if isinstance(at, int) else None, pk[k][0], pk[k][0] + pk[k][1], tag), got[0][1] if got else None); continue
                    if pk[k][2] is not None:
                        for m, want in (("m.offset", pk[k][2]), ("m.timestamp", pk[k][3] if opt is None else None)):
                            if want is None: continue
                            x = w.read(m2, O("buf", L.off("Dav1dData", m)), "i64")
                            if x != want: report(S["read"], "read", "the %s of a packet is not the one in the file [%s]" % (m[2:], tag))
                    if fault is False or k + 1 < 3: todo.append((m2, k + 1, 0))
        # closing
        if S["close"]:
            F = Files(ctx, P, data, fault=False)
            w, res = F.run(S["close"], {0: O("priv")}, start)
            for ev, v, m2 in res:
                if sum(1 for e in ev if e[0] == "closed") != 1: report(S["close"], "release", "closing a demuxer does not close its file once")
    def make():
        for t, cs in FILE_CASES.items():
            for what, (content, pk), opt in cs:
                yield t, what, content, pk, None, opt
                if len(content) < 90 or what.startswith("one") or t != "ivf_demuxer":
                    for cut in range(len(content)):
                        if len(content) > 120 and cut % 7 and cut > 60: continue
                        yield t, what, content, pk, cut, opt
        for what, content, n in MALFORMED: yield what.split(":")[0] + "_demuxer", what.split(": ")[1], content, n, len(content), None
    parallel(ctx, make, one)

# packets whose declared size does not fit what holds them; what may still be delivered before
MALFORMED = [
    ("annexb: an OBU larger than its frame unit", leb(20) + leb(4) + leb(6) + bytes(16), []),
    ("annexb: an OBU one byte larger than its frame unit", leb(20) + leb(4) + leb(4) + bytes(16), []),
    ("annexb: a frame unit larger than its temporal unit", leb(6) + leb(9) + leb(5) + bytes(16), []),
    ("annexb: a frame unit one byte larger than its temporal unit", leb(6) + leb(6) + leb(5) + bytes(16), []),
    ("annexb: a second OBU that does not fit", leb(10) + leb(9) + leb(3) + b"\1\1\1" + leb(5) + bytes(16), [(3, 3, None, None)]),
    ("annexb: a size of more than 32 bits", b"\xff\xff\xff\xff\xff\x01" + leb(9) + leb(5) + bytes(16), []),
    ("annexb: a size of more than eight bytes", b"\x80" * 8 + b"\x01" + leb(9) + leb(5) + bytes(16), []),
    ("section5: a stream without a temporal delimiter", obu(1, 3) + obu(6, 4), []),
    ("section5: an OBU without a size", obu(2, 0) + b"\x30" + bytes(8), []),
    ("section5: a size of more than 32 bits", obu(2, 0) + b"\x32\xff\xff\xff\xff\xff\x01" + bytes(9), []),
    ("section5: an OBU larger than the file", obu(2, 0) + b"\x32" + leb(90) + bytes(9), []),
    ("ivf: another kind of file", b"RIFF" + bytes(60), []),
    ("ivf: another codec", ivf([4])[0].replace(b"AV01", b"VP90"), []),
    ("ivf: a packet larger than the file", ivf([4])[0][:32] + le(900, 4) + le(1, 8) + bytes(9), []),
]

def any_content(ctx, P):
    """whatever the file holds: a step that fails makes opening or reading fail, with everything released"""
    def case(c):
        table, slot = c
        f = slots(P, table, (slot,))[slot]
        ctx.require(f is not None, "%s has no %s function" % (table, slot))
        def report(kind, msg, i=None): ctx.violation(i.where() if i is not None else f.name, msg, fn=f.name, kind=kind)
        F = Files(ctx, P, None, reads=8 if slot == "read" else 6)
        mem = Mem()
        if slot == "read":
            L = Lay(P); mem.store(O("priv"), O("file0")); mem.store(O("file0"), UNK); mem.store(O("file0", EOF_AT), 0)
            F.init = lambda inst, a, ty, g=F.init: UNK if a[1] == ("obj", "priv") and a[2] else g(inst, a, ty)
            args = {0: O("priv"), 1: O("buf")}
        else: args = {0: O("priv"), 1: O("name"), 2: O("fps"), 3: O("num"), 4: O("tb")}
        w, res = F.run(f, args, mem, max_paths=60000)
        if not res: report(slot, "a demuxer cannot be followed to its end (%s)" % table)
        ctx.count("any_content_paths", len(res))
        for ev, v, m in res:
            ctx.count("obligations", 2)
            bad = note(ev)
            made = [e for j, e in enumerate(ev) if e[0] == "create" and ev[j + 1][2] != 0]; freed = [e for e in ev if e[0] == "unref"]
            opened = [e[2] for k, e in enumerate(ev) if e[0] == "opened" and ev[k + 1][2] != 0]; closed = [e[2] for e in ev if e[0] == "closed"]
            if not isinstance(v, int): report(slot, "the result is not known (%s)" % table); continue
            if slot == "open":
                if v < 0 and any(closed.count(x) != 1 for x in opened): report("release", "a failing open leaves the file open or closes it twice")
                if v >= 0 and closed: report("release", "a file is closed although opening succeeds")
                if v >= 0 and not opened: report("open", "opening succeeds without a file")
            else:
                if v < 0 and len(made) != len(freed): report("release", "a packet that was not read whole is %s" % ("not released" if len(made) > len(freed) else "released although it was never allocated"))
                if v > 0: report("read", "reading fails with a result the tool takes for success")
                if v == 0:
                    if len(made) != 1 or freed or not any(e[0] == "read" and w.ptr(e[2]) and e[2][1] == ("obj", "pkt") for e in ev): report("read", "a packet is delivered without its data")
                    if bad and (bad != "a seek fails" or table == "ivf_demuxer"): report("read", "a packet is delivered although %s" % bad, next(e[1] for e in ev if e[0] == "alt" and e[3]))
    parallel(ctx, lambda: [(t, s) for t in FILE_CASES for s in ("open", "read")], case)

# ------------------------------------------------------------------ muxers
LAYOUTS = {0: (None, None), 1: (1, 1), 2: (1, 0), 3: (0, 0)}

def rows(w_, h_, layout, bpc):
    hb = 2 if bpc > 8 else 1
    out = [(0, y, w_ * hb) for y in range(h_)]
    if layout:
        sh, sv = LAYOUTS[layout]
        for pl in (1, 2): out += [(pl, y, ((w_ + sh) >> sh) * hb) for y in range((h_ + sv) >> sv)]
    return out

def muxers(ctx, P):
    L = Lay(P)
    tables = [g for g in ("null_muxer", "md5_muxer", "xxh3_muxer", "yuv_muxer", "y4m2_muxer") if P.gv(g) is not None]
    ctx.require(len(tables) >= 4, "the muxers are gone")
    def case(c):
        t, layout, bpc, w_, h_, neg = c
        S = slots(P, t, ("write_header", "write_picture", "write_trailer", "verify"))
        def report(fn, kind, msg, i=None): ctx.violation(i.where() if i is not None else fn.name, "%s [%s]" % (msg, t), fn=fn.name, kind=kind)
        def strs(F, w, i, av, mem, ev): return 1          # the output is not standard output
        mem = None
        F = Files(ctx, P, models={"strcmp": strs})
        if S["write_header"] is not None:
            w, res = F.run(S["write_header"], {0: O("priv"), 1: O("name"), 2: O("par"), 3: O("fps")})
            for ev, v, m in res:
                ctx.count("obligations")
                if not isinstance(v, int): report(S["write_header"], "open", "the result of opening an output is not known"); continue
                bad = note(ev); opened = [e[2] for k, e in enumerate(ev) if e[0] == "opened" and ev[k + 1][2] != 0]; closed = [e[2] for e in ev if e[0] == "closed"]
                if bad and v >= 0: report(S["write_header"], "open", "opening an output succeeds although %s" % bad)
                if v < 0 and any(closed.count(f) != 1 for f in opened): report(S["write_header"], "release", "opening an output fails and leaves the file open")
                if v < 0 and not bad: report(S["write_header"], "open", "an output cannot be opened")
                if v >= 0 and closed: report(S["write_header"], "release", "an output is closed as soon as it is opened")
                if v >= 0 and not bad: mem = m
            if mem is None: return
            if S["verify"] is not None: verify(ctx, P, S["verify"], mem.copy(), report, " when no picture was written")
        F = Files(ctx, P, models={"strcmp": strs})
        put = lambda o, p, v: F.cells.__setitem__((("obj", o), L.off({"pic": "Dav1dPicture", "seq": "Dav1dSequenceHeader", "hdr": "Dav1dFrameHeader"}[o], p)), v)
        for p, v in (("p.w", w_), ("p.h", h_), ("p.layout", layout), ("p.bpc", bpc), ("seq_hdr", O("seq")), ("frame_hdr", O("hdr"))): put("pic", p, v)
        st = [-4096, -2048] if neg else [4096, 2048]
        for k in range(3): put("pic", "data[%d]" % k, ("ptr", ("obj", "plane%d" % k), 0) if k == 0 or layout else 0)
        put("pic", "stride[0]", st[0]); put("pic", "stride[1]", st[1] if layout else 0)
        put("seq", "hbd", {8: 0, 10: 1, 12: 2}[bpc]); put("seq", "chr", 0); put("hdr", "render_width", w_); put("hdr", "render_height", h_)
        f = S["write_picture"]
        w, res = F.run(f, {0: O("priv"), 1: O("pic")}, mem)
        if not res: report(f, "write", "writing a picture cannot be completed")
        want = rows(w_, h_, layout, bpc)
        what = "%dx%d, %s, %d bits" % (w_, h_, ("4:0:0", "4:2:0", "4:2:2", "4:4:4")[layout], bpc)
        for ev, v, m in res:
            ctx.count("obligations", 3); ctx.count("pictures_written")
            bad = note(ev)
            for i, x in w.nulls(ev): report(f, "write", "a null pointer is %s (%s)" % (x, what), i)
            if not isinstance(v, int): report(f, "write", "the result of writing is not known"); continue
            n = sum(1 for e in ev if e[0] == "unref" and e[2] == O("pic"))
            if n != 1: report(f, "release", "a picture is released %d times when it is written%s" % (n, " and %s" % bad if bad else ""))
            gone = False
            for e in ev:
                if e[0] == "unref": gone = True
                if gone and (e[0] in ("wrote", "hashed", "copy") and w.ptr(e[2 if e[0] != "copy" else 3]) and e[2 if e[0] != "copy" else 3][1][1].__class__ is str and str(e[2 if e[0] != "copy" else 3][1][1]).startswith("plane")):
                    report(f, "release", "the samples of a picture are read after it was released", e[1])
            if bad:
                if v >= 0: report(f, "write", "writing succeeds although %s" % bad)
                continue
            if v < 0: report(f, "write", "a picture is not written (%s)" % what); continue
            if t == "null_muxer": continue
            got = []
            for e in ev:
                src, n = (e[2], e[3]) if e[0] in ("wrote", "hashed") else (e[3], e[4]) if e[0] == "copy" else (None, None)
                if not w.ptr(src) or src[1][0] != "obj" or not str(src[1][1]).startswith("plane"): continue
                if src[2] is None or not isinstance(n, int): report(f, "write", "an unknown part of a picture is written (%s)" % what, e[1]); got = None; break
                if got and got[-1][0] == src[1][1] and got[-1][1] + got[-1][2] == src[2]: got[-1] = (got[-1][0], got[-1][1], got[-1][2] + n)
                else: got.append((src[1][1], src[2], n))
            if got is None: continue
            exp = [("plane%d" % pl, y * st[1 if pl else 0], n) for pl, y, n in want]
            if got != exp:
                k = next((k for k in range(min(len(got), len(exp))) if got[k] != exp[k]), min(len(got), len(exp)))
                report(f, "write", "what is written of a picture is not its visible rows: %s instead of %s (%s)" % (got[k] if k < len(got) else "nothing more", exp[k] if k < len(exp) else "nothing", what))
        if S["write_trailer"] is not None and mem is not None:
            F = Files(ctx, P, fault=False)
            w, res = F.run(S["write_trailer"], {0: O("priv")}, mem)
            for ev, v, m in res:
                if sum(1 for e in ev if e[0] == "closed") != 1: report(S["write_trailer"], "release", "an output file is not closed once")
        if S["verify"] is not None and mem is not None: verify(ctx, P, S["verify"], mem, report)
    def make():
        for t in tables:
            for layout in range(4):
                for bpc in (8, 10, 12):
                    for w_, h_, neg in ((6, 4, False), (5, 3, False), (7, 5, True), (1, 1, False), (70, 2, False)):
                        if t in ("md5_muxer",) and (w_, h_) in ((7, 5),) and bpc == 12: continue
                        yield t, layout, bpc, w_, h_, neg
    parallel(ctx, make, case)

def verify(ctx, P, f, mem, report, tail=""):
    for r in (0, 1, -1):
        F = Files(ctx, P, fault=False, models={"memcmp": lambda F, w, i, av, mem, ev: r, "strlen": lambda F, w, i, av, mem, ev: 32, "XXH_INLINE_XXH128_isEqual": lambda F, w, i, av, mem, ev: int(r == 0)})
        w, res = F.run(f, {0: O("priv"), 1: O("text")}, mem)
        for ev, v, m in res:
            ctx.count("obligations")
            if r == 0: continue
            if not any(e[0] == "alt" for e in ev) and not failed(v): report(f, "verify", "a checksum that differs is accepted" + tail)

# ------------------------------------------------------------------ the layers above
def outputs(ctx, P):
    """output.c: chooses the muxer, opens, writes and closes one file or one per picture"""
    L = Lay(P)
    for x in ("output_open", "output_write", "output_close", "output_verify"): ctx.require(P.fn(x) is not None, x + " is gone")
    def tell(f, kind, msg): ctx.violation(f.name, msg, fn=f.name, kind=kind)
    impl = lambda F, w, m: w.read(m, O("ctx", L.off("MuxerContext", "impl")), "ptr")
    f = P.fn("output_open")
    for name, fname, want in ((None, "a.yuv", "yuv_muxer"), (None, "x/b.y4m", "y4m2_muxer"), (None, "a.md5", "md5_muxer"), (None, "/dev/null", "null_muxer"), (None, "a.xyz", None), (None, "abc", None), ("md5", "-", "md5_muxer"),
                              ("frameyuv", "f%3n.yuv", "yuv_muxer"), (None, "f%n.yuv", "yuv_muxer"), ("yuv", "f%n.yuv", "yuv_muxer"), ("bogus", "a.yuv", None), ("framebogus", "a.yuv", None)):
        per = bool(name and name.startswith("frame")) or name is None and "%" in fname
        heads = []
        def head(F, w, i, av, mem, ev):
            ev.append(("head", i)); return ("alts", [(0, None), (-1, "the output cannot be opened")] if F.can(ev, "open") else [(0, None)])
        F = Files(ctx, P, models={s: head for s in ("yuv_open", "y4m2_open", "md5_open", "xxh3_open")})
        for t in ("yuv_muxer", "y4m2_muxer", "md5_muxer", "null_muxer"):
            S = slots(P, t, ("write_header",))
            if S["write_header"] is not None: F.models[S["write_header"].name] = head
        a1 = F.string("muxname", name) if name else 0
        F.cells[(("obj", "fps"), 0)] = 25; F.cells[(("obj", "fps"), 4)] = 1
        w, res = F.run(f, {0: O("where"), 1: a1, 2: F.string("filename", fname), 3: O("par"), 4: O("fps")})
        tag = "%s to %s" % (name or "no format named", fname)
        if not res: tell(f, "open", "an output cannot be opened [%s]" % tag)
        for ev, v, mem in res:
            ctx.count("obligations", 2)
            bad = note(ev); al = [e[2] for k, e in enumerate(ev) if e[0] == "alloc" and ev[k + 1][2] != 0]; fr = [e[2] for e in ev if e[0] == "free" and e[2] != 0]
            if not isinstance(v, int): tell(f, "open", "the result of opening an output is not known [%s]" % tag); continue
            if (bad or want is None) and v >= 0: tell(f, "open", "opening an output succeeds although %s [%s]" % (bad or "there is no such format", tag))
            if v < 0 and sorted(al) != sorted(fr): tell(f, "release", "a failing open keeps its memory or releases it twice [%s]" % tag)
            if v < 0 and not bad and want: tell(f, "open", "an output cannot be opened [%s]" % tag)
            if v >= 0 and want:
                c = w.read(mem, O("where"), "ptr")
                if not w.ptr(c) or c not in al or fr: tell(f, "open", "an output is opened without a context [%s]" % tag); continue
                g = w.read(mem, ("ptr", c[1], c[2] + L.off("MuxerContext", "impl")), "ptr")
                if g != ("ptr", ("g", want), 0): tell(f, "open", "another format than the one asked for is written [%s]" % tag)
                n = sum(1 for e in ev if e[0] == "head")
                if n != (0 if per or want == "null_muxer" else 1): tell(f, "open", "the output file is opened %d times at the start [%s]" % (n, tag))
                o = w.read(mem, ("ptr", c[1], c[2] + L.off("MuxerContext", "one_file_per_frame")), "i32")
                if not isinstance(o, int) or bool(o) != per: tell(f, "open", "an output is not written to %s [%s]" % ("one file per picture" if per else "one file", tag))
    # writing and closing
    def slot(n, alts):
        def m(F, w, i, av, mem, ev):
            ev.append((n, i, av)); r = alts(F, ev)
            return r
        return m
    for per in (0, 1):
        for have in ((1, 1), (0, 0)):
            M = {"s_head": slot("head", lambda F, ev: ("alts", [(0, None), (-1, "the output cannot be opened")])), "s_write": slot("write", lambda F, ev: ("alts", [(0, None), (-1, "a write fails")])),
                 "s_trail": slot("trail", lambda F, ev: 0), "s_verify": slot("verify", lambda F, ev: ("alts", [(0, None), (1, "the checksum differs"), (-1, "the checksum is malformed")]))}
            F = Files(ctx, P, models=M)
            put = lambda p, v: F.cells.__setitem__((("obj", "ctx"), L.off("MuxerContext", p)), v)
            put("data", O("priv")); put("impl", O("impl")); put("one_file_per_frame", per); put("filename", F.string("filename", "f%3n.yuv")); put("framenum", 0)
            for m, v in (("write_header", "s_head"), ("write_picture", "s_write"), ("write_trailer", "s_trail"), ("verify", "s_verify")):
                F.cells[(("obj", "impl"), L.off("Muxer", m))] = ("ptr", ("g", v), 0) if m == "write_picture" or have[0] else 0
            F.models["snprintf"] = lambda F, w, i, av, mem, ev: mem.store(av[0], 0) or 0
            for fn, args in (("output_write", {0: O("ctx"), 1: O("pic")}), ("output_close", {0: O("ctx")}), ("output_verify", {0: O("ctx"), 1: O("text")})):
                f = P.fn(fn)
                w, res = F.run(f, args)
                if not res: tell(f, "write", "%s cannot be completed" % fn)
                for ev, v, mem in res:
                    ctx.count("obligations", 2)
                    n = {k: sum(1 for e in ev if e[0] == k) for k in ("head", "write", "trail", "verify")}; bad = note(ev)
                    order = [e[0] for e in ev if e[0] in n]
                    fr = [e[2] for e in ev if e[0] == "free"]
                    if fn == "output_write":
                        if not isinstance(v, int): tell(f, "write", "the result of writing is not known"); continue
                        if bad and v >= 0: tell(f, "write", "writing succeeds although %s" % bad)
                        if not bad:
                            want = (["head"] if per and have[0] else []) + ["write"] + (["trail"] if per and have[1] else [])
                            if order != want: tell(f, "write", "writing a picture to %s does not open, write and close in turn (%s)" % ("a file of its own" if per else "the file", ", ".join(order)))
                            if v < 0: tell(f, "write", "writing fails although nothing went wrong")
                        elif "write" in order and "opened" in bad: tell(f, "write", "a picture is written although its file could not be opened")
                        if fr: tell(f, "release", "writing a picture releases the output")
                    elif fn == "output_close":
                        if n["trail"] != (1 if not per and have[1] else 0): tell(f, "release", "closing the output ends its file %d times" % n["trail"])
                        if fr != [O("ctx")]: tell(f, "release", "closing the output does not release it once")
                    else:
                        if bad and not failed(v): tell(f, "verify", "verification succeeds although %s" % bad)
                        if have[0] and n["verify"] != 1: tell(f, "verify", "the checksum is not compared")
                        if not bad and v != 0: tell(f, "verify", "verification fails although the checksum matches")
                        if fr != [O("ctx")]: tell(f, "release", "verification does not release the output once")

def inputs(ctx, P):
    """input.c: probes and opens"""
    L = Lay(P)
    for x in ("input_open", "input_close", "input_read"): ctx.require(P.fn(x) is not None, x + " is gone")
    f = P.fn("input_open")
    def tell(kind, msg, g=f): ctx.violation(g.name, msg, fn=g.name, kind=kind)
    tables = ("ivf_demuxer", "annexb_demuxer", "section5_demuxer")
    for name, want in ((None, 0), (None, 1), (None, 2), (None, None), ("ivf", 0), ("section5", 2), ("annexb", 1), ("bogus", None)):
        M = {}
        def opener(F, w, i, av, mem, ev): ev.append(("demux", i)); return ("alts", [(0, None), (-1, "the demuxer cannot open the file")] if F.can(ev, "open") else [(0, None)])
        for k, t in enumerate(tables):
            S = slots(P, t, ("open", "probe"))
            M[S["open"].name] = opener
            M[S["probe"].name] = (lambda k: lambda F, w, i, av, mem, ev: int(k == want))(k)
        F = Files(ctx, P, bytes(3000), models=M)
        w, res = F.run(f, {0: O("where"), 1: F.string("demux", name) if name else 0, 2: O("name"), 3: O("fps"), 4: O("num"), 5: O("tb")})
        tag = name or ("a file of unknown kind" if want is None else "probing finds " + tables[want][:-8])
        if not res: tell("open", "opening cannot be completed [%s]" % tag)
        for ev, v, mem in res:
            ctx.count("obligations", 2)
            bad = note(ev)
            al = [e[2] for k, e in enumerate(ev) if e[0] == "alloc" and ev[k + 1][2] != 0]; fr = [e[2] for e in ev if e[0] == "free" and e[2] != 0]
            op = [e[2] for k, e in enumerate(ev) if e[0] == "opened" and ev[k + 1][2] != 0]; cl = [e[2] for e in ev if e[0] == "closed"]
            if not isinstance(v, int): v = -1 if any(e[0] == "call" and e[1].callee == "__errno_location" for e in ev) else None        # the error code is whatever errno holds
            if v is None: tell("open", "the result of opening is not known [%s]" % tag); continue
            if (bad or want is None) and v >= 0: tell("open", "opening succeeds although %s [%s]" % (bad or "the file is of no known kind", tag))
            if sorted(op) != sorted(cl): tell("release", "the file opened for probing is left open or closed twice [%s]" % tag)
            c = w.read(mem, O("where"), "ptr")
            keep = [c] if v >= 0 and w.ptr(c) else []
            if sorted(al) != sorted(fr + keep): tell("release", "memory is %s when opening [%s]" % ("leaked" if len(al) > len(fr + keep) else "released twice", tag))
            if v >= 0 and want is not None:
                g = w.read(mem, ("ptr", c[1], c[2] + L.off("DemuxerContext", "impl")), "ptr") if keep else None
                if g != ("ptr", ("g", tables[want]), 0): tell("open", "another demuxer than the one asked for is used [%s]" % tag)
                if sum(1 for e in ev if e[0] == "demux") != 1: tell("open", "the demuxer is not opened once [%s]" % tag)
            if v < 0 and not bad and want is not None: tell("open", "a file cannot be opened [%s]" % tag)
    for fn, member in (("input_read", "read"), ("input_close", "close")):
        g = P.fn(fn)
        def m(F, w, i, av, mem, ev): ev.append(("slot", i)); return ("alts", [(0, None), (-1, "reading fails")]) if member == "read" else 0
        F = Files(ctx, P, models={"s": m})
        F.cells[(("obj", "ctx"), L.off("DemuxerContext", "impl"))] = O("impl"); F.cells[(("obj", "ctx"), L.off("DemuxerContext", "data"))] = O("priv"); F.cells[(("obj", "impl"), L.off("Demuxer", member))] = ("ptr", ("g", "s"), 0)
        w, res = F.run(g, {0: O("ctx"), 1: O("buf")})
        for ev, v, mem in res:
            ctx.count("obligations")
            if sum(1 for e in ev if e[0] == "slot") != 1: tell("read", "%s does not reach the demuxer once" % fn, g)
            if member == "read" and note(ev) and not failed(v): tell("read", "reading succeeds although the demuxer failed", g)
            if member == "close" and [e[2] for e in ev if e[0] == "free"] != [O("ctx")]: tell("release", "closing the input does not release it once", g)

EAGAIN, EINVAL, ENOMEM = -11, -22, -12

def tool(ctx, P):
    """main(): every failure reaches the exit status, every packet the decoder and every picture the output"""
    L = Lay(P); f = P.fn("main")
    ctx.require(f is not None, "main is gone")
    def one(c):
        skip, limit, verify, npk, noseq = c
        def alts(F, ev, good, *bads): return ("alts", good + [b for b in bads if F.can(ev, "open")])
        def parse(F, w, i, av, mem, ev):
            cli = av[2]
            mem.fill(cli, L.size("CLISettings"), 0)
            at = lambda p: ("ptr", cli[1], cli[2] + L.off("CLISettings", p))
            for p, v in (("outputfile", O("name")), ("inputfile", O("name")), ("demuxer", 0), ("muxer", 0), ("frametimes", 0), ("verify", O("sum") if verify else 0), ("limit", limit), ("skip", skip), ("quiet", 1), ("realtime", 0), ("realtime_cache", 0), ("neg_stride", 0)): mem.store(at(p), v)
            ev.append(("parsed", i)); return UNK
        def iopen(F, w, i, av, mem, ev):
            return alts(F, ev, [(0, None, ((av[0], O("in")), (av[3], 25), (("ptr", av[3][1], av[3][2] + 4), 1), (av[4], npk)))], (-1, "the input cannot be opened"))
        D = lambda a, m: ("ptr", a[1], a[2] + L.off("Dav1dData", m))
        def iread(F, w, i, av, mem, ev):
            n = sum(1 for e in ev if e[0] == "packet")
            ev.append(("iread", i, w.read(mem, D(av[1], "sz"), "i64")))
            if n >= npk: return -1
            ev.append(("packet", i, n))
            good = (0, None, ((D(av[1], "sz"), 10), (D(av[1], "data"), O("pk%d" % n)), (D(av[1], "ref"), O("pkref%d" % n))))
            first = n <= skip
            return alts(F, ev, [good], (-1, "a packet before the first cannot be read")) if first else good[0] if False else ("alts", [good])
        def unref(F, w, i, av, mem, ev):
            ev.append(("drop", i, w.read(mem, D(av[0], "data"), "ptr")))
            for m in ("sz", "data", "ref"): mem.store(D(av[0], m), 0)
            return UNK
        def seq(F, w, i, av, mem, ev): 
            ev.append(("seq", i)); return -1 if sum(1 for e in ev if e[0] == "seq") <= noseq else 0
        def dopen(F, w, i, av, mem, ev): return alts(F, ev, [(0, None, ((av[0], O("dec")),))], (ENOMEM, "the decoder cannot be opened"))
        def send(F, w, i, av, mem, ev):
            p = w.read(mem, D(av[1], "data"), "ptr"); ev.append(("send", i, p, w.read(mem, D(av[1], "sz"), "i64")))
            out = [(0, None, tuple((D(av[1], m), 0) for m in ("sz", "data", "ref")))]
            if sum(1 for e in ev if e[0] == "alt" and e[1].callee == i.callee and e[2] == EAGAIN) < 1: out.append((EAGAIN, None))
            if not any(e[0] == "alt" and e[2] == EINVAL for e in ev): out.append((EINVAL, None))
            return alts(F, ev, out, (ENOMEM, "sending a packet fails"))
        def get(F, w, i, av, mem, ev):
            n = sum(1 for e in ev if e[0] == "alt" and e[1].callee == i.callee and e[2] == 0)
            ev.append(("get", i))
            out = [(EAGAIN, None)]
            if n < 2: out.insert(0, (0, None))
            if not any(e[0] == "alt" and e[2] == EINVAL for e in ev): out.append((EINVAL, None))
            return alts(F, ev, out, (ENOMEM, "decoding fails"))
        def oopen(F, w, i, av, mem, ev): ev.append(("oopen", i)); return alts(F, ev, [(0, None, ((av[0], O("out")),))], (-1, "the output cannot be opened"))
        def owrite(F, w, i, av, mem, ev): ev.append(("owrite", i, av[0])); return alts(F, ev, [(0, None)], (-1, "a picture cannot be written"))
        def overify(F, w, i, av, mem, ev): ev.append(("overify", i)); return alts(F, ev, [(0, None)], (1, "the checksum differs"), (-1, "the checksum is malformed"))
        mark = lambda k: lambda F, w, i, av, mem, ev: ev.append((k, i, av[0])) or 0
        M = {"parse": parse, "input_open": iopen, "input_read": iread, "dav1d_data_unref": unref, "dav1d_parse_sequence_header": seq, "dav1d_open": dopen, "dav1d_send_data": send, "dav1d_get_picture": get,
             "output_open": oopen, "output_write": owrite, "output_verify": overify, "output_close": mark("oclose"), "input_close": mark("iclose"), "dav1d_close": mark("dclose"), "sigaction": lambda *a: 0, "signal": lambda *a: 0,
             "clock_gettime": lambda *a: 0, "nanosleep": lambda *a: 0, "dav1d_version": lambda *a: O("text"), "dav1d_version_api": lambda *a: UNK, "dav1d_get_event_flags": lambda *a: 0}
        F = Files(ctx, P, models=M)
        old = F.init
        def init(inst, a, ty):      # a variable of the tool keeps its initial value: no signal arrives
            if a[1][0] == "g" and a[2] == 0 and ty.startswith("i"):
                x = P.gv(a[1][1])
                if x is not None and not x.get("const") and x.get("init", "") in (0, None): return 0
            return old(inst, a, ty)
        F.init = init
        w, res = F.run(f, {0: 1, 1: O("argv")}, max_paths=20000)
        opts = "%s%s%s%d packets" % ("skip %d, " % skip if skip else "", "limit %d, " % limit if limit else "", "verify, " if verify else "", npk)
        def tell(kind, msg, i=None): ctx.violation(i.where() if i is not None else f.name, "%s [%s]" % (msg, opts), fn=f.name, kind=kind)
        if npk > skip + (noseq if skip else 0) and not any(any(e[0] == "get" for e in ev) for ev, v, m in res): tell("exit", "the tool never decodes"); return
        for ev, v, mem in res:
            if not any(e[0] == "parsed" for e in ev): continue
            ctx.count("obligations", 6); ctx.count("tool_runs")
            bad = note(ev)
            if not isinstance(v, int): tell("exit", "the exit status is not known"); continue
            # every picture goes to the output at once
            pend = False; lost = None; nw = 0; held = None; nopen = 0; order = []; refused = set()
            early = not any(e[0] == "dclose" for e in ev)
            for k, e in enumerate(ev):
                if e[0] == "alt" and e[1].callee == "dav1d_get_picture":
                    if pend: lost = e[1]
                    pend = e[2] == 0
                elif e[0] == "owrite":
                    if not pend: tell("picture", "the output is written without a new picture", e[1])
                    if not nopen: tell("picture", "a picture is written before the output is opened", e[1])
                    pend = False; nw += 1
                elif e[0] == "oopen": nopen += 1
                elif e[0] == "alt" and e[1].callee == "input_read" and e[2] == 0 or e[0] == "packet": pass
                elif e[0] == "iread":
                    if e[2] not in (0, UNK): tell("packet", "a packet is overwritten by the next one before it was sent or released", e[1])
                elif e[0] == "send":
                    if not e[3]: tell("packet", "an empty packet is sent", e[1])
                    order.append(e[2])
                    if e[2] in refused: tell("packet", "a packet that the decoder rejected is sent again", e[1])
                    if k + 1 < len(ev) and ev[k + 1][0] == "alt" and ev[k + 1][2] == EINVAL: refused.add(e[2])
                if nopen > 1: tell("picture", "the output is opened twice", e[1]); nopen = 1
            if (pend or lost) and not (bad and "output" in bad): tell("picture", "a decoded picture is not written", lost)
            if limit and nw > limit: tell("picture", "more pictures are written than asked for")
            got = [e[2] for e in ev if e[0] == "packet" and True]
            sent = []
            for p in order:
                if not sent or sent[-1] != p: sent.append(p)
            exp = [O("pk%d" % n) for n in range(skip + (noseq if skip else 0), npk)]
            if sent != exp[:len(sent)]: tell("packet", "packets are not sent in the order of the file")
            nopic = not any(e[0] == "alt" and e[1].callee == "dav1d_get_picture" and e[2] == 0 for e in ev)
            seen = sum(1 for e in ev if e[0] == "packet")
            first = seen <= skip + (noseq if skip else 0)
            if bad or nopic or first:
                if v == 0: tell("exit", "the tool exits with success although %s" % (bad or "nothing was decoded"))
            elif v != 0: tell("exit", "the tool exits with failure although nothing went wrong")
            if not bad and not first:
                if len(sent) < len(exp) and not (limit and nw >= limit): tell("packet", "the tool ends before every packet was sent")
                last = [e for e in ev if e[0] == "alt" and e[1].callee == "dav1d_get_picture"][-1:]
                if last and last[0][2] != EAGAIN and not (limit and nw >= limit): tell("picture", "the tool ends before every picture was fetched")
            if not early:
                for k, nm in (("iclose", "input"), ("dclose", "decoder")):
                    if sum(1 for e in ev if e[0] == k) != 1: tell("release", "the %s is not closed once" % nm)
                n = {k: sum(1 for e in ev if e[0] == k) for k in ("oclose", "overify")}
                if nopen and (n["overify"] != (1 if verify else 0) or n["oclose"] != (0 if verify else 1)): tell("release", "the output is not %s once at the end" % ("verified" if verify else "closed"))
                left = {O("pk%d" % x) for x in got} - {e[2] for e in ev if e[0] == "drop"} - {e[2] for k, e in enumerate(ev) if e[0] == "send" and any(x[0] == "alt" and x[1] is e[1] and x[2] == 0 for x in ev[k + 1:k + 2])}
                if left: tell("packet", "a packet is never released")
    parallel(ctx, lambda: [(s, l, v, n, q) for s in (0, 1) for l in (0, 1, 2) for v in (0, 1) for n in (0, 1, 2, 3) for q in ((0, 1) if s else (0,))], one)

def run(ctx):
    ctx.rule = ("The tool's functions are evaluated by constant propagation with the C library and the layer below as opaque steps, one of which fails on each path. (1) Demuxers, whatever the file holds: a failing open, seek or read "
                "and a file that ends inside a packet make opening or reading fail, a packet that was allocated is released then and only then, and files are closed. (2) Demuxers on files of known layout, whole, cut at every byte and with "
                "sizes that do not fit: exactly the packets the format defines are delivered, each from its own bytes. (3) Muxers: on success exactly the visible rows of each plane are written in order, a failing write "
                "fails the picture, which is released once; a differing checksum is reported. (4) input.c and output.c: the right component is chosen, failures are passed on, memory and files are released. (5) main(): every failure to open, to read "
                "the first packet, to decode fatally, to write or to verify reaches the exit status, and nothing else does; every packet is sent or released once, in order; every picture is written once.")
    ctx.assumptions += ["stdio, malloc and the decoder behave as documented", "a file that ends early or cannot be read further ends the stream: demuxers do not tell the two apart", "failures that stdio reports only when a file is closed are not covered"]
    P = ctx.prog(units=front.tool_units(), inline_static=False)
    any_content(ctx, P)
    demuxers(ctx, P)
    muxers(ctx, P)
    outputs(ctx, P)
    inputs(ctx, P)
    tool(ctx, P)
