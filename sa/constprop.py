"""Constant propagation with loop enumeration: a value is an int, ('ptr', base, byte offset or None) or None (unknown).
Branches on unknown values are followed both ways.  Nothing of the program is executed; stores and copies are only recorded."""
from ir import *

class Limit(Exception): pass

def wrap(n, ty):
    if ty == "i1": return n & 1
    if ty.startswith("i") and ty[1:].isdigit():
        b = int(ty[1:]); n &= (1 << b) - 1
        return n - (1 << b) if n >> (b - 1) else n
    return n

def uns(n, ty):
    b = int(ty[1:]) if ty.startswith("i") and ty[1:].isdigit() else 64
    return n & ((1 << b) - 1)

class CP:
    def __init__(self, prog, load=None, call=None, max_steps=4000000, max_paths=64):
        self.P = prog; self.loadcb = load; self.callcb = call; self.max = max_steps; self.max_paths = max_paths
    def val(self, env, v):
        if isinstance(v, list):
            if v[0] == "c": return v[1]
            if v[0] == "n": return 0
            if v[0] == "g": return ("ptr", ("g", v[1]), 0)
            if v[0] == "cg":
                b = self.val(env, v[1]); return self.gep(env, b, v[2])
            if v[0] == "cast": return self.val(env, v[2])
            return None
        return env.get(v)
    def gep(self, env, b, x):
        if not (isinstance(b, tuple) and b[0] == "ptr"): return None
        off = b[2]
        for e in x:
            if off is None: break
            if e[0] == "f": off += e[3]
            else:
                n = self.val(env, e[1])
                off = off + n * e[2] if isinstance(n, int) else None
        return ("ptr", b[1], off)
    def run(self, f, args):
        """list of (events, return value) for every path; events: ('store', inst, addr, value) / ('call', inst, args)"""
        self.steps = 0
        out = []
        work = [(0, None, dict(args), [], {})]
        while work:
            bi, pb, env, ev, mem = work.pop()
            while True:
                blk = f.blocks[bi]
                phis = {}
                for i in blk:
                    if i.op != "phi": break
                    for v, p in zip(i.a, i.x):
                        if p == pb: phis[i.id] = self.val(env, v); break
                    else: phis[i.id] = None
                env.update(phis)
                nxt = None
                for i in blk:
                    if i.op == "phi": continue
                    self.steps += 1
                    if self.steps > self.max: raise Limit(f.name)
                    op = i.op
                    if op == "br":
                        if len(i.x) == 1: nxt = i.x[0]
                        else:
                            c = self.val(env, i.a[0])
                            if isinstance(c, int): nxt = i.x[0] if c & 1 else i.x[1]
                            else: nxt = ("fork", list(i.x))
                    elif op == "switch":
                        c = self.val(env, i.a[0])
                        if isinstance(c, int):
                            nxt = i.x[0]
                            for k, t in i.x[1:]:
                                if k == c: nxt = t
                        else: nxt = ("fork", [i.x[0]] + [t for _, t in i.x[1:]])
                    elif op == "ret":
                        out.append((ev, self.val(env, i.a[0]) if i.a else None)); nxt = None; break
                    elif op == "unreachable": nxt = None; break
                    elif op == "store":
                        a = self.val(env, i.a[1]); v = self.val(env, i.a[0])
                        ev.append(("store", i, a, v))
                        if a is not None and a[0] == "ptr" and isinstance(a[1], tuple) and a[1][0] == "al": mem[(a[1], a[2])] = v
                    elif op == "load":
                        a = self.val(env, i.a[0]); r = None
                        if isinstance(a, tuple) and isinstance(a[1], tuple) and a[1][0] == "al": r = mem.get((a[1], a[2]))
                        elif self.loadcb: r = self.loadcb(i, a)
                        env[i.id] = r
                    elif op == "call":
                        av = [self.val(env, x) for x in i.a]
                        ev.append(("call", i, av))
                        r = self.callcb(i, av) if self.callcb else None
                        if i.ty != "void": env[i.id] = r
                    else:
                        env[i.id] = self.ev(env, i, f)
                if nxt is None: break
                if isinstance(nxt, tuple):
                    ts = list(dict.fromkeys(nxt[1]))
                    for t in ts[1:]:
                        if len(work) + len(out) > self.max_paths: raise Limit(f.name)
                        work.append((t, bi, dict(env), list(ev), dict(mem)))
                    nxt = ts[0]
                pb, bi = bi, nxt
        return out
    def ev(self, env, i, f=None):
        op, ty = i.op, i.ty
        if op == "getelementptr": return self.gep(env, self.val(env, i.a[0]), i.x)
        if op == "alloca": return ("ptr", ("al", i.id), 0)
        if op in ("bitcast", "freeze", "inttoptr", "ptrtoint"): return self.val(env, i.a[0])
        a = [self.val(env, v) for v in i.a]
        if op == "select":
            if isinstance(a[0], int): return a[1] if a[0] & 1 else a[2]
            return a[1] if a[1] == a[2] else None
        if op == "icmp":
            if not all(isinstance(x, int) for x in a): return None
            p = i.x if isinstance(i.x, str) else i.x[0]
            x, y = a
            if p[0] == "u": x, y = x & (2**64 - 1), y & (2**64 - 1)
            return int({"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
                        "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[p])
        if op == "zext":
            return uns(a[0], i.x if isinstance(i.x, str) else i.x[0]) if isinstance(a[0], int) else None
        if op == "sext": 
            if not isinstance(a[0], int): return None
            return -(a[0] & 1) if i.x == "i1" else a[0]
        if op == "trunc": return wrap(a[0], ty) if isinstance(a[0], int) else None
        if op in ("and",) and any(isinstance(x, int) and x == 0 for x in a): return 0
        if not all(isinstance(x, int) for x in a) or len(a) != 2: return None
        x, y = a
        try:
            if op == "add": return wrap(x + y, ty)
            if op == "sub": return wrap(x - y, ty)
            if op == "mul": return wrap(x * y, ty)
            if op == "and": return wrap(x & y, ty)
            if op == "or": return wrap(x | y, ty)
            if op == "xor": return wrap(x ^ y, ty)
            if op == "shl": return wrap(x << y, ty)
            if op == "lshr": return wrap(uns(x, ty) >> y, ty)
            if op == "ashr": return wrap(x >> y, ty)
            if op == "udiv": return wrap(uns(x, ty) // uns(y, ty), ty)
            if op == "urem": return wrap(uns(x, ty) % uns(y, ty), ty)
            if op == "sdiv": return wrap(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), ty)
            if op == "srem": return wrap(abs(x) % abs(y) * (-1 if x < 0 else 1), ty)
        except (ZeroDivisionError, ValueError): return None
        return None
