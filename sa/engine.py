"""Path-sensitive abstract interpreter over the exported IR (property simulation in the style of ESP).

Values are hash-consed terms over symbols; numeric knowledge is intervals (and excluded constants); memory is a
map from access paths to terms.  States reaching a block are merged unless the rule's key differs.  There is no
solver: branch conditions refine intervals and record truth of syntactically identical conditions only."""
from ir import *
import sys, time

INF = float("inf")
MAXDEPTH = 7

def C(n): return ("c", n)
NULL = ("c", 0)

def depth(t):
    if t[0] in ("c", "v"): return 0
    d = 0
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("c", "v", "a", "op", "cmp", "not", "z", "sx", "tr", "+", "g", "al"):
            d = max(d, depth(x))
    return d + 1

_syms_cache = {}
def syms(t):
    """set of symbols in a term"""
    if t[0] == "v": return frozenset((t,))
    if t[0] in ("c", "g", "al", "fp"): return frozenset()
    r = _syms_cache.get(t)
    if r is None:
        s = set()
        if t[0] == "a":
            s |= syms(t[1])
            for e in t[2]:
                if isinstance(e, tuple): s |= syms(e[1])
        else:
            for x in t[1:]:
                if isinstance(x, tuple) and x: s |= syms(x)
        r = _syms_cache[t] = frozenset(s)
    return r

def bits_of(ty):
    if ty == "ptr": return 64
    if ty.startswith("i"):
        try: return int(ty[1:])
        except ValueError: return 0
    return 0

def wrap(n, bits):
    if bits <= 0: return n
    n &= (1 << bits) - 1
    if bits > 1 and n >> (bits - 1): n -= 1 << bits
    return n

def rng_of_bits(bits):
    if bits <= 0: return (-INF, INF)
    if bits == 1: return (0, 1)
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)

class State:
    __slots__ = ("env", "mem", "facts", "ne", "zero", "r", "esc", "trace")
    def __init__(self):
        self.env = {}; self.mem = {}; self.facts = {}; self.ne = {}; self.zero = {}; self.r = {}; self.esc = frozenset(); self.trace = ()
    def copy(self):
        s = State()
        s.env = dict(self.env); s.mem = dict(self.mem); s.facts = dict(self.facts); s.ne = dict(self.ne)
        s.zero = dict(self.zero); s.r = dict(self.r); s.esc = self.esc; s.trace = self.trace
        return s
    def same(self, o):
        return self.env == o.env and self.mem == o.mem and self.facts == o.facts and self.ne == o.ne and self.zero == o.zero and self.r == o.r and self.esc == o.esc

class Budget(Exception):
    pass

# ---------------------------------------------------------------- ranges
class Ranges:
    """interval reasoning over terms"""
    def rng(self, st, t, d=0):
        k = t[0]
        if k == "c":
            return (t[1], t[1])
        f = st.facts.get(t)
        if k == "v":
            return f if f else self.default_rng(t)
        if k in ("a", "g", "al"):
            return f if f else (1, INF)
        if k == "fp": return (-INF, INF)
        r = self.derive(st, t, d)
        if f:
            r = (max(r[0], f[0]), min(r[1], f[1]))
        return r
    symbits = {}
    def default_rng(self, t):
        b = t[2] if len(t) > 2 else 0
        if b == "ptr": return (0, INF)
        return rng_of_bits(b) if b else (-INF, INF)
    def derive(self, st, t, d):
        k = t[0]
        if d > 8: return (-INF, INF)
        if k == "z":      # zext from bits
            r = self.rng(st, t[2], d + 1)
            full = (0, (1 << t[1]) - 1)
            if r[0] >= 0: return (max(r[0], 0), min(r[1], full[1]))
            if r[1] < 0 and r[0] > -INF: return (r[0] + (1 << t[1]), r[1] + (1 << t[1]))
            return full
        if k == "sx":
            r = self.rng(st, t[2], d + 1); f = rng_of_bits(t[1])
            if t[1] == 1: return (-1, 0)
            return (max(r[0], f[0]), min(r[1], f[1]))
        if k == "tr":
            r = self.rng(st, t[2], d + 1); f = rng_of_bits(t[1])
            if r[0] >= f[0] and r[1] <= f[1]: return r
            if t[1] > 1 and r[0] >= 0 and r[1] < (1 << t[1]) and False: return (r[0], r[1])
            return f
        if k == "not":
            r = self.rng(st, t[1], d + 1)
            return (1 - r[1], 1 - r[0]) if 0 <= r[0] and r[1] <= 1 else (0, 1)
        if k == "cmp":
            v = self.cmpval(st, t, d + 1)
            return (0, 1) if v is None else (int(v), int(v))
        if k == "+":      # ('+', bits, x, c)
            r = self.rng(st, t[2], d + 1)
            lo, hi = r[0] + t[3], r[1] + t[3]
            f = rng_of_bits(t[1])
            if lo >= f[0] and hi <= f[1]: return (lo, hi)
            return f
        if k == "op":
            op, b, x, y = t[1], t[2], t[3], t[4]
            rx, ry = self.rng(st, x, d + 1), self.rng(st, y, d + 1)
            f = rng_of_bits(b)
            lo, hi = f
            if op == "and":
                if ry[0] >= 0 and ry[1] < INF:
                    lo, hi = 0, ry[1]
                    if rx[0] >= 0: hi = min(hi, rx[1])
                elif rx[0] >= 0 and rx[1] < INF: lo, hi = 0, rx[1]
            elif op == "or":
                if rx[0] >= 0 and ry[0] >= 0 and rx[1] < INF and ry[1] < INF:
                    m = int(max(rx[1], ry[1])).bit_length()
                    lo, hi = max(rx[0], ry[0]), (1 << m) - 1
                elif (rx[1] < 0 or ry[1] < 0): lo, hi = f[0], -1
            elif op == "xor":
                if rx[0] >= 0 and ry[0] >= 0 and rx[1] < INF and ry[1] < INF:
                    m = int(max(rx[1], ry[1])).bit_length()
                    lo, hi = 0, (1 << m) - 1
            elif op == "add": lo, hi = rx[0] + ry[0], rx[1] + ry[1]
            elif op == "sub": lo, hi = rx[0] - ry[1], rx[1] - ry[0]
            elif op == "mul":
                if all(abs(z) < INF for z in rx + ry):
                    c = [a * e for a in rx for e in ry]; lo, hi = min(c), max(c)
            elif op == "shl":
                if ry[0] == ry[1] and 0 <= ry[0] < 64 and abs(rx[0]) < INF and abs(rx[1]) < INF:
                    lo, hi = rx[0] * (1 << int(ry[0])), rx[1] * (1 << int(ry[0]))
                elif rx[0] >= 0 and ry[0] >= 0 and ry[1] < 64 and rx[1] < INF:
                    lo, hi = int(rx[0]) << int(ry[0]), int(rx[1]) << int(ry[1])
            elif op in ("lshr", "ashr"):
                if ry[0] >= 0 and ry[1] < 64:
                    if rx[0] >= 0:
                        lo = 0 if rx[0] == 0 else int(rx[0]) >> int(ry[1])
                        hi = rx[1] if rx[1] == INF else int(rx[1]) >> int(ry[0])
                    elif op == "ashr" and abs(rx[0]) < INF and abs(rx[1]) < INF:
                        c = [int(a) >> int(e) for a in rx for e in ry]; lo, hi = min(c), max(c)
                    elif op == "lshr" and ry[0] > 0: lo, hi = 0, (1 << (b - int(ry[0]))) - 1
            elif op == "udiv":
                if rx[0] >= 0 and ry[0] > 0: lo, hi = 0 if rx[0] < ry[1] else rx[0] // ry[1], rx[1] if rx[1] == INF else rx[1] // ry[0]
            elif op == "sdiv":
                if rx[0] >= 0 and ry[0] > 0: lo, hi = 0, rx[1] if rx[1] == INF else rx[1] // ry[0]
            elif op == "urem":
                if ry[0] > 0 and ry[1] < INF: lo, hi = 0, ry[1] - 1
            elif op == "srem":
                if ry[0] > 0 and ry[1] < INF: lo, hi = (0 if rx[0] >= 0 else -(ry[1] - 1)), ry[1] - 1
            elif op == "smin": lo, hi = min(rx[0], ry[0]), min(rx[1], ry[1])
            elif op == "smax": lo, hi = max(rx[0], ry[0]), max(rx[1], ry[1])
            elif op == "umin" and rx[0] >= 0 and ry[0] >= 0: lo, hi = min(rx[0], ry[0]), min(rx[1], ry[1])
            elif op == "umax" and rx[0] >= 0 and ry[0] >= 0: lo, hi = max(rx[0], ry[0]), max(rx[1], ry[1])
            elif op == "abs":
                if rx[0] >= 0: lo, hi = rx
                else: lo, hi = 0, max(abs(rx[0]), abs(rx[1]))
            if lo < f[0] or hi > f[1]:
                # unsigned interpretation overflow wraps: give up
                return f
            return (lo, hi)
        if k == "sel":
            a, b2 = self.rng(st, t[2], d + 1), self.rng(st, t[3], d + 1)
            return (min(a[0], b2[0]), max(a[1], b2[1]))
        return (-INF, INF)
    def cmpval(self, st, t, d=0):
        """truth of ('cmp', pred, bits, a, b) or None"""
        f = st.facts.get(t)
        if f and f[0] == f[1]: return bool(f[0])
        _, p, bits, a, b = t
        if a == b: return p == "eq"
        ra, rb = self.rng(st, a, d), self.rng(st, b, d)
        if p == "eq":
            if ra[1] < rb[0] or rb[1] < ra[0]: return False
            if ra[0] == ra[1] == rb[0] == rb[1]: return True
            if b[0] == "c" and b[1] in st.ne.get(a, ()): return False
            if a[0] == "c" and a[1] in st.ne.get(b, ()): return False
            # distinct objects / same base different constant path
            if a[0] == "al" and b[0] == "al": return False
            return None
        if p == "slt":
            if ra[1] < rb[0]: return True
            if ra[0] >= rb[1]: return False
            return None
        if p == "ult":
            ua, ub = self.uns(ra, bits), self.uns(rb, bits)
            if ua[1] < ub[0]: return True
            if ua[0] >= ub[1]: return False
            # a <u b  and  b==0
            return None
        return None
    def uns(self, r, bits):
        if r[0] >= 0: return r
        if r[1] < 0 and r[0] > -INF and bits: return (r[0] + (1 << bits), r[1] + (1 << bits))
        return (0, (1 << bits) - 1 if bits else INF)
    def truth(self, st, t):
        """truth value of an i1 term"""
        if t[0] == "c": return bool(t[1])
        if t[0] == "not":
            v = self.truth(st, t[1]); return None if v is None else not v
        if t[0] == "cmp": return self.cmpval(st, t)
        f = st.facts.get(t)
        if f and f[0] == f[1]: return bool(f[0])
        if t[0] == "op" and t[1] in ("and", "or"):
            x, y = self.truth(st, t[3]), self.truth(st, t[4])
            if t[1] == "and":
                if x is False or y is False: return False
                if x and y: return True
            else:
                if x or y: return True
                if x is False and y is False: return False
            return None
        r = self.rng(st, t)
        if r[0] == r[1]: return bool(r[0])
        return None
    def clamp(self, st, t, lo, hi):
        """intersect t's range with [lo,hi]; False if empty"""
        r = self.rng(st, t)
        nlo, nhi = max(r[0], lo), min(r[1], hi)
        if nlo > nhi: return False
        if t[0] == "c": return True
        ex = st.ne.get(t)
        if ex:
            while nlo in ex and nlo <= nhi: nlo += 1
            while nhi in ex and nlo <= nhi: nhi -= 1
            if nlo > nhi: return False
        if (nlo, nhi) != r:
            st.facts[t] = (nlo, nhi)
            self.on_refine(st, t, nlo, nhi)
        # push through structure
        if t[0] == "+":
            f = rng_of_bits(t[1])
            rx = self.rng(st, t[2])
            if rx[0] + t[3] >= f[0] and rx[1] + t[3] <= f[1]:
                return self.clamp(st, t[2], nlo - t[3], nhi - t[3])
        elif t[0] == "z":
            rx = self.rng(st, t[2])
            if rx[0] >= 0: return self.clamp(st, t[2], nlo, nhi)
            half = 1 << (t[1] - 1) if t[1] > 0 else 0
            if t[1] > 1 and nhi < half: return self.clamp(st, t[2], nlo, nhi)
            if t[1] == 1:
                if nlo == nhi: return self.assume(st, t[2], bool(nlo))
        elif t[0] == "sx":
            if t[1] > 1: return self.clamp(st, t[2], nlo, nhi)
        elif t[0] == "tr":
            rx = self.rng(st, t[2]); f = rng_of_bits(t[1])
            if rx[0] >= f[0] and rx[1] <= f[1]: return self.clamp(st, t[2], nlo, nhi)
        elif t[0] == "op" and t[1] in ("sub",) and False:
            pass
        return True
    def on_refine(self, st, t, lo, hi): pass
    def assume(self, st, t, val):
        """assume i1 term t has truth val; False if contradiction"""
        if t[0] == "c": return bool(t[1]) == val
        if t[0] == "not": return self.assume(st, t[1], not val)
        v = self.truth(st, t)
        if v is not None: return v == val
        if t[0] == "cmp":
            _, p, bits, a, b = t
            st.facts[t] = (int(val), int(val))
            ra, rb = self.rng(st, a), self.rng(st, b)
            if p == "eq":
                if val:
                    if not self.clamp(st, a, rb[0], rb[1]): return False
                    if not self.clamp(st, b, ra[0], ra[1]): return False
                    if b == NULL and a[0] == "op" and a[1] == "or":
                        if not (self.clamp(st, a[3], 0, 0) and self.clamp(st, a[4], 0, 0)): return False
                    if a[0] in ("z", "sx") and b[0] == "c" and a[1] == 1:
                        return self.assume(st, a[2], bool(b[1]))
                else:
                    for x, y in ((a, b), (b, a)):
                        if y[0] == "c":
                            r = self.rng(st, x); n = y[1]
                            if r[0] == n and not self.clamp(st, x, n + 1, r[1]): return False
                            r = self.rng(st, x)
                            if r[1] == n and not self.clamp(st, x, r[0], n - 1): return False
                            r = self.rng(st, x)
                            if r[0] <= n <= r[1] and x[0] != "c":
                                st.ne[x] = st.ne.get(x, frozenset()) | {n}
                                self.on_refine(st, x, r[0], r[1])
                            if x[0] in ("z", "sx") and x[1] == 1:
                                if not self.assume(st, x[2], not bool(n)): return False
                return True
            if p == "slt":
                if val:
                    return self.clamp(st, a, -INF, rb[1] - 1) and self.clamp(st, b, ra[0] + 1, INF)
                return self.clamp(st, a, rb[0], INF) and self.clamp(st, b, -INF, ra[1])
            if p == "ult":
                ua, ub = self.uns(ra, bits), self.uns(rb, bits)
                half = 1 << (bits - 1) if bits > 1 else 1
                if val:
                    # a <u b
                    if ub[1] <= half and ub[1] != INF or rb[0] >= 0:
                        hi = ub[1] - 1
                        if hi < 0: return False
                        if not self.clamp(st, a, 0, hi): return False
                    if ra[0] >= 0 and rb[0] >= 0:
                        if not self.clamp(st, b, ra[0] + 1, INF): return False
                    elif rb[0] == 0 and not self.clamp(st, b, 1, INF): return False
                    return True
                # a >=u b
                if ra[0] >= 0:
                    if rb[0] >= 0:
                        return self.clamp(st, a, rb[0], INF) and self.clamp(st, b, -INF, ra[1])
                    return self.clamp(st, b, 0, ra[1]) if ra[1] < half else True
                return True
            return True
        if t[0] == "op" and t[1] == "and" and val and t[2] == 1:
            return self.assume(st, t[3], True) and self.assume(st, t[4], True)
        if t[0] == "op" and t[1] == "or" and not val and t[2] == 1:
            return self.assume(st, t[3], False) and self.assume(st, t[4], False)
        if t[0] == "op" and t[1] == "and" and not val and t[2] == 1:
            if self.truth(st, t[3]): return self.assume(st, t[4], False)
            if self.truth(st, t[4]): return self.assume(st, t[3], False)
        if t[0] == "tr" and t[1] == 1:
            st.facts[t] = (int(val), int(val))
            return True
        st.facts[t] = (int(val), int(val))
        self.on_refine(st, t, int(val), int(val))
        return True
    def isnull(self, st, t):
        r = self.rng(st, t)
        if r == (0, 0): return True
        if r[0] > 0 or 0 in st.ne.get(t, ()): return False
        return None

def mkcmp(pred, bits, a, b):
    if pred == "ne": return mknot(mkcmp("eq", bits, a, b))
    if pred in ("sgt", "ugt"): return mkcmp(pred[0] + "lt", bits, b, a)
    if pred in ("sge", "uge"): return mknot(mkcmp(pred[0] + "lt", bits, a, b))
    if pred in ("sle", "ule"): return mknot(mkcmp(pred[0] + "lt", bits, b, a))
    if pred == "eq":
        if a[0] == "c" and b[0] != "c": a, b = b, a
        if a == b: return C(1)
        if a[0] == "c" and b[0] == "c": return C(int(a[1] == b[1]))
        # (x + c1) == c2
        if a[0] == "+" and b[0] == "c": return mkcmp("eq", bits, a[2], C(wrap(b[1] - a[3], a[1])))
        if b[0] == "c" and a[0] == "z" and a[1] == 1:
            if b[1] == 0: return mknot(a[2])
            if b[1] == 1: return a[2]
            return C(0)
        if b[0] == "c" and a[0] in ("not", "cmp") and bits == 1:
            return a if b[1] else mknot(a)
        if b[0] == "c" and a[0] == "z" and 0 <= b[1] < (1 << a[1]): return mkcmp("eq", a[1], a[2], C(wrap(b[1], a[1])))
        if b[0] == "c" and a[0] == "sx": return mkcmp("eq", a[1], a[2], C(b[1]))
        if b[0] != "c" and repr(a) > repr(b): a, b = b, a
    elif a[0] == "c" and b[0] == "c":
        if pred == "slt": return C(int(a[1] < b[1]))
        m = (1 << bits) - 1 if bits else -1
        return C(int((a[1] & m) < (b[1] & m)))
    return ("cmp", pred, bits, a, b)

def mknot(t):
    if t[0] == "not": return t[1]
    if t[0] == "c": return C(1 - (t[1] & 1))
    return ("not", t)

def addr(base, path):
    """append path elements to an address term"""
    if not path: return base
    if base[0] == "a":
        b, p = base[1], base[2]
        p = list(p)
    else:
        b, p = base, []
    for e in path:
        if isinstance(e, tuple) and e[0] == "p":
            # pointer arithmetic: fold into a preceding index
            if e[1] == ("c", 0): continue
            if p and isinstance(p[-1], tuple) and p[-1][0] in ("i", "p") and p[-1][1][0] == "c" and e[1][0] == "c":
                n = p[-1][1][1] + e[1][1]
                if p[-1][0] == "p" and n == 0: p.pop()
                else: p[-1] = (p[-1][0], ("c", n))
            elif p and isinstance(p[-1], tuple) and p[-1][0] == "i" and p[-1][1] == ("c", 0):
                p[-1] = ("i", e[1])
            else: p.append(("p", e[1]))
        else: p.append(e)
    if not p: return b
    return ("a", b, tuple(p))

def loc_of(a):
    """(base, path) of an address term"""
    if a[0] == "a": return (a[1], a[2])
    return (a, ())

def is_prefix(p, q):
    return len(p) <= len(q) and q[:len(p)] == p

class Engine(Ranges):
    """one analysis of one function with one rule"""
    def __init__(self, prog, fn, rule, max_states=4000, kmax=96, assume_asserts=True, time_limit=600):
        self.prog = prog; self.fn = fn; self.rule = rule
        self.max_states = max_states; self.kmax = kmax
        self.live = fn.liveness(); self.cyc = fn.cyclic(); self.dead = fn.dead_blocks()
        self.assume_asserts = assume_asserts
        self.steps = 0; self.reports = []; self.seen_rep = set()
        self.t0 = time.time(); self.time_limit = time_limit
        self.cls_cache = {}
        self.loops = fn.loops()
        rule.eng = self
        # short blocks that start with a phi used by their own branch are executed per incoming edge
        self.nomerge = set()
        for bi in fn.rpo:
            b = fn.blocks[bi]
            if bi not in self.loops and len(b) <= 14 and len(fn.pred[bi]) > 1 and b[0].op == "phi" and b[-1].op in ("br", "switch", "ret"):
                self.nomerge.add(bi)
            elif bi not in self.loops and len(b) == 1 and len(fn.pred[bi]) > 1 and b[0].op == "br" and len(fn.succ[bi]) == 1:
                self.nomerge.add(bi)
    # ---- reporting
    def report(self, st, inst, msg, kind="", loc=None):
        k = (kind, msg, inst.where() if inst is not None else "")
        if k in self.seen_rep: return
        self.seen_rep.add(k)
        self.reports.append(dict(fn=self.fn.src, where=inst.where() if inst is not None else self.fn.file, msg=msg, kind=kind,
                                 loc=(inst.loc if inst is not None else None), path=[self.describe(x) for x in self.path_of(st)]))
    def path_of(self, st):
        out = []; t = st.trace
        while t:
            out.append(t[1]); t = t[0]
        return list(reversed(out))[-40:]
    def describe(self, x):
        bi, outcome = x
        i = self.fn.blocks[bi][-1]
        return "%s -> %s" % (i.where(), outcome)
    # ---- class of location
    def cls(self, loc):
        p = loc[1]
        c = self.cls_cache.get(p)
        if c is None:
            c = self.cls_cache[p] = cls_of(p)
        return c
    # ---- operand evaluation
    def val(self, st, v):
        if isinstance(v, int):
            t = st.env.get(v)
            if t is None:
                t = self.undef_val(v)
            return t
        k = v[0]
        if k == "c": return C(v[1])
        if k in ("n", "z"): return NULL
        if k == "g": return ("g", v[1])
        if k == "u": return ("v", "undef")
        if k == "cg":
            return addr(self.val(st, v[1]), self.path(st, v[2]))
        if k == "cast": return self.val(st, v[2])
        return ("v", ("const", str(v)))
    def undef_val(self, v):
        i = self.fn.insts.get(v)
        b = 0
        if i is not None: b = "ptr" if i.ty == "ptr" else bits_of(i.ty)
        elif v < len(self.fn.args): b = "ptr" if self.fn.args[v][0] == "ptr" else bits_of(self.fn.args[v][0])
        return ("v", ("ssa", v), b)
    def path(self, st, p):
        out = []
        for e in p:
            if e[0] == "f": out.append("%s.%s" % (e[1], e[2]))
            else:
                t = self.val(st, e[1])
                r = self.rng(st, t)
                if r[0] == r[1] and abs(r[0]) < INF: t = C(r[0])
                out.append((e[0], t))
        return tuple(out)
    # ---- fresh symbols
    def fresh(self, st, inst, tag=None, bits=None):
        b = bits if bits is not None else ("ptr" if inst.ty == "ptr" else bits_of(inst.ty))
        s = ("v", (inst.id, tag) if tag is not None else (inst.id,), b)
        if inst.bb in self.cyc:
            self.retire(st, s)
        else:
            st.facts.pop(s, None); st.ne.pop(s, None)
        return s
    def retire(self, st, s):
        """s is about to be re-created: rename earlier occurrences"""
        def occurs(t): return s in syms(t)
        hit = s in st.facts or s in st.ne or any(occurs(t) for t in st.env.values()) or any(occurs(t) or occurs_loc(l, s) for l, t in st.mem.items()) or any(s in syms(t) for t in st.facts) or any(occurs_loc(l, s) for l in st.zero) or self.rule.mentions(st, s)
        if not hit: return
        old = ("v", ("old", s[1]), s[2] if len(s) > 2 else 0)
        # drop previous 'old'
        kept = []
        if self.keep_ranges:
            for l, t in st.mem.items():
                if old in syms(t) and not occurs_loc(l, old):
                    r = self.rng(st, t)
                    if r[0] > -(1 << 31) or r[1] < (1 << 31) - 1: kept.append((l, r))
        self.substitute(st, old, None)
        for l, r in kept:
            k = ("v", ("kept", l), 0)
            if l in st.mem: continue
            self.substitute(st, k, None)
            st.mem[l] = k; st.facts[k] = r
        self.substitute(st, s, old)
    def substitute(self, st, s, n):
        def sub(t):
            if s not in syms(t): return t
            if n is None: return None
            return subst(t, s, n)
        def subl(l):
            if not occurs_loc(l, s): return l
            if n is None: return None
            b = subst(l[0], s, n)
            return (b, tuple((e if isinstance(e, str) else (e[0], subst(e[1], s, n))) for e in l[1]))
        env = {}
        for k, t in st.env.items():
            t2 = sub(t)
            if t2 is not None: env[k] = t2
        st.env = env
        mem = {}
        for l, t in st.mem.items():
            l2 = subl(l); t2 = sub(t)
            if l2 is not None and t2 is not None: mem[l2] = t2
        st.mem = mem
        z = {}
        for l, t in st.zero.items():
            l2 = subl(l)
            if l2 is not None: z[l2] = t
        st.zero = z
        f = {}
        for t, v in st.facts.items():
            t2 = sub(t)
            if t2 is not None: f[t2] = v
        st.facts = f
        f = {}
        for t, v in st.ne.items():
            t2 = sub(t)
            if t2 is not None: f[t2] = v
        st.ne = f
        self.rule.substitute(st, s, n)
    # ---- memory
    def load(self, st, inst, a, bits, pt=None):
        loc = loc_of(a)
        t = st.mem.get(loc)
        if t is None:
            z = self.zero_at(st, loc)
            if z is not None: t = z
        if t is None:
            t = self.rule.initial(st, inst, loc)
        if t is None:
            s = ("v", ("ld", inst.id), bits)
            if inst.bb in self.cyc: self.retire(st, s)
            else: st.facts.pop(s, None); st.ne.pop(s, None)
            t = s
            st.mem[loc] = t
            self.rule.on_initial(st, inst, loc, t)
        return t
    def zero_at(self, st, loc):
        if not st.zero: return None
        b, p = loc
        for k in range(len(p), -1, -1):
            z = st.zero.get((b, p[:k]))
            if z is not None:
                if loc in z or self.cls(loc) in z: return None
                return NULL
        return None
    def store(self, st, inst, a, v):
        loc = loc_of(a)
        self.kill_alias(st, loc)
        st.mem[loc] = v
        self.note_escape(st, v)
    def note_escape(self, st, v):
        b = loc_of(v)[0]
        if b[0] == "al" and b not in st.esc: st.esc = st.esc | {b}
    def kill_alias(self, st, loc):
        """invalidate cells that may alias loc (same base, same field, index not provably different)"""
        b, p = loc
        if not p or not any(isinstance(e, tuple) for e in p):
            # exact overwrite; also sub-cells
            dead = [l for l in st.mem if l[0] == b and len(l[1]) > len(p) and l[1][:len(p)] == p]
        else:
            dead = [l for l in st.mem if l[0] == b and l[1] != p and self.may_path(st, p, l[1])]
        for l in dead: del st.mem[l]
        if st.zero:
            for zl in list(st.zero):
                if zl[0] == b and self.may_path(st, p[:len(zl[1])], zl[1]) and len(p) >= len(zl[1]):
                    if any(isinstance(e, tuple) and e[1][0] != "c" for e in p):
                        st.zero[zl] = st.zero[zl] | {self.cls(loc)}
                    else:
                        st.zero[zl] = st.zero[zl] | {loc}
    def may_path(self, st, p, q):
        for x, y in zip(p, q):
            if x == y: continue
            if isinstance(x, tuple) and isinstance(y, tuple):
                rx, ry = self.rng(st, x[1]), self.rng(st, y[1])
                if rx[1] < ry[0] or ry[1] < rx[0]: return False
                continue
            return False
        return True
    def kill_prefix(self, st, loc):
        b, p = loc
        for l in [l for l in st.mem if l[0] == b and self.may_path(st, p, l[1]) and len(l[1]) >= len(p)]:
            del st.mem[l]
        for zl in list(st.zero):
            if zl[0] == b and len(zl[1]) >= len(p) and self.may_path(st, p, zl[1]): del st.zero[zl]
            elif zl[0] == b and is_prefix(zl[1], p):
                del st.zero[zl]    # conservative
    def clobber(self, st, inst, classes, escaped_args=()):
        """forget cells whose class may be written by a call"""
        every = classes is None
        dead = []
        for l in st.mem:
            if l[0][0] == "al" and l[0] not in st.esc and l[0] not in escaped_args: continue
            c = self.cls(l)
            if every or c in classes or (c.startswith("*") and (l[0] in escaped_args or "*" in classes)):
                if not self.rule.keep_on_call(st, inst, l): dead.append(l)
        for l in dead: del st.mem[l]
        for zl in list(st.zero):
            if zl[0][0] == "al" and zl[0] not in st.esc and zl[0] not in escaped_args: continue
            if every: del st.zero[zl]
            else: st.zero[zl] = st.zero[zl] | frozenset(classes)
    # ---- main loop
    def run(self, init=None):
        fn = self.fn
        st = init or State()
        for k, a in enumerate(fn.args):
            st.env[k] = self.rule.arg(k, a) or ("v", ("arg", k), "ptr" if a[0] == "ptr" else bits_of(a[0]))
        self.rule.start(st)
        self.states = [dict() for _ in fn.blocks]   # block -> key -> state at entry
        self.joins = {}
        import heapq
        prio = self.loop_order() if self.inner_first else fn.rpon
        heap = []; inq = set(); seq = [0]
        def push(b, k):
            if (b, k) not in inq:
                seq[0] += 1; inq.add((b, k)); heapq.heappush(heap, (prio[b], seq[0], b, k))
        npred = [len(set(x)) for x in fn.pred]
        origin = {}
        def arrive(b, s, org=None):
            # s is already specialised for block b (phis done)
            k = self.rule.key(s, b)
            cur = self.states[b].get(k)
            if b and npred[b] == 1 and org is not None:
                # the only way into the block: the state of its predecessor supersedes what that one sent before
                o = origin.setdefault((b, k), org)      # None: several contributions, merged as they come
                if o is None or o != org: origin[(b, k)] = None
                elif cur is not None:
                    self.prune(s, b)
                    if not s.same(cur): self.states[b][k] = s; push(b, k)
                    return
            if cur is None:
                self.prune(s, b)
                if len(self.states[b]) >= self.kmax:
                    raise Budget("too many distinct abstract states (%d) at %s" % (len(self.states[b]), fn.blocks[b][0].where()))
                self.states[b][k] = s; push(b, k)
            else:
                self.prune(s, b)
                n = self.joins[(b, k)] = self.joins.get((b, k), 0) + 1
                m = self.merge(b, cur, s, n)
                if not m.same(cur):
                    self.states[b][k] = m; push(b, k)
        st.env = dict(st.env)
        arrive(0, st)
        while heap:
            _, _, b, k = heapq.heappop(heap); inq.discard((b, k))
            s = self.states[b][k].copy()
            work = [(b, s)]
            org = (b, k); sent = {}
            while work:
                b, s = work.pop()
                self.steps += 1
                if self.steps > 400000 or time.time() - self.t0 > self.time_limit:
                    raise Budget("analysis budget exceeded in %s (%d block visits)" % (fn.name, self.steps))
                for nb, ns in self.exec_block(b, s):
                    if nb in self.nomerge: work.append((nb, ns))
                    else: sent.setdefault((nb, self.rule.key(ns, nb)), []).append(ns)
            for (nb, nk), l in sent.items():
                if len(l) > 1: origin[(nb, nk)] = None
                for ns in l: arrive(nb, ns, org)
        return self
    def prune(self, s, b):
        lv = self.live[b]
        phis = set()
        for i in self.fn.blocks[b]:
            if i.op != "phi": break
            phis.add(i.id)
        s.env = {k: t for k, t in s.env.items() if k in lv or k in phis or k < 0}
        # facts: keep those over live symbols
        if len(s.facts) + len(s.ne) > 24:
            live = set()
            for t in s.env.values(): live |= syms(t)
            for l, t in s.mem.items():
                live |= syms(t); live |= syms(l[0])
            live |= self.rule.live_syms(s)
            for _ in range(1):
                s.facts = {t: v for t, v in s.facts.items() if not syms(t) or (syms(t) <= live)}
                s.ne = {t: v for t, v in s.ne.items() if syms(t) <= live}
    def merge(self, b, A, B, n):
        widen = n > 6 and (self.widen_at is None or b in self.widen_at)
        M = State()
        fn = self.fn
        cyc = b in self.cyc
        # symbols created at this join that B carries with an older meaning
        J = {}
        def join(tag, ta, tb, bits):
            if ta == tb: return ta
            key = (ta, tb)
            s = ("v", ("j", b, tag), bits)
            J[s] = (ta, tb)
            return s
        for k, ta in A.env.items():
            tb = B.env.get(k)
            if tb is None: continue
            if ta == tb: M.env[k] = ta
            else:
                i = fn.insts.get(k)
                bits = "ptr" if (i is not None and i.ty == "ptr") else bits_of(i.ty) if i is not None else 0
                M.env[k] = join(("e", k), ta, tb, bits)
        for l, ta in A.mem.items():
            tb = B.mem.get(l)
            if tb is None:
                z = self.zero_at(B, l)
                if z is None: continue
                tb = z
            if ta == tb: M.mem[l] = ta
            else:
                bits = 0
                for t in (ta, tb):
                    if t[0] in ("a", "g", "al"): bits = "ptr"
                    elif t[0] == "v" and len(t) > 2 and t[2]: bits = t[2]
                M.mem[l] = join(("m",) + (l,), ta, tb, bits)
        for l, tb in B.mem.items():
            if l not in A.mem:
                z = self.zero_at(A, l)
                if z is not None:
                    if z == tb: M.mem[l] = tb
                    else: M.mem[l] = join(("m",) + (l,), z, tb, tb[2] if tb[0] == "v" and len(tb) > 2 else 0)
        for zl, za in A.zero.items():
            zb = B.zero.get(zl)
            if zb is not None: M.zero[zl] = za | zb
        # stale occurrences of join symbols: those symbols may appear in A (previous merge) or B (older iteration)
        stale = set()
        for s, (ta, tb) in J.items():
            if s in syms(tb) and tb != s: stale.add(s)
        fa, fb = A.facts, B.facts
        for t, ra in fa.items():
            if any(x in J for x in syms(t)): continue
            rb = self.rng(B, t)
            lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
            if widen and (lo, hi) != ra:
                d = self.default_rng(t) if t[0] == "v" else (-INF, INF)
                lo, hi = self.widened(lo, hi, ra, d, n)
            if self.worth(t, lo, hi): M.facts[t] = (lo, hi)
        for t, rb in fb.items():
            if t in fa or any(x in J for x in syms(t)): continue
            ra = self.rng(A, t)
            lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
            if self.worth(t, lo, hi): M.facts[t] = (lo, hi)
        for t, e in A.ne.items():
            if any(x in J for x in syms(t)): continue
            rb = self.rng(B, t); eb = B.ne.get(t, frozenset())
            keep = frozenset(c for c in e if c in eb or c < rb[0] or c > rb[1])
            if keep: M.ne[t] = keep
        for t, e in B.ne.items():
            if t in A.ne or any(x in J for x in syms(t)): continue
            ra = self.rng(A, t)
            keep = frozenset(c for c in e if c < ra[0] or c > ra[1])
            if keep: M.ne[t] = keep
        for s, (ta, tb) in J.items():
            ra, rb = self.rng(A, ta), self.rng(B, tb)
            lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
            if widen and ta == s and (lo, hi) != ra:
                d = self.default_rng(s)
                lo, hi = self.widened(lo, hi, ra, d, n)
            if (lo, hi) != self.default_rng(s): M.facts[s] = (lo, hi)
            na = self.nonzero(A, ta) and self.nonzero(B, tb)
            if na and lo <= 0 <= hi: M.ne[s] = frozenset((0,))
        # entries mentioning a join symbol with the old meaning are dropped
        if J:
            def bad(t): return any(x in J for x in syms(t))
            for k, t in list(M.env.items()):
                if t not in J and bad(t): del M.env[k]
            for l, t in list(M.mem.items()):
                if (t not in J and bad(t)) or any(occurs_loc(l, s) for s in J): del M.mem[l]
            for l in list(M.zero):
                if any(occurs_loc(l, s) for s in J): del M.zero[l]
        M.esc = A.esc | B.esc
        M.trace = A.trace
        self.rule.merge(b, A, B, M, J)
        return M
    keep_ranges = False        # a value of a forgotten symbol keeps its range
    widen_at = None; thresholds = (); inner_first = False
    def loop_order(self):
        """a reverse post order in which the blocks of a loop come before what follows the loop"""
        fn = self.fn
        inner = {}
        for h, body in sorted(self.loops.items(), key=lambda x: -len(x[1])):
            for b in body: inner[b] = body
        def succ(b):
            body = inner.get(b)
            return sorted(fn.succ[b], key=lambda s: 0 if body is not None and s not in body else 1)
        order = []; seen = {0}; st = [(0, iter(succ(0)))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(succ(s)))); break
            else: order.append(b); st.pop()
        return {b: k for k, b in enumerate(reversed(order))}
    def widened(self, lo, hi, ra, d, n):
        """bounds that still move go to the next threshold, then to the type's limit"""
        if lo != ra[0]: lo = max([x for x in self.thresholds if x <= lo and n <= 60] + [d[0]])
        if hi != ra[1]: hi = min([x for x in self.thresholds if x >= hi and n <= 60] + [d[1]])
        return lo, hi
    def nonzero(self, st, t):
        r = self.rng(st, t)
        return r[0] > 0 or r[1] < 0 or 0 in st.ne.get(t, ())
    def worth(self, t, lo, hi):
        if lo == -INF and hi == INF: return False
        if t[0] == "v": return (lo, hi) != self.default_rng(t)
        if t[0] in ("cmp", "not"): return lo == hi
        return True
    # ---- block execution: returns [(succ, state)] with phis of succ already evaluated
    def exec_block(self, b, st):
        fn = self.fn
        states = [st]
        for i in fn.blocks[b]:
            op = i.op
            if op == "phi": continue
            if op in ("br", "switch", "ret", "unreachable"):
                out = []
                for s in states: out += self.term(b, i, s)
                return out
            nxt = []
            for s in states:
                r = self.step(i, s)
                if r is None: nxt.append(s)
                else: nxt += r
            states = nxt
            if not states: return []
        return []
    def goto(self, b, nb, s):
        fn = self.fn
        vals = []
        for i in fn.blocks[nb]:
            if i.op != "phi": break
            for v, pb in zip(i.a, i.x):
                if pb == b:
                    vals.append((i.id, self.val(s, v))); break
        for k, t in vals: s.env[k] = t
        return (nb, s)
    def term(self, b, i, s):
        if i.op == "ret":
            self.rule.on_ret(s, i, self.val(s, i.a[0]) if i.a else None)
            return []
        if i.op == "unreachable":
            return []
        if i.op == "br":
            if len(i.x) == 1: return [self.goto(b, i.x[0], s)]
            c = self.val(s, i.a[0])
            t = self.truth(s, c)
            out = []
            for want, nb in ((True, i.x[0]), (False, i.x[1])):
                if t is not None and t != want: continue
                if nb in self.dead and not self.rule.follow_dead(s, i, c, want):
                    continue
                ns = s.copy()
                if t is None:
                    if not self.assume(ns, c, want): continue
                    if nb not in self.dead: ns.trace = trim(ns.trace, (b, "true" if want else "false"))
                    if not self.rule.on_branch(ns, i, c, want): continue
                out.append(self.goto(b, nb, ns))
            return out
        if i.op == "switch":
            c = self.val(s, i.a[0])
            out = []
            r = self.rng(s, c)
            cases = {}
            for v, nb in i.x[1:]: cases.setdefault(nb, []).append(v)
            allv = [v for v, _ in i.x[1:]]
            for nb, vs in cases.items():
                if nb in self.dead: continue
                for v in vs:
                    if v < r[0] or v > r[1] or v in s.ne.get(c, ()): continue
                    ns = s.copy()
                    if not self.clamp(ns, c, v, v): continue
                    ns.trace = trim(ns.trace, (b, "case %d" % v))
                    out.append(self.goto(b, nb, ns))
            if i.x[0] not in self.dead:
                ns = s.copy(); ok = True
                for v in allv:
                    if not self.assume(ns, mkcmp("eq", 32, c, C(v)), False): ok = False; break
                if ok:
                    ns.trace = trim(ns.trace, (b, "default"))
                    out.append(self.goto(b, i.x[0], ns))
            return out
        return []
    def step(self, i, st):
        """returns None (same state) or list of states"""
        op = i.op
        R = self.rule
        if op == "getelementptr":
            base = self.val(st, i.a[0])
            p = self.path(st, i.x)
            t = addr(base, p)
            if depth(t) > MAXDEPTH: t = self.fresh(st, i)
            st.env[i.id] = t; return None
        if op == "load":
            a = self.val(st, i.a[0])
            R.on_access(st, i, a, False)
            t = R.load(st, i, a)
            if t is None:
                t = self.load(st, i, a, "ptr" if i.ty == "ptr" else bits_of(i.ty))
            st.env[i.id] = t; return None
        if op == "store":
            a = self.val(st, i.a[1]); v = self.val(st, i.a[0])
            R.on_access(st, i, a, True)
            r = R.on_store(st, i, a, v)
            if r is None: self.store(st, i, a, v)
            return None
        if op == "alloca":
            st.env[i.id] = ("al", i.id); return None
        if op == "icmp":
            a, b = self.val(st, i.a[0]), self.val(st, i.a[1])
            bits = 64
            for o in i.a:
                if isinstance(o, int):
                    if o in self.fn.insts:
                        ty = self.fn.insts[o].ty
                    else: ty = self.fn.args[o][0]
                    bits = bits_of(ty); break
            t = mkcmp(i.x, bits, a, b)
            if t[0] == "cmp" and depth(t) > MAXDEPTH: t = self.fresh(st, i)
            v = self.truth(st, t)
            if v is not None and t[0] != "c": t = C(int(v))
            st.env[i.id] = t; return None
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            st.env[i.id] = self.binop(st, i, op, bits_of(i.ty), self.val(st, i.a[0]), self.val(st, i.a[1])); return None
        if op in ("zext", "sext", "trunc"):
            x = self.val(st, i.a[0]); fb = bits_of(i.x); tb = bits_of(i.ty)
            st.env[i.id] = self.castop(st, op, fb, tb, x); return None
        if op in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast", "freeze"):
            st.env[i.id] = self.val(st, i.a[0]); return None
        if op == "select":
            c = self.val(st, i.a[0])
            t = self.truth(st, c)
            x, y = self.val(st, i.a[1]), self.val(st, i.a[2])
            if t is not None:
                st.env[i.id] = x if t else y; return None
            if x == y: st.env[i.id] = x; return None
            o = st.copy()
            out = []
            for s2, w, v in ((st, True, x), (o, False, y)):
                if self.assume(s2, c, w) and R.on_branch(s2, i, c, w):
                    s2.env[i.id] = v; out.append(s2)
            return out
        if op == "call":
            return self.call(i, st)
        if op == "atomicrmw":
            a = self.val(st, i.a[0]); v = self.val(st, i.a[1])
            R.on_access(st, i, a, True)
            r = R.on_atomicrmw(st, i, a, v)
            old = r if r is not None else self.fresh(st, i)
            self.kill_alias(st, loc_of(a)); st.mem.pop(loc_of(a), None)
            if i.x[1] == "xchg" and r is None: pass
            st.env[i.id] = old; return None
        if op == "cmpxchg":
            a = self.val(st, i.a[0])
            R.on_access(st, i, a, True)
            R.on_cmpxchg(st, i, a, self.val(st, i.a[1]), self.val(st, i.a[2]))
            self.kill_alias(st, loc_of(a)); st.mem.pop(loc_of(a), None)
            st.env[i.id] = self.fresh(st, i); return None
        if op == "fence": return None
        if i.ty != "void":
            st.env[i.id] = self.fresh(st, i)
        return None
    def binop(self, st, i, op, bits, x, y):
        rx, ry = self.rng(st, x), self.rng(st, y)
        if rx[0] == rx[1] and abs(rx[0]) < INF: x = C(rx[0])
        if ry[0] == ry[1] and abs(ry[0]) < INF: y = C(ry[0])
        if x[0] == "c" and y[0] == "c":
            a, b = x[1], y[1]; m = (1 << bits) - 1 if bits else -1
            try:
                r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
                     "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: (a & m) >> b, "ashr": lambda: a >> b,
                     "udiv": lambda: (a & m) // (b & m), "urem": lambda: (a & m) % (b & m),
                     "sdiv": lambda: int(a / b) if abs(a) < 2**50 else (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1),
                     "srem": lambda: a - b * int(a / b)}[op]()
                return C(wrap(r, bits) if bits > 1 else r & 1)
            except (ZeroDivisionError, ValueError, OverflowError):
                return self.fresh(st, i)
        if bits == 1 and op == "xor":
            if y == C(1): return mknot(x)
            if x == C(1): return mknot(y)
        if bits == 1 and op in ("and", "or"):
            for p, q in ((x, y), (y, x)):
                tv = self.truth(st, p)
                if tv is not None:
                    if op == "and": return q if tv else C(0)
                    return C(1) if tv else q
        if op == "add":
            if x[0] == "c": x, y = y, x
            if y[0] == "c":
                if y[1] == 0: return x
                if x[0] == "+" and x[1] == bits:
                    n = wrap(x[3] + y[1], bits)
                    return x[2] if n == 0 else ("+", bits, x[2], n)
                return self.lim(st, i, ("+", bits, x, y[1]))
        if op == "sub":
            if x == y: return C(0)
            if y[0] == "c":
                if y[1] == 0: return x
                return self.binop(st, i, "add", bits, x, C(-y[1]))
            if x[0] == "+" and x[1] == bits and x[2] == y: return C(x[3])
        if op in ("mul", "and", "or", "xor", "add") and x[0] == "c": x, y = y, x
        if y[0] == "c":
            if op == "mul":
                if y[1] == 0: return C(0)
                if y[1] == 1: return x
            if op in ("shl", "lshr", "ashr", "or", "xor") and y[1] == 0: return x
            if op == "and" and y[1] == 0: return C(0)
            if op == "and" and y[1] == -1: return x
            if op in ("udiv", "sdiv") and y[1] == 1: return x
        t = ("op", op, bits, x, y)
        return self.lim(st, i, t)
    def lim(self, st, i, t):
        if depth(t) > MAXDEPTH:
            r = self.rng(st, t)
            s = self.fresh(st, i, bits=bits_of(i.ty))
            if r != self.default_rng(s): st.facts[s] = r
            return s
        return t
    def castop(self, st, op, fb, tb, x):
        r = self.rng(st, x)
        if r[0] == r[1] and abs(r[0]) < INF:
            n = r[0]
            if op == "zext": n = n & ((1 << fb) - 1)
            elif op == "trunc": n = wrap(n, tb) if tb > 1 else n & 1
            elif op == "sext" and fb == 1: n = -1 if n else 0
            return C(n)
        if op == "zext":
            if x[0] == "z": return ("z", x[1], x[2])
            return ("z", fb, x)
        if op == "sext":
            if x[0] == "z": return x
            if x[0] == "sx": return x
            return ("sx", fb, x)
        # trunc
        if x[0] in ("z", "sx") and x[1] == tb: return x[2]
        if x[0] == "z" and x[1] < tb: return x
        if x[0] == "sx" and x[1] < tb: return x
        return ("tr", tb, x)
    def call(self, i, st):
        name, tgt, noret = i.x
        args = [self.val(st, a) for a in i.a]
        R = self.rule
        if name is None:
            ft = self.val(st, tgt)
            if ft[0] == "g": name = ft[1]
        if name and name.startswith("llvm."):
            return self.intrinsic(i, st, name, args)
        r = R.on_call(st, i, name, args)
        if r is not None:
            return r if isinstance(r, list) else None
        self.default_call(i, st, name, args)
        if noret or name in ("abort", "exit", "__assert_fail"): return []
        return None
    def default_call(self, i, st, name, args):
        R = self.rule
        cl = R.effects(name, i)
        bases = set()
        for a in args:
            if a[0] in ("a", "al", "v"):
                b, p = loc_of(a)
                if b[0] == "al": bases.add(b)
        self.clobber(st, i, cl, bases)
        if cl is None or cl:
            # scalar out-parameters
            for a in args:
                if a[0] in ("a", "al"):
                    l = loc_of(a)
                    if cl is None or ("*" in cl):
                        if l in st.mem and not R.keep_on_call(st, i, l): del st.mem[l]
        for a in args: self.note_escape(st, a)
        if i.ty != "void":
            st.env[i.id] = self.fresh(st, i)
    def intrinsic(self, i, st, name, args):
        R = self.rule
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            R.on_access(st, i, args[0], True); R.on_access(st, i, args[1], False)
            self.memcpy(i, st, args[0], args[1], args[2], i.a)
            return None
        if name.startswith("llvm.memset"):
            R.on_access(st, i, args[0], True)
            self.memset(i, st, args[0], args[1], args[2], i.a)
            return None
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name.startswith("llvm.stack") or name.startswith("llvm.va_"):
            if i.ty != "void": st.env[i.id] = self.fresh(st, i)
            return None
        if name.startswith(("llvm.smin", "llvm.smax", "llvm.umin", "llvm.umax")):
            st.env[i.id] = self.binop(st, i, name[5:9], bits_of(i.ty), args[0], args[1]) if not (args[0][0] == "c" and args[1][0] == "c") else C((min if "min" in name else max)(args[0][1], args[1][1]))
            return None
        if name.startswith("llvm.abs"):
            st.env[i.id] = self.lim(st, i, ("op", "abs", bits_of(i.ty), args[0], C(0))); return None
        if name.startswith("llvm.expect"):
            st.env[i.id] = args[0]; return None
        if name.startswith("llvm.objectsize"):
            st.env[i.id] = self.fresh(st, i); return None
        if name.startswith(("llvm.ctlz", "llvm.cttz", "llvm.ctpop")):
            s = self.fresh(st, i); st.facts[s] = (0, bits_of(i.ty))
            if name.startswith("llvm.ctlz"):
                r = self.rng(st, args[0])
                if r[0] >= 1 and r[1] < INF:
                    b = bits_of(i.ty); st.facts[s] = (b - int(r[1]).bit_length(), b - int(r[0]).bit_length())
            st.env[i.id] = s; return None
        if i.ty != "void": st.env[i.id] = self.fresh(st, i)
        return None
    # ---- typed helpers
    def pointee_ty(self, v):
        """DI type id (or [id,peeled]) of what operand v points to, from the exporter"""
        if isinstance(v, int):
            i = self.fn.insts.get(v)
            if i is None:
                return self.fn.args[v][2]
            return i.pt
        if v[0] == "g":
            g = self.prog.gv(v[1])
            return g.get("ty", -1) if g else -1
        return -1
    def leaf_paths(self, t, size):
        """leaf paths under an object of type t covering size bytes"""
        if isinstance(t, list):
            d = self.prog.types[t[0]]
            # peeled array
            return []
        d = self.prog.ty(t)
        if d is None: return []
        return list(self.prog.leaves(t, 16))
    def obj_leaves(self, opnds, size):
        best = []
        for o in opnds:
            t = self.pointee_ty(o)
            if isinstance(t, list): continue
            d = self.prog.ty(t)
            if d and d["k"] in ("struct", "union") and d["size"] == size:
                return self.leaf_paths(t, size)
        return best
    def memcpy(self, i, st, d, s, n, opn):
        size = n[1] if n[0] == "c" else None
        leaves = self.obj_leaves(opn[:2], size) if size else []
        self.rule.on_copy(st, i, d, s, size, leaves)
        db, dp = loc_of(d); sb, sp = loc_of(s)
        # snapshot of source
        src = {}
        for l, t in st.mem.items():
            if l[0] == sb and is_prefix(sp, l[1]): src[l[1][len(sp):]] = t
        want = {}
        for p, ty in leaves:
            td = self.prog.ty(ty)
            if td and td["k"] == "ptr":
                a = addr(s, p)
                if p not in src:
                    t = self.load_leaf(st, i, a, p, td)
                    src[p] = t
        zmark = [ (zl, ex) for zl, ex in st.zero.items() if zl[0] == sb and is_prefix(zl[1], sp)]
        self.kill_prefix(st, (db, dp))
        if size is not None and (leaves or not dp or True):
            if zmark and size:
                st.zero[(db, dp)] = frozenset()
                for p, ty in leaves:
                    l = (db, dp + p)
                    if p not in src and self.zero_at(st, (sb, sp + p)) is None:
                        st.zero[(db, dp)] = st.zero[(db, dp)] | {l}
            for p, t in src.items():
                st.mem[loc_of(addr(d, p))] = t
        self.rule.after_copy(st, i, d, s, size, leaves)
    def load_leaf(self, st, i, a, p, td):
        loc = loc_of(a)
        t = st.mem.get(loc)
        if t is not None: return t
        z = self.zero_at(st, loc)
        if z is not None: return z
        t = self.rule.initial(st, i, loc)
        if t is not None: return t
        s = ("v", ("lf", i.id, p), "ptr")
        if i.bb in self.cyc: self.retire(st, s)
        else: st.facts.pop(s, None); st.ne.pop(s, None)
        st.mem[loc] = s
        self.rule.on_initial(st, i, loc, s)
        return s
    def memset(self, i, st, d, v, n, opn):
        size = n[1] if n[0] == "c" else None
        leaves = self.obj_leaves(opn[:1], size) if size else []
        self.rule.on_memset(st, i, d, v, size, leaves)
        loc = loc_of(d)
        self.kill_prefix(st, loc)
        # class-level invalidation when the object is unknown
        if v == NULL and size is not None:
            if size == 0: return
            st.zero[loc] = frozenset()
            if not leaves:
                t = self.pointee_ty(opn[0])
                dd = self.prog.ty(t) if not isinstance(t, list) else None
                if dd is None or dd.get("size") != size:
                    del st.zero[loc]

def trim(tr, x):
    return (tr, x)

def occurs_loc(l, s):
    if s in syms(l[0]): return True
    for e in l[1]:
        if isinstance(e, tuple) and s in syms(e[1]): return True
    return False

def subst(t, s, n):
    if t == s: return n
    if t[0] in ("c", "v", "g", "al"): return t
    if s not in syms(t): return t
    if t[0] == "a":
        return ("a", subst(t[1], s, n), tuple(e if isinstance(e, str) else (e[0], subst(e[1], s, n)) for e in t[2]))
    return tuple(subst(x, s, n) if isinstance(x, tuple) and x else x for x in t)

class Rule:
    """hooks; defaults do nothing"""
    eng = None
    modsets = None
    def arg(self, k, a): return None
    def start(self, st): pass
    def key(self, st, b): return ()
    def merge(self, b, A, B, M, J): M.r = dict(A.r)
    def mentions(self, st, s): return False
    def substitute(self, st, s, n): pass
    def live_syms(self, st): return frozenset()
    def initial(self, st, inst, loc): return None
    def on_initial(self, st, inst, loc, t): pass
    def load(self, st, inst, a): return None
    def on_access(self, st, inst, a, write): pass
    def on_store(self, st, inst, a, v): return None
    def on_atomicrmw(self, st, inst, a, v): return None
    def on_cmpxchg(self, st, inst, a, exp, new): pass
    def on_call(self, st, inst, name, args): return None
    def on_copy(self, st, inst, d, s, size, leaves): pass
    def after_copy(self, st, inst, d, s, size, leaves): pass
    def on_memset(self, st, inst, d, v, size, leaves): pass
    def on_ret(self, st, inst, v): pass
    def on_branch(self, st, inst, c, want): return True
    def follow_dead(self, st, inst, c, want): return False
    def keep_on_call(self, st, inst, loc): return False
    def effects(self, name, inst):
        """set of field classes a call may write, or None for everything"""
        if self.modsets is None: return None
        return self.modsets.of_call(name, inst)
