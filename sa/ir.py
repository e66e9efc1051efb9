"""Loader for the program exported by irx: functions, types, globals, call graph, effects."""
import json, re, os

class Inst:
    __slots__ = ("id", "op", "ty", "a", "x", "loc", "pt", "bb", "fn", "idx")
    def __init__(self, r, bb, fn, idx):
        self.id, self.op, self.ty, self.a, self.x, self.loc, self.pt = r
        self.bb = bb; self.fn = fn; self.idx = idx
    @property
    def callee(self):
        return self.x[0] if self.op in ("call", "invoke") else None
    def where(self):
        return loc_str(self.loc)

def loc_str(loc):
    if not loc:
        return "?"
    # innermost frame first: file,line,function triples
    s = "%s:%d (%s" % (short(loc[0]), loc[1], loc[2])
    for k in range(3, len(loc), 3):
        s += " inlined at %s:%d %s" % (short(loc[k]), loc[k + 1], loc[k + 2])
    return s + ")"

def short(p):
    for pre in ("/repo/",):
        if p.startswith(pre):
            return p[len(pre):]
    r = os.environ.get("SA_REPO")
    if r and p.startswith(r + "/"):
        return p[len(r) + 1:]
    return p

class Func:
    def __init__(self, d, prog):
        self.prog = prog
        self.name = d["name"]; self.src = d.get("src", d["name"])
        self.file = short(d.get("file", "")); self.line = d.get("line", 0)
        self.internal = d["int"]; self.taken = d["taken"]; self.dity = d.get("dity", -1)
        self.args = d["args"]; self.ret = d["ret"]
        self.blocks = []
        self.insts = {}
        for bi, b in enumerate(d["bb"]):
            l = []
            for k, r in enumerate(b):
                i = Inst(r, bi, self, k)
                l.append(i); self.insts[i.id] = i
            self.blocks.append(l)
        self._cfg()
    def _cfg(self):
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            t = b[-1]
            if t.op == "br":
                self.succ[bi] = list(t.x)
            elif t.op == "switch":
                self.succ[bi] = [t.x[0]] + [c[1] for c in t.x[1:]]
        self.pred = [[] for _ in range(n)]
        for bi in range(n):
            for s in self.succ[bi]:
                self.pred[s].append(bi)
        # reverse post order
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        self.rpo = order
        self.rpon = {b: i for i, b in enumerate(order)}
    _dead = None
    def dead_blocks(self):
        """Blocks from which only `unreachable` (failed assertion) can be reached."""
        if self._dead is None:
            dead = set()
            ch = True
            while ch:
                ch = False
                for b in self.rpo:
                    if b in dead: continue
                    t = self.blocks[b][-1]
                    if t.op == "unreachable" or (self.succ[b] and all(s in dead for s in self.succ[b])):
                        dead.add(b); ch = True
            self._dead = dead
        return self._dead
    def noret_dead(self):
        return self.dead_blocks()
    _live = None
    def liveness(self):
        """live-in value ids per block (phi operands are live-out of the predecessor)."""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]; df = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]  # used by phis of successors, at end of block
        for bi, b in enumerate(self.blocks):
            for i in b:
                if i.op == "phi":
                    for v, pb in zip(i.a, i.x):
                        if isinstance(v, int): phiuse[pb].add(v)
                else:
                    for v in operands(i):
                        if v not in df[bi]: use[bi].add(v)
                df[bi].add(i.id)
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set(phiuse[b])
                for s in self.succ[b]:
                    out |= livein[s]
                ni = use[b] | (out - df[b])
                if ni != livein[b]:
                    livein[b] = ni; ch = True
        self._live = livein
        return livein
    _idom = None
    def idom(self):
        if self._idom is not None: return self._idom
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.rpon[x] > self.rpon[y]: x = idom[x]
                                while self.rpon[y] > self.rpon[x]: y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new; ch = True
        self._idom = idom
        return idom
    def dominates(self, a, b):
        idom = self.idom()
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]
    _loops = None
    def loops(self):
        """natural loops: header -> set of blocks"""
        if self._loops is None:
            L = {}
            for b in self.rpo:
                for s in self.succ[b]:
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x); st.extend(self.pred[x])
            self._loops = L
        return self._loops
    _scc = None
    def cyclic(self):
        if self._scc is None:
            cyc = set()
            for comp in sccs(self.rpo, self.succ):
                if len(comp) > 1: cyc |= set(comp)
                elif comp[0] in self.succ[comp[0]]: cyc.add(comp[0])
            self._scc = cyc
        return self._scc
    def all_insts(self):
        for b in self.rpo:
            for i in self.blocks[b]:
                yield i
    def calls(self):
        for i in self.all_insts():
            if i.op == "call": yield i
    def __repr__(self): return "<Func %s>" % self.name

def sccs(nodes, succ):
    """Tarjan, iterative"""
    idx = {}; low = {}; on = set(); st = []; out = []; n = 0
    for r in nodes:
        if r in idx: continue
        work = [(r, iter(succ[r]))]; idx[r] = low[r] = n; n += 1; st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n; n += 1; st.append(w); on.add(w)
                    work.append((w, iter(succ[w]))); adv = True; break
                elif w in on: low[v] = min(low[v], idx[w])
            if adv: continue
            work.pop()
            if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop(); on.discard(w); c.append(w)
                    if w == v: break
                out.append(c)
    return out

def operands(i):
    """SSA value ids an instruction uses (phi excluded by callers who need it)."""
    out = []
    def walk(v):
        if isinstance(v, int): out.append(v)
        elif isinstance(v, list) and v and v[0] in ("cg", "cast"):
            for w in v[1:]:
                if isinstance(w, list): walk(w)
    for v in i.a: walk(v)
    if i.op == "getelementptr":
        for e in i.x:
            if e[0] in ("i", "p"): walk(e[1])
    elif i.op == "call":
        if i.x[0] is None: walk(i.x[1])
    return out

class Prog:
    def __init__(self, path):
        raw = open(path).read()
        self.raw = {}; self.fn_cache = {}; self.globals = {}; self.decls = set()
        self.types = []; self.names = {}; self.stat = {}
        for r in re.split(r'\n(?=\{"t":)', raw):
            if r.startswith('{"t":"fn"'):
                m = re.match(r'\{"t":"fn","name":"([^"]+)"', r)
                self.raw[m.group(1)] = r
            elif r.startswith('{"t":"gv"'):
                m = re.match(r'\{"t":"gv","name":"([^"]+)"', r)
                self.globals[m.group(1)] = r
            elif r.startswith('{"t":"decl"'):
                self.decls.add(json.loads(r)["name"])
            elif r.startswith('{"t":"types"'):
                d = json.loads(r); self.types = d["types"]; self.names = d["names"]
            elif r.startswith('{"t":"stat"'):
                self.stat = json.loads(r)
    def fn(self, name):
        f = self.fn_cache.get(name)
        if f is None:
            r = self.raw.get(name)
            if r is None: return None
            f = self.fn_cache[name] = Func(json.loads(r), self)
        return f
    def functions(self):
        for n in list(self.raw):
            yield self.fn(n)
    def gv(self, name):
        g = self.globals.get(name)
        if isinstance(g, str):
            g = self.globals[name] = json.loads(g)
        return g
    # --- types
    def ty(self, t):
        """resolve exported pointee type: int id or [id, peeled dims]"""
        if isinstance(t, list): t = t[0]
        if t is None or t < 0: return None
        return self.types[t]
    def tname(self, t):
        d = self.ty(t)
        if d is None: return None
        return d.get("name")
    def struct(self, name):
        t = self.names.get(name)
        return None if t is None else self.types[t]
    def type_str(self, t, depth=0):
        d = self.ty(t)
        if d is None: return "void"
        k = d["k"]
        if k == "ptr": return self.type_str(d["to"], depth + 1) + "*"
        if k == "array": return self.type_str(d["elem"]) + "".join("[%d]" % x for x in d["dims"])
        if k == "atomic": return "_Atomic " + self.type_str(d["to"])
        if k == "func": return "fn"
        return d.get("name") or ("anon " + k)
    # leaves: yield (path, type id) for all scalar leaves of a type; arrays of <= maxn elements are expanded
    def leaves(self, t, maxn=16, prefix=()):
        d = self.ty(t)
        if d is None: return
        k = d["k"]
        if k in ("struct", "union"):
            nm = d["name"]
            for m in d["m"]:
                if k == "union":
                    pass
                yield from self.leaves(m[3], maxn, prefix + ("%s.%s" % (nm, m[0]),))
                if k == "union": break
        elif k == "array":
            def rec(dims, pre):
                if not dims:
                    yield from self.leaves(d["elem"], maxn, pre)
                elif 0 <= dims[0] <= maxn:
                    for j in range(dims[0]):
                        yield from rec(dims[1:], pre + (("i", ("c", j)),))
            yield from rec(d["dims"], prefix)
        else:
            yield prefix, t

def cls_of(path):
    """field class of an access path: innermost named struct plus trailing anonymous members"""
    suf = []
    for e in reversed(path):
        if isinstance(e, str):
            st, fld = e.split(".", 1)
            suf.append(fld)
            if st and not st.startswith("?"):
                suf.append(st)
                s = suf[-1]
                for x in reversed(suf[:-1]):
                    s += x if x == "[]" else "." + x
                return s
        else:
            suf.append("[]")
    return "*" + "".join(reversed(suf))

def path_str(path):
    s = ""
    for e in path:
        if isinstance(e, str):
            s += "." + e.split(".", 1)[1]
        else:
            t = e[1]
            s += "[%s]" % (t[1] if t[0] == "c" else "?")
    return s
