"""Conditional constant dataflow over one function: values known under assumptions about some loads, blocks reachable under them,
and an optional must/may client.  Nothing is executed: this is a fixpoint over the control-flow graph."""
from constprop import CP
from ir import *

TOP = object()

class CCP(CP):
    """load(inst, addr) -> value or None; call(inst, args) -> value or None; args: {k: value}"""
    def __init__(self, prog, f, args=None, load=None, call=None, step=None, init=None, join=None, edge=None):
        CP.__init__(self, prog, load, call)
        self.f = f; self.stepcb = step; self.joincb = join; self.edgecb = edge
        self.at = {}            # inst id -> client state before the instruction
        self.vals = {}
        self.solve(args or {}, init)
    def solve(self, args, init):
        f = self.f
        n = len(f.blocks)
        self.inb = [None] * n        # client state at entry
        self.reached = {0}
        edges = set()                # executable edges
        base = dict(args)
        vals = dict(base)            # SSA: one value per id; TOP until computed
        outstate = {}
        self.inb[0] = init
        work = [0]; inq = {0}
        rounds = 0
        while work:
            work.sort(key=lambda b: f.rpon.get(b, 0))
            b = work.pop(0); inq.discard(b)
            rounds += 1
            if rounds > 200 * n + 1000: raise RuntimeError("no fixpoint in " + f.name)
            st = self.inb[b]
            changed = set()
            succs = []
            for i in f.blocks[b]:
                old = vals.get(i.id, TOP)
                if i.op == "phi":
                    v = TOP
                    for a, p in zip(i.a, i.x):
                        if (p, b) not in edges: continue
                        w = vals.get(a, TOP) if isinstance(a, int) else self.val(vals, a)
                        if isinstance(a, int) and a not in vals:
                            if a in f.insts: continue      # not computed yet
                            w = None
                        if v is TOP: v = w
                        elif v != w: v = None
                    if v is TOP: v = None
                    if old is not TOP and old != v: v = None
                    if old is TOP or old != v: vals[i.id] = v; changed.add(i.id)
                    continue
                self.at[i.id] = st
                op = i.op
                if op == "br":
                    if len(i.x) == 1: succs = [(i.x[0], None)]
                    else:
                        c = self.val(vals, i.a[0])
                        if isinstance(c, int): succs = [(i.x[0] if c & 1 else i.x[1], None)]
                        else: succs = [(i.x[0], (i, 1)), (i.x[1], (i, 0))]
                elif op == "switch":
                    c = self.val(vals, i.a[0])
                    if isinstance(c, int):
                        t = i.x[0]
                        for k, x in i.x[1:]:
                            if k == c: t = x
                        succs = [(t, None)]
                    else: succs = [(i.x[0], None)] + [(x, None) for _, x in i.x[1:]]
                elif op in ("ret", "unreachable"): pass
                else:
                    v = None
                    if op == "load":
                        a = self.val(vals, i.a[0])
                        if self.loadcb: v = self.loadcb(i, a)
                    elif op == "call":
                        av = [self.val(vals, x) for x in i.a]
                        v = self.callcb(i, av) if self.callcb else None
                    elif op == "store": pass
                    else: v = self.ev(vals, i, f)
                    if i.ty != "void" and op != "store":
                        if old is not TOP and old != v: v = None
                        if old is TOP or old != v: vals[i.id] = v; changed.add(i.id)
                if self.stepcb: st = self.stepcb(st, i, vals)
            todo = []
            for t, e in succs:
                if (b, t) not in edges: edges.add((b, t)); todo.append(t)
                s2 = self.edgecb(st, e, vals) if (self.edgecb and e) else st
                if t not in self.reached:
                    self.reached.add(t); self.inb[t] = s2; todo.append(t)
                elif self.joincb:
                    j = self.joincb(self.inb[t], s2)
                    if j != self.inb[t]: self.inb[t] = j; todo.append(t)
            if changed:
                # users anywhere reached must be revisited
                for x in self.users(changed): 
                    if x in self.reached: todo.append(x)
            for t in todo:
                if t not in inq: inq.add(t); work.append(t)
        self.vals = vals; self.edges = edges
    def users(self, ids):
        u = getattr(self, "_users", None)
        if u is None:
            u = {}
            for bi, blk in enumerate(self.f.blocks):
                for i in blk:
                    for v in operands(i): u.setdefault(v, set()).add(bi)
                    if i.op == "phi":
                        for v in i.a:
                            if isinstance(v, int): u.setdefault(v, set()).add(bi)
                    if i.op == "getelementptr":
                        for e in i.x:
                            if e[0] != "f" and isinstance(e[1], int): u.setdefault(e[1], set()).add(bi)
            self._users = u
        out = set()
        for k in ids: out |= u.get(k, set())
        return out
