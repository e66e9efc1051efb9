"""Partial evaluation of one function under a stated assumption about the memory it starts from.
Memory is tracked per (base, byte offset).  A cell that was never written reads as the caller of World says (init), and otherwise as a
fresh object when it is a pointer and as unknown when it is not.  Branches on unknown values are followed both ways.  Nothing is executed."""
from constprop import CP, Limit
from ir import *

UNK = None

class Mem:
    """log of writes; the youngest covering entry wins"""
    __slots__ = ("cells", "ranges")
    def __init__(self, cells=None, ranges=None):
        self.cells = cells if cells is not None else {}; self.ranges = ranges if ranges is not None else []
    def copy(self): return Mem(dict(self.cells), list(self.ranges))
    def store(self, a, v): self.cells[(a[1], a[2])] = v
    def fill(self, a, n, what):
        """memset/memcpy of n bytes (n None: unknown extent -> the whole object behind the address)"""
        b, o = a[1], a[2]
        for k in [k for k in self.cells if k[0] == b and (o is None or n is None or o <= k[1] < o + n)]: del self.cells[k]
        self.ranges.append((b, o, n, what))
    def look(self, a):
        k = (a[1], a[2])
        if k in self.cells: return ("v", self.cells[k])
        for b, o, n, what in reversed(self.ranges):
            if b == a[1] and (o is None or a[2] is None or (o <= a[2] and (n is None or a[2] < o + n))): return ("r", what, o)
        return None

class World(CP):
    """init(inst, addr, ty) -> value or NotImplemented for never-written cells; call(world, inst, args, mem, env) -> value / NotImplemented;
    exact: paths are kept apart; each result is (events, value, mem)"""
    def __init__(self, prog, init=None, call=None, max_steps=2000000, max_paths=256, branch=None, state=None, on=None, atomic=None):
        CP.__init__(self, prog, None, None, max_steps, max_paths)
        self.init = init; self.hcall = call; self.branch = branch; self.state0 = state; self.on = on; self.hatomic = atomic
    def ptr(self, v): return isinstance(v, tuple) and v and v[0] == "ptr"
    def read(self, mem, a, ty, inst=None):
        if not self.ptr(a): return ("ptr", ("unk", id(inst)), 0) if False else UNK
        r = mem.look(a)
        if r:
            if r[0] == "v": return r[1]
            w = r[1]
            if w == 0: return 0
            if isinstance(w, tuple) and w[0] == "copy":
                src = w[1]
                if src is None or a[2] is None or r[2] is None or src[2] is None: return UNK
                return self.read(w[2], ("ptr", src[1], src[2] + a[2] - r[2]), ty, inst)
            return UNK
        v = self.init(inst, a, ty) if self.init else NotImplemented
        if v is not NotImplemented: return v
        if a[1][0] == "al": return UNK
        if a[1][0] == "g" and a[2] is not None:      # a constant table
            v = self.constant(a[1][1], a[2], ty)
            if v is not None: return v
        if ty == "ptr" and a[2] is not None: return ("ptr", ("ld", a[1], a[2]), 0)
        return UNK
    def constant(self, g, off, ty):
        T = self.P.__dict__.setdefault("_flat", {})
        d = T.get(g)
        if d is None:
            d = {}
            x = self.P.gv(g)
            for o, n, v in (x or {}).get("flat", ()) or (): d[o] = (n, v)
            T[g] = d
        r = d.get(off)
        if r is None: return None
        n, v = r
        if isinstance(v, int): return v if ty == "ptr" or ty == "i%d" % (8 * n) else None
        return self.val({}, v) if ty == "ptr" else None
    def run(self, f, args, mem=None):
        """results of every path: (events, returned value, memory)"""
        self.steps = 0
        out = []
        # a frame: [function, block, index of the next instruction, previous block, values, id base for allocas]
        self.serial = 0
        work = [([[f, 0, 0, None, dict(args), 0]], [], mem.copy() if mem else Mem())]
        while work:
            st, ev, mem = work.pop()
            try: self.drive(st, ev, mem, work, out)
            except Limit as e:
                # the paths as far as they were followed
                if not hasattr(e, "cut"): e.cut = [(ev, mem)] + [(x[0], x[2]) for x in out[:64]]
                raise
        return out
    def push(self, work, out, item):
        if len(work) + len(out) > self.max_paths: raise Limit(item[0][0][0].name)
        work.append(item)
    def drive(self, st, ev, mem, work, out):
        while True:
            fr = st[-1]
            f, bi, k, pb, env, ser = fr
            if k == 0:
                if bi in f.dead_blocks(): return
                blk = f.blocks[bi]
                phis = {}
                for i in blk:
                    if i.op != "phi": break
                    phis[i.id] = UNK
                    for v, p in zip(i.a, i.x):
                        if p == pb: phis[i.id] = self.val(env, v); break
                env.update(phis)
            blk = f.blocks[bi]
            nxt = None; jumped = False
            while k < len(blk):
                i = blk[k]; k += 1
                op = i.op
                if op == "phi": continue
                self.steps += 1
                if self.steps > self.max: raise Limit(f.name)
                if self.hatomic and (op in ("atomicrmw", "cmpxchg") or op in ("load", "store") and i.x and i.x[0]) and env.get("again") != (bi, k):
                    r = self.hatomic(self, i, mem, ev)       # something else may run just before an atomic access
                    env["again"] = (bi, k)
                    if r is not None:
                        fr[1], fr[2] = bi, k - 1
                        self.serial += 1
                        g = self.P.fn(r[1]); ev.append(("enter", i, g.name, r[2]))
                        st.append([g, 0, 0, None, dict([(j, x) for j, x in enumerate(r[2])] + [("resume", True)]), self.serial])
                        jumped = True; break
                if env.get("again") is not None and env["again"] != (bi, k): env.pop("again")
                if op == "br":
                    if len(i.x) == 1: nxt = i.x[0]
                    else:
                        c = self.val(env, i.a[0])
                        if not isinstance(c, int) and self.branch: c = self.branch(self, i, env, ev, mem)
                        if isinstance(c, int): nxt = i.x[0] if c & 1 else i.x[1]
                        else: nxt = ("fork", [t for t in dict.fromkeys(i.x) if t not in f.dead_blocks()], i)
                elif op == "switch":
                    c = self.val(env, i.a[0])
                    if not isinstance(c, int) and self.branch: c = self.branch(self, i, env, ev, mem)
                    if isinstance(c, int):
                        nxt = i.x[0]
                        for kk, t in i.x[1:]:
                            if kk == c: nxt = t
                    else: nxt = ("fork", [t for t in dict.fromkeys([i.x[0]] + [t for _, t in i.x[1:]]) if t not in f.dead_blocks()], i)
                elif op == "ret":
                    v = env["result"] if "result" in env else self.val(env, i.a[0]) if i.a else None
                    st.pop()
                    if not st:
                        out.append((ev, v, mem)); return
                    ev.append(("leave", i, f.name, v))
                    if "resume" in env: jumped = True; break
                    cal = st[-1]; ci = cal[0].blocks[cal[1]][cal[2] - 1]
                    if ci.ty != "void": cal[4][ci.id] = v
                    jumped = True; break
                elif op == "unreachable": return
                elif op == "store":
                    a = self.val(env, i.a[1]); v = self.val(env, i.a[0])
                    ev.append(("store", i, a, v))
                    if self.ptr(a) and a[2] is not None: mem.store(a, v)
                elif op == "load":
                    a = self.val(env, i.a[0])
                    v = self.read(mem, a, i.ty, i)
                    if isinstance(v, tuple) and v and v[0] == "alts":      # a field with several possible values is split when it is first read
                        for alt in v[1][1:]:
                            e2 = dict(env); e2[i.id] = alt; m2 = mem.copy(); m2.store(a, alt)
                            s2 = [x[:4] + [dict(x[4]), x[5]] for x in st[:-1]] + [[f, bi, k, pb, e2, ser]]
                            self.push(work, out, (s2, list(ev) + [("pick", i, a, alt), ("load", i, a, alt)], m2))
                        v = v[1][0]; mem.store(a, v); ev.append(("pick", i, a, v))
                    env[i.id] = v
                    ev.append(("load", i, a, v))
                elif op == "atomicrmw":
                    a = self.val(env, i.a[0]); v = self.val(env, i.a[1])
                    old = self.read(mem, a, i.ty, i); env[i.id] = old
                    ev.append(("rmw", i, a, v))
                    if self.ptr(a) and a[2] is not None:
                        kd = i.x[1]
                        new = UNK
                        if kd == "xchg": new = v
                        elif isinstance(v, int) and isinstance(old, int): new = {"add": old + v, "sub": old - v, "or": old | v, "and": old & v}.get(kd, UNK)
                        mem.store(a, new)
                elif op == "cmpxchg":
                    a = self.val(env, i.a[0]); ev.append(("cas", i, a, self.val(env, i.a[1]), self.val(env, i.a[2])))
                    env[i.id] = UNK
                    if self.ptr(a) and a[2] is not None: mem.store(a, UNK)
                elif op == "call":
                    av = [self.val(env, x) for x in i.a]
                    n = i.callee or ""
                    if n.startswith("llvm.lifetime") or n.startswith("llvm.dbg") or n.startswith("llvm.assume"): continue
                    if n.startswith("llvm.memset"):
                        ev.append(("set", i, av[0], av[1], av[2]))
                        if self.ptr(av[0]): mem.fill(av[0], av[2] if isinstance(av[2], int) else None, 0 if av[1] == 0 else "?")
                        continue
                    if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
                        ev.append(("copy", i, av[0], av[1], av[2]))
                        if self.ptr(av[0]): mem.fill(av[0], av[2] if isinstance(av[2], int) else None, ("copy", av[1] if self.ptr(av[1]) else None, mem.copy()))
                        continue
                    tgt = self.val(env, i.x[1]) if i.callee is None else None
                    ev.append(("call", i, av, tgt))
                    r = self.hcall(self, i, av, mem, ev) if self.hcall else NotImplemented
                    if r is NotImplemented:
                        r = UNK
                        if n.startswith(("llvm.umin.i", "llvm.smin.i", "llvm.umax.i", "llvm.smax.i")) and all(isinstance(x, int) for x in av[:2]):
                            bw = int(n.rsplit(".i", 1)[1]); u = [x & (1 << bw) - 1 for x in av[:2]]
                            if n[5] == "s": u = [x - (1 << bw) if x >> bw - 1 else x for x in u]
                            r = min(u) if "min" in n else max(u)
                            if r >= 1 << bw - 1: r -= 1 << bw
                        elif n.startswith(("llvm.ctlz.i", "llvm.cttz.i", "llvm.ctpop.i", "llvm.abs.i")) and isinstance(av[0], int):
                            bw = int(n.rsplit(".i", 1)[1]); x = av[0] & (1 << bw) - 1
                            r = bw - x.bit_length() if "ctlz" in n else (x & -x).bit_length() - 1 if "cttz" in n and x else bw if "cttz" in n else bin(x).count("1") if "ctpop" in n else x if x < 1 << bw - 1 else (1 << bw) - x
                    if isinstance(r, tuple) and r and r[0] == "into":      # evaluate the callee's body too
                        g = r[1] if not isinstance(r[1], str) else self.P.fn(r[1])
                        if len(st) > 12: raise Limit("recursion in " + g.name)
                        fr[1], fr[2] = bi, k
                        self.serial += 1
                        ev.append(("enter", i, g.name, av))
                        na = r[2] if len(r) > 2 else av        # another function may run in place of the callee: ("into", function, arguments, result)
                        e0 = {j: na[j] for j in range(min(len(na), len(g.args)))}
                        if len(r) > 3: e0["result"] = r[3]
                        st.append([g, 0, 0, None, e0, self.serial])
                        jumped = True; break
                    if isinstance(r, tuple) and r and r[0] == "alts":      # several possible results
                        # (value, note[, stores the alternative makes])
                        for alt, note, *eff in r[1][1:]:
                            e2 = dict(env); e2[i.id] = alt; m2 = mem.copy()
                            for sa, sv in (eff[0] if eff else ()): m2.store(sa, sv)
                            s2 = [x[:4] + [dict(x[4]), x[5]] for x in st[:-1]] + [[f, bi, k, pb, e2, ser]]
                            self.push(work, out, (s2, list(ev) + [("alt", i, alt, note)], m2))
                        alt, note, *eff = r[1][0]
                        for sa, sv in (eff[0] if eff else ()): mem.store(sa, sv)
                        env[i.id] = alt; ev.append(("alt", i, alt, note))
                        continue
                    if r == "stop": return
                    if i.ty != "void": env[i.id] = r
                elif op == "alloca": env[i.id] = ("ptr", ("al", i.id, f.name, ser), 0)
                else:
                    env[i.id] = self.ev(env, i, f)
            if jumped: continue
            if nxt is None: return
            if isinstance(nxt, tuple):
                ts = nxt[1]
                if not ts: return
                for t in ts[1:]:
                    s2 = [x[:4] + [dict(x[4]), x[5]] for x in st[:-1]] + [[f, t, 0, bi, self.learn(env, nxt[2], t, f), ser]]
                    self.push(work, out, (s2, list(ev) + [("br", nxt[2], t)], mem.copy()))
                fr[4] = self.learn(env, nxt[2], ts[0], f); ev.append(("br", nxt[2], ts[0])); nxt = ts[0]
            fr[1], fr[2], fr[3] = nxt, 0, bi
    def gep(self, env, b, x):
        if b == 0 and isinstance(b, int):      # an address computed from a null pointer
            r = CP.gep(self, env, ("ptr", ("null",), 0), x)
            return 0 if r[2] == 0 else r
        return CP.gep(self, env, b, x)
    @staticmethod
    def nulls(ev):
        """accesses through a null pointer on a path: (instruction, what)"""
        def z(a): return isinstance(a, int) and a is not UNK or isinstance(a, tuple) and a[0] == "ptr" and a[1] == ("null",)
        for e in ev:
            if e[0] in ("load", "store", "rmw", "cas"):
                if z(e[2]): yield e[1], "read" if e[0] == "load" else "written"
            elif e[0] == "set":
                if z(e[2]) and e[4] != 0: yield e[1], "written"
            elif e[0] == "copy":
                if e[4] != 0 and (z(e[2]) or z(e[3])): yield e[1], "written" if z(e[2]) else "read"
    def learn(self, env, br, t, f):
        """equality facts a followed branch establishes"""
        e = dict(env)
        c = br.a[0]
        if isinstance(c, int):
            if br.op == "br":
                e[c] = 1 if t == br.x[0] else 0
                i = f.insts.get(c)
                if i is not None and i.op == "icmp":
                    p = i.x if isinstance(i.x, str) else i.x[0]
                    eq = (p == "eq") == bool(e[c])
                    if p in ("eq", "ne") and eq:
                        x, y = i.a
                        vx, vy = self.val(env, x), self.val(env, y)
                        if isinstance(x, int) and vx is None and isinstance(vy, int): e[x] = vy
                        elif isinstance(y, int) and vy is None and isinstance(vx, int): e[y] = vx
            else:
                ks = [k for k, x in br.x[1:] if x == t]
                if len(ks) == 1 and t != br.x[0]: e[c] = ks[0]
        return e
    def ev(self, env, i, f=None):
        op = i.op
        if op == "icmp":
            a = [self.val(env, v) for v in i.a]
            p = i.x if isinstance(i.x, str) else i.x[0]
            if p in ("eq", "ne"):
                r = self.same(a[0], a[1])
                if r is not None: return int(r == (p == "eq"))
                return None
            if all(self.ptr(x) for x in a) and a[0][1] == a[1][1] and None not in (a[0][2], a[1][2]):
                x, y = a[0][2], a[1][2]
                return int({"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[p])
            if any(self.ptr(x) for x in a): return None
            # nothing is below zero, whatever the other side is
            if a[1] == 0 and isinstance(a[1], int) and p in ("ult", "uge"): return int(p == "uge")
            if a[0] == 0 and isinstance(a[0], int) and p in ("ugt", "ule"): return int(p == "ule")
        if op in ("sub",):
            a = [self.val(env, v) for v in i.a]
            if all(self.ptr(x) for x in a):
                if a[0][1] == a[1][1] and None not in (a[0][2], a[1][2]): return a[0][2] - a[1][2]
                return None
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "zext", "sext", "trunc"):
            a = [self.val(env, v) for v in i.a]
            if any(isinstance(x, tuple) for x in a): return None
            if op == "or" and any(isinstance(x, int) and x == 1 and i.ty == "i1" for x in a): return 1
        return CP.ev(self, env, i, f)
    def same(self, x, y):
        if isinstance(x, int) and isinstance(y, int): return x == y
        px, py = self.ptr(x), self.ptr(y)
        if px and py:
            if x[1] == y[1]: return None if None in (x[2], y[2]) else x[2] == y[2]
            if x[1][0] in ("al", "obj", "g", "new") and y[1][0] in ("al", "obj", "g", "new"): return False
            return None
        if px and y == 0 or py and x == 0: return False
        return None

class Lay:
    """byte offsets of members"""
    def __init__(self, P): self.P = P
    def strip(self, t):
        d = self.P.ty(t)
        while d and d["k"] == "atomic": d = self.P.ty(d["to"])
        return d
    def member(self, d, name):
        for m in d["m"]:
            if m[0] == name: return m[1], m[3]
            if m[0] == "" or m[0].startswith("?"):
                k = self.strip(m[3])
                if k and k["k"] in ("struct", "union"):
                    r = self.member(k, name)
                    if r: return m[1] + r[0], r[1]
        return None
    def find(self, struct, path):
        """(offset, type id) of a path such as refs[3].p.p.frame_hdr, or None"""
        import re
        d = self.P.struct(struct) if isinstance(struct, str) else struct
        off = 0; t = None
        for tok in re.findall(r"[A-Za-z_]\w*|\[\d+\]", path):
            if d is None: return None
            if tok[0] == "[":
                if d["k"] != "array": return None
                dims = d["dims"]; el = self.P.ty(d["elem"])
                sz = d["size"] // dims[0] if dims and dims[0] > 0 else el["size"]
                off += int(tok[1:-1]) * sz
                if len(dims) > 1: d = dict(k="array", elem=d["elem"], size=sz, dims=dims[1:])
                else: t = d["elem"]; d = self.strip(t)
            else:
                r = self.member(d, tok) if d["k"] in ("struct", "union") else None
                if r is None: return None
                off += r[0]; t = r[1]; d = self.strip(t)
        return off, t, d
    def off(self, struct, path):
        r = self.find(struct, path)
        return None if r is None else r[0]
    def size(self, struct, path=None):
        if path is None: return self.P.struct(struct)["size"]
        r = self.find(struct, path)
        return None if r is None else r[2]["size"]
    def target(self, struct, path):
        """name of the struct a pointer member points to"""
        r = self.find(struct, path)
        if r is None or r[2]["k"] != "ptr": return None
        x = self.strip(r[2]["to"])
        return x.get("name") if x else None
    def name(self, struct, off, depth=0):
        """readable path of an offset"""
        d = self.P.struct(struct) if isinstance(struct, str) else struct
        s = ""
        while d is not None:
            if d["k"] == "array":
                el = self.strip(d["elem"]); esz = el["size"]
                sz = d["size"]
                dims = d["dims"]
                for n in dims:
                    if n <= 0: return s
                    sz //= n
                    s += "[%d]" % (off // sz); off %= sz
                d = el
            elif d["k"] in ("struct", "union"):
                hit = None
                for m in d["m"]:
                    k = self.strip(m[3])
                    if m[1] <= off < m[1] + max(k["size"] if k else m[2], 1): hit = m
                    if hit and d["k"] == "union": break
                if not hit: return s
                if hit[0] and not hit[0].startswith("?"): s += ("." if s else "") + hit[0]
                off -= hit[1]; d = self.strip(hit[3])
            else: return s
        return s
