"""Worlds with counted buffers: evaluates library functions over a decoder whose handles are enumerated from the types, and keeps the books of
reference counts.  Nothing is executed; fields with several possible values are split when they are first read."""
from world import *

def O(n, off=0): return ("ptr", ("obj", n), off)

class RW:
    """cells: {(object, offset): value or ("alts", [(value, note)...])}; owners: objects whose Dav1dRef* members own a reference"""
    LEAF = ("dav1d_log",)
    def __init__(self, ctx, P, L, n_fc=1, n_tc=1, models=None, into=None, default0=("c", "fc", "hdr", "seq"), fail=True, max_paths=4096):
        self.ctx, self.P, self.L = ctx, P, L
        self.n_fc, self.n_tc = n_fc, n_tc
        self.cells = {}
        self.types = {}       # object name -> (struct, count)
        self.models = dict(models or {})
        self.no_into = set(); self.into_only = into
        self.default0 = set(default0)
        self.fail = fail; self.max_paths = max_paths
        self.assumed = set()
        self._leaves = {}
        self.cnt = L.off("Dav1dRef", "ref_cnt")
        S = L.size
        self.objs("c", "Dav1dContext", 1); self.objs("fc", "Dav1dFrameContext", max(n_fc, 1)); self.objs("od", "Dav1dThreadPicture", max(n_fc, 1))
        self.objs("tile", "Dav1dTileGroup", 3)
        for n in range(max(n_fc, 1)):
            self.objs("ftile%d" % n, "Dav1dTileGroup", 3)
            self.set("fc", "c", O("c"), n); self.set("fc", "tile", O("ftile%d" % n), n); self.set("fc", "task_thread.ttd", O("c", L.off("Dav1dContext", "task_thread")), n)
            self.set("fc", "n_tile_data_alloc", 3, n); self.set("fc", "lf.last_sharpness", -1, n)
        self.set("c", "fc", O("fc")); self.set("c", "n_fc", n_fc); self.set("c", "n_tc", n_tc); self.set("c", "tc", O("tc"))
        self.set("c", "tile", O("tile")); self.set("c", "n_tile_data_alloc", 3)
        self.set("c", "frame_thread.out_delayed", O("od")); self.set("c", "flush", O("c", L.off("Dav1dContext", "flush_mem")))
        for m in ("seq_hdr_pool", "frame_hdr_pool", "segmap_pool", "refmvs_pool", "cdf_pool", "picture_pool", "pic_ctx_pool"): self.set("c", m, O(m))
        self.set("c", "allocator.alloc_picture_callback", ("ptr", ("g", "cb_alloc"), 0)); self.set("c", "allocator.release_picture_callback", ("ptr", ("g", "cb_release"), 0))
        self.set("c", "dsp[0].ipred.intra_pred[0]", ("ptr", ("g", "dsp"), 0)); self.set("c", "dsp[1].ipred.intra_pred[0]", ("ptr", ("g", "dsp"), 0)); self.set("c", "dsp[2].ipred.intra_pred[0]", ("ptr", ("g", "dsp"), 0))
    def objs(self, name, struct, n): self.types[name] = (struct, n)
    def set(self, obj, path, v, idx=0):
        st = self.types[obj][0]
        o = self.L.off(st, path)
        if o is None: self.ctx.require(False, "%s.%s is gone" % (st, path))
        self.cells[(obj, o + idx * self.L.size(st))] = v
    def at(self, obj, path, idx=0):
        st = self.types[obj][0]; o = self.L.off(st, path)
        if o is None: self.ctx.require(False, "%s.%s is gone" % (st, path))
        return O(obj, o + idx * self.L.size(st))
    def get(self, w, mem, obj, path, idx=0, ty=None):
        r = self.L.find(self.types[obj][0], path)
        if r is None: self.ctx.require(False, "%s.%s is gone" % (self.types[obj][0], path))
        if ty is None: ty = "ptr" if r[2]["k"] == "ptr" else "i%d" % (8 * r[2]["size"])
        return w.read(mem, self.at(obj, path, idx), ty)
    # --- leaves of a struct
    def leaves(self, struct):
        """[(offset, kind, path)] kind: ref / ptr / int; unions contribute their first member; long arrays of scalars are left out"""
        if struct in self._leaves: return self._leaves[struct]
        L = self.L; out = []
        st = [(0, self.P.struct(struct), "")]
        while st:
            o, d, p = st.pop()
            if d is None: continue
            k = d["k"]
            if k == "ptr":
                x = L.strip(d["to"]) if d.get("to") is not None else None
                out.append((o, "ref" if x and x.get("name") == "Dav1dRef" else "ptr", p))
            elif k in ("struct", "union"):
                for m in d["m"]:
                    st.append((o + m[1], L.strip(m[3]), (p + "." if p else "") + (m[0] if not m[0].startswith("?") else "")))
                    if k == "union": break
            elif k == "array":
                el = L.strip(d["elem"]); n = d["size"] // el["size"] if el and el["size"] else 0
                if el["k"] in ("struct", "union", "ptr") and n <= 64 or n <= 8:
                    for j in range(n): st.append((o + j * el["size"], el, "%s[%d]" % (p, j)))
            else: out.append((o, "i%d" % (8 * d["size"]), p))
        out.sort(); self._leaves[struct] = out
        return out
    def owners(self, only=None):
        """every cell that owns a reference: (object, offset, readable name)"""
        for name, (st, n) in self.types.items():
            if only is not None and name not in only: continue
            sz = self.L.size(st)
            for j in range(n):
                for o, k, p in self.leaves(st):
                    if k == "ref": yield name, o + j * sz, ("%s[%d].%s" % (name, j, p) if n > 1 else "%s.%s" % (name, p))
    def fill_handle(self, obj, path, tag, struct, header_only=False, idx=0, but=()):
        """a live handle: every buffer present"""
        base = self.at(obj, path, idx)[2] if path else idx * self.L.size(self.types[obj][0])
        for o, k, p in self.leaves(struct):
            if any(p == b or p.startswith(b) for b in but): continue
            if k == "ref":
                if header_only and "hdr" not in p: continue
                self.cells[(obj, base + o)] = O("%s:%s" % (tag, p))
            elif k == "ptr":
                if header_only and "hdr" not in p: continue
                self.cells[(obj, base + o)] = ("ptr", ("obj", "%s>%s" % (tag, p)), 0)
    # --- evaluation hooks
    def init(self, inst, a, ty):
        b = a[1]
        if b[0] == "obj":
            k = (b[1], a[2])
            if k in self.cells: return self.cells[k]
            if b[1] in self.types:
                st, n = self.types[b[1]]
                if a[2] is None: return UNK
                kd = self.kind(st, a[2] % self.L.size(st))
                if kd == "ref": return 0
                if kd == "ptr" or ty == "ptr":
                    if b[1] in ("c", "fc") and kd == "ptr" and ty == "ptr":
                        nm = self.L.name(st, a[2] % self.L.size(st))
                        # payload pointers of empty handles are null; other pointers exist
                        if self.payload(st, a[2] % self.L.size(st)): return 0
                        return NotImplemented
                    return 0 if b[1] in ("od", "tile", "in", "out", "data", "pic", "props") or b[1].startswith("ftile") else NotImplemented
                if b[1] in self.default0 or b[1] in ("od", "tile") or b[1].startswith("ftile"):
                    self.assumed.add("%s.%s" % (st, self.L.name(st, a[2] % self.L.size(st)))); return 0
            if b[1].split(">")[0] != b[1]:
                return NotImplemented
            if a[2] == self.cnt and ty == "i32": return UNK
        if b[0] == "new": return UNK
        return NotImplemented
    def kind(self, st, off):
        d = getattr(self, "_k", None)
        if d is None: d = self._k = {}
        if st not in d: d[st] = {o: k for o, k, p in self.leaves(st)}
        return d[st].get(off)
    def payload(self, st, off):
        """is the pointer at this offset part of a handle (a struct that also has a Dav1dRef* member)?"""
        d = getattr(self, "_p", None)
        if d is None: d = self._p = {}
        if st not in d:
            lv = self.leaves(st); refs = {p.rsplit(".", 1)[0] if "." in p else "" for o, k, p in lv if k == "ref"}
            s = set()
            top = {p for o, k, p in lv if k == "ref" and "." not in p and "[" not in p}
            for o, k, p in lv:
                if k != "ptr": continue
                par = p.rsplit(".", 1)[0] if "." in p else ""
                if par in refs and par: s.add(o)
                elif any(r == p + "_ref" or r.startswith(p + "_ref") for r in [q for _, kk, q in lv if kk == "ref"]): s.add(o)
                else:
                    q = par
                    while "." in q or q:
                        if q in refs: s.add(o); break
                        q = q.rsplit(".", 1)[0] if "." in q else ""
            for o, k, p in lv:      # ref_mvs[i] / mvs / cur_segmap style names
                if k == "ptr":
                    import re
                    m = re.match(r"(.*?)(\[\d+\])?$", p); 
                    if any(q == m.group(1) + "_ref" + (m.group(2) or "") for _, kk, q in lv if kk == "ref"): s.add(o)
            d[st] = s
        return off in d[st]
    def new(self, i, ev, tag="new"): return ("ptr", ("new", "%s%d.%d" % (tag, i.id, len(ev))), 0)
    def maybe(self, v, what): 
        return ("alts", [(v, None), (0, what + " fails")]) if self.fail else v
    def call(self, w, i, av, mem, ev):
        n = i.callee or ""
        L = self.L
        if n in self.models:
            r = self.models[n](self, w, i, av, mem, ev)
            if r is not NotImplemented: return r
        if n == "dav1d_ref_dec":
            v = w.read(mem, av[0], "ptr", i)
            if v != 0: ev.append(("dec", i, v))
            if w.ptr(av[0]): mem.store(av[0], 0)
            return UNK
        if n == "dav1d_ref_inc": ev.append(("inc", i, av[0])); return UNK
        if n in ("dav1d_ref_create", "dav1d_ref_create_using_pool", "dav1d_ref_wrap"):
            r = self.new(i, ev, "ref")
            mem.store(("ptr", r[1], L.off("Dav1dRef", "data")), ("ptr", ("dat", r[1]), 0))
            mem.store(("ptr", r[1], L.off("Dav1dRef", "const_data")), ("ptr", ("dat", r[1]), 0))
            ev.append(("create", i, r))
            return self.maybe(r, n)
        if n == "dav1d_ref_init":
            r = av[0]
            ev.append(("create", i, r)); mem.store(("ptr", r[1], r[2] + L.off("Dav1dRef", "const_data")) if w.ptr(r) and r[2] is not None else r, av[1])
            if w.ptr(r) and r[2] is not None: mem.store(("ptr", r[1], r[2] + L.off("Dav1dRef", "user_data")), av[3])
            return r
        if n == "posix_memalign":
            r = self.new(i, ev, "mem"); ev.append(("alloc", i, r))
            return ("alts", [(0, None, [(av[0], r)])] + ([(12, n + " fails", [(av[0], UNK)])] if self.fail else []))
        if n in ("malloc", "realloc", "aligned_alloc", "memalign", "dav1d_alloc_aligned", "calloc"):
            r = self.new(i, ev, "mem")
            if n == "realloc" and w.ptr(av[0]): mem.fill(r, None, ("copy", av[0], mem.copy()))
            if n == "calloc": mem.fill(r, None, 0)
            ev.append(("alloc", i, r))
            return self.maybe(r, n)
        if n in ("free", "dav1d_free_aligned"): ev.append(("free", i, av[0])); return UNK
        if n == "dav1d_mem_pool_pop":
            r = self.new(i, ev, "pool"); ev.append(("pop", i, r)); 
            mem.store(("ptr", r[1], L.off("Dav1dMemPoolBuffer", "data")), ("ptr", ("dat", r[1]), 0))
            return self.maybe(r, n)
        if n == "dav1d_mem_pool_push": ev.append(("push", i, av[1])); return UNK
        if i.callee is None:
            t = w.val({}, None) if False else None
            tg = ev[-1][3] if ev and ev[-1][0] == "call" else None
            if tg == ("ptr", ("g", "cb_alloc"), 0) or self.slot(i) == "alloc_picture_callback":
                p = av[0]
                if w.ptr(p) and p[2] is not None: mem.store(("ptr", p[1], p[2] + L.off("Dav1dPicture", "data")), self.new(i, ev, "pix"))
                return ("alts", [(0, None), (-12, "the picture allocator fails")]) if self.fail else 0
            return NotImplemented
        if n.startswith("pthread_"): return 0
        if n in self.no_into or n in self.LEAF: return UNK
        if n in self.P.raw and (self.into_only is None or n in self.into_only): return ("into", n)
        return NotImplemented
    def world(self): return World(self.P, self.init, self.call, max_paths=self.max_paths)
    def run(self, fn, args):
        f = fn if not isinstance(fn, str) else self.P.fn(fn)
        self.ctx.require(f is not None, "%s is gone" % fn)
        w = self.world()
        try: res = w.run(f, args)
        except Limit as e: self.ctx.require(False, "%s cannot be evaluated (%s)" % (f.name, e))
        self.ctx.count("paths", len(res)); self.ctx.count("evaluated_steps", w.steps)
        return w, f, res
    # --- books
    def slot(self, i):
        """field the called pointer was loaded from"""
        d = i.fn.insts.get(i.x[1]) if isinstance(i.x[1], int) else None
        if d is None or d.op != "load": return None
        from scan import addr_class
        return (addr_class(i.fn, d.a[0])[0] or "").rsplit(".", 1)[-1]
    def is_count(self, i):
        d = getattr(self, "_c", None)
        if d is None: d = self._c = {}
        k = id(i)
        if k not in d:
            from scan import addr_class
            d[k] = (addr_class(i.fn, i.a[1] if i.op == "store" else i.a[0])[0] or "") == "Dav1dRef.ref_cnt"
        return d[k]
    def failed(self, ev):
        """notes of the failing steps on this path"""
        return [e[3] for e in ev if e[0] == "alt" and e[3]]
    def books(self, w, ev, mem, extra_owner=()):
        """compares the references taken with the handles that hold them; yields (buffer, references taken, handles gained, where)"""
        net = {}
        skip = None
        for k, e in enumerate(ev):
            if e[0] == "create":
                nx = ev[k + 1] if k + 1 < len(ev) else None
                if nx is not None and nx[0] == "alt" and nx[1] is e[1] and nx[2] == 0: continue      # the creation failed
                net[e[2]] = net.get(e[2], 0) + 1
            elif e[0] == "inc": net[e[2]] = net.get(e[2], 0) + 1
            elif e[0] == "dec": net[e[2]] = net.get(e[2], 0) - 1
            elif e[0] == "store" and self.is_count(e[1]):
                if w.ptr(e[2]) and e[2][2] is not None: b = ("ptr", e[2][1], e[2][2] - self.cnt); net[b] = net.get(b, 0) + (e[3] if isinstance(e[3], int) else 1)
            elif e[0] == "rmw" and self.is_count(e[1]):
                a = e[2]
                if not w.ptr(a) or a[2] is None: continue
                b = ("ptr", a[1], a[2] - self.cnt); n = e[3] if isinstance(e[3], int) else 1
                net[b] = net.get(b, 0) + (n if e[1].x[1] == "add" else -n)
        own = {}
        names = {}
        moved = {}      # the tile array may have been reallocated: it is found through its pointer
        for name, host, path in (("tile", "c", "tile"),):
            p = w.read(mem, self.at(host, path), "ptr")
            if w.ptr(p) and p[1] != ("obj", name) and p[2] is not None: moved[name] = p
        sz = self.L.size("Dav1dTileGroup")
        cells = [(n, o, nm) for n, o, nm in self.owners()]
        for name in moved: cells += [(name, self.types[name][1] * sz + o, "%s[%d].%s" % (name, self.types[name][1], p)) for o, k, p in self.leaves(self.types[name][0]) if k == "ref"]
        for name, o, nm in cells:
            b = self.cells.get((name, o), 0)
            a = w.read(mem, O(name, o) if name not in moved else ("ptr", moved[name][1], moved[name][2] + o), "ptr")
            if isinstance(b, tuple) and b[0] == "alts": continue
            if a == b: continue
            if b != 0: own[b] = own.get(b, 0) - 1; names.setdefault(b, []).append("-" + nm)
            if a != 0: own[a] = own.get(a, 0) + 1; names.setdefault(a, []).append("+" + nm)
        for k in set(net) | set(own):
            self.ctx.count("buffers_balanced")
            if net.get(k, 0) != own.get(k, 0): yield k, net.get(k, 0), own.get(k, 0), names.get(k, [])
