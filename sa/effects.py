"""Call graph and transitive write effects (field classes) of every function."""
from ir import *

PURE_EXT = {"strlen", "strcmp", "strncmp", "strchr", "strrchr", "strtol", "strtoul", "strtod", "strerror", "abs", "memcmp", "isspace",
            "fprintf", "printf", "fputs", "fputc", "putc", "vfprintf", "fwrite", "fclose", "fopen", "fflush", "free", "malloc", "calloc", "realloc",
            "posix_memalign", "aligned_alloc", "memalign", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_signal", "pthread_cond_broadcast",
            "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_attr_init", "pthread_attr_destroy",
            "pthread_attr_setstacksize", "pthread_create", "pthread_join", "prctl", "pthread_once", "getenv", "abort", "exit", "sysconf", "dlsym", "dlopen", "pthread_self",
            "sched_getaffinity", "pthread_getaffinity_np", "__errno_location", "fseeko", "ftello", "feof", "ferror", "isatty", "fileno", "qsort"}

class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.direct = {}
        self.callees = {}
        self.indirect = {}
        self.taken = {}          # dity signature -> address-taken functions
        for f in prog.functions():
            self._scan(f)
        self._slots()
        self._close()
    def _addr_cls(self, f, v, depth=0):
        """field class of the cell an address operand denotes; '*...' when only a pointer is known"""
        path = []
        while isinstance(v, int):
            i = f.insts.get(v)
            if i is None: break
            if i.op == "getelementptr":
                p = []
                for e in i.x:
                    if e[0] == "f": p.append("%s.%s" % (e[1], e[2]))
                    else: p.append(("i", ("c", 0)))
                path = p + path
                v = i.a[0]
                continue
            if i.op in ("bitcast",):
                v = i.a[0]; continue
            break
        if isinstance(v, int) and v in f.insts and f.insts[v].op == "alloca":
            return None, path
        # fold [i][p]
        return cls_of(tuple(path)) if path else "*", path
    def base_alloca(self, f, v):
        while isinstance(v, int) and v in f.insts and f.insts[v].op in ("getelementptr", "bitcast"):
            v = f.insts[v].a[0]
        return isinstance(v, int) and v in f.insts and f.insts[v].op == "alloca"
    def _scan(self, f):
        w = set(); cs = set(); ind = []
        for i in f.all_insts():
            if i.op == "store" or i.op in ("atomicrmw", "cmpxchg"):
                a = i.a[1] if i.op == "store" else i.a[0]
                c, _ = self._addr_cls(f, a)
                if c: w.add(c if not c.startswith("*") else "*")
            elif i.op == "call":
                n = i.x[0]
                if n and n.startswith("llvm."):
                    if n.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                        if not self.base_alloca(f, i.a[0]):
                            w |= self.region(f, i.a[0], i.a[2])
                elif n: cs.add(n)
                else: ind.append(i)
        self.direct[f.name] = w; self.callees[f.name] = cs; self.indirect[f.name] = ind
    def region(self, f, v, n):
        """classes covered by a memset/memcpy destination"""
        out = set()
        t = -1
        if isinstance(v, int):
            i = f.insts.get(v)
            t = i.pt if i is not None else f.args[v][2]
        c, path = self._addr_cls(f, v)
        size = n[1] if isinstance(n, list) and n[0] == "c" else None
        d = self.prog.ty(t) if not isinstance(t, list) else None
        if d and d["k"] in ("struct", "union") and (size is None or size >= d["size"]):
            for p, _ in self.prog.leaves(t, 64):
                pre = tuple(path)
                out.add(cls_of(pre + p))
            return out
        if d and d["k"] == "array":
            for p, _ in self.prog.leaves(t, 4):
                out.add(cls_of(tuple(path) + p))
        if c: out.add(c if not c.startswith("*") else "*")
        return out
    def _slots(self):
        """function-pointer slots: field class -> functions stored there (stores and initialisers)"""
        self.slot = {}; self.slot_users = {}
        for f in self.prog.functions():
            for i in f.all_insts():
                if i.op == "store" and isinstance(i.a[0], list) and i.a[0][0] == "g" and (i.a[0][1] in self.prog.raw or i.a[0][1] in self.prog.decls):
                    c, _ = self._addr_cls(f, i.a[1])
                    self.slot.setdefault(c or "local", set()).add(i.a[0][1])
        called = set()
        for f in self.prog.functions():
            for i in self.indirect[f.name]:
                c = self.slot_of(f, i)
                if c: called.add(c)
        for c, fs in self.slot.items():
            if c in called:
                for n in fs: self.slot_users.setdefault(n, set()).add(c)
    def slot_of(self, f, i):
        """field class an indirect call loads its target from"""
        v = i.x[1]
        if isinstance(v, int) and v in f.insts and f.insts[v].op == "load":
            c, _ = self._addr_cls(f, f.insts[v].a[0])
            return c
        return None
    def targets(self, f, i):
        c = self.slot_of(f, i)
        if c is None: return None
        return self.slot.get(c)
    def _close(self):
        self.trans = {n: set(w) for n, w in self.direct.items()}
        calls = {}
        for n, cs in self.callees.items():
            s = set(cs)
            f = self.prog.fn(n)
            for i in self.indirect[n]:
                t = self.targets(f, i)
                if t: s |= t
            calls[n] = s
        self.calls = calls
        ch = True
        while ch:
            ch = False
            for n, s in calls.items():
                w = self.trans[n]; k = len(w)
                for c in s:
                    if c in self.trans: w |= self.trans[c]
                if len(w) != k: ch = True
    def of_call(self, name, inst):
        if name is None:
            t = self.targets(inst.fn, inst)
            if t is None: return set()      # user callback: cannot reach library-internal state
            out = set()
            for x in t:
                if x in self.trans: out |= self.trans[x]
                else: out.add("*")
            return out
        if name in self.trans: return self.trans[name]
        if name in PURE_EXT: return set()
        return {"*"}
    def reach(self, roots):
        seen = set(); st = list(roots)
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            st.extend(self.calls.get(n, ()))
        return seen
