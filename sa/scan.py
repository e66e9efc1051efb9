"""Flow-insensitive helpers over the exported IR."""
from ir import *

MEMW = ("llvm.memcpy", "llvm.memmove", "llvm.memset")

def const_int(v):
    return v[1] if isinstance(v, list) and v and v[0] == "c" else None

def roots(f, v, seen=None):
    """all SSA/global values a pointer operand may be derived from (through gep, casts, phi, select)"""
    seen = set() if seen is None else seen
    if isinstance(v, list):
        if v and v[0] == "cg": return roots(f, v[1], seen)
        if v and v[0] == "cast": return roots(f, v[2], seen)
        return {tuple(v[:2])} if v and v[0] == "g" else set()
    if v in seen: return set()
    seen.add(v)
    i = f.insts.get(v)
    if i is None: return {("arg", v)}
    if i.op in ("getelementptr", "bitcast", "freeze", "addrspacecast"): return roots(f, i.a[0], seen)
    if i.op == "phi":
        o = set()
        for w in i.a: o |= roots(f, w, seen)
        return o
    if i.op == "select": return roots(f, i.a[1], seen) | roots(f, i.a[2], seen)
    return {("i", v)}

def addr_class(f, v):
    """(field class or None, base operand) of an address operand"""
    path = []
    while isinstance(v, int) and v in f.insts:
        i = f.insts[v]
        if i.op == "getelementptr":
            path = ["%s.%s" % (e[1], e[2]) if e[0] == "f" else ("i", ("c", 0)) for e in i.x] + path
            v = i.a[0]
        elif i.op in ("bitcast", "freeze"): v = i.a[0]
        else: break
    if isinstance(v, list) and v and v[0] == "cg":
        path = ["%s.%s" % (e[1], e[2]) if e[0] == "f" else ("i", ("c", 0)) for e in v[2]] + path
        v = v[1]
    return (cls_of(tuple(path)) if path else None), v

def writes(f):
    """(inst, address operand) of every memory write in f"""
    for i in f.all_insts():
        if i.op == "store": yield i, i.a[1]
        elif i.op in ("atomicrmw", "cmpxchg"): yield i, i.a[0]
        elif i.op == "call" and i.x[0] and i.x[0].startswith(MEMW): yield i, i.a[0]

def call_graph(prog, effects=None):
    g = {}
    for f in prog.functions():
        g[f.name] = {i.callee for i in f.calls() if i.callee and not i.callee.startswith("llvm.")}
    return g

def callers(prog):
    """callee -> [(function, call inst)]"""
    out = {}
    for f in prog.functions():
        for i in f.calls():
            if i.callee: out.setdefault(i.callee, []).append((f, i))
    return out

def addr_taken(prog):
    """function name -> [(function or None, inst or global)] of uses other than a direct call"""
    out = {}
    def walk(v, ctx):
        if isinstance(v, list) and v:
            if v[0] == "g":
                if v[1] in prog.raw or v[1] in prog.decls: out.setdefault(v[1], []).append(ctx)
            else:
                for w in v[1:]:
                    if isinstance(w, list): walk(w, ctx)
    for f in prog.functions():
        for i in f.all_insts():
            for k, v in enumerate(i.a): walk(v, (f, i, k))
    return out

def reach(graph, rts):
    seen = set(); st = list(rts)
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n); st.extend(graph.get(n, ()))
    return seen

def path_to(graph, src, dst):
    """a shortest call path"""
    from collections import deque
    prev = {src: None}; q = deque([src])
    while q:
        n = q.popleft()
        if n == dst:
            p = []
            while n is not None: p.append(n); n = prev[n]
            return list(reversed(p))
        for m in graph.get(n, ()):
            if m not in prev: prev[m] = n; q.append(m)
    return None

def public_api(repo):
    """names of the functions the public headers declare with DAV1D_API"""
    import glob, re
    names = set()
    for h in sorted(glob.glob(repo + "/include/dav1d/*.h")):
        s = open(h).read()
        s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
        for m in re.finditer(r"DAV1D_API\b([^;]*?)\b(dav1d_\w+)\s*\(", s): names.add(m.group(2))
    return names

def focus(prog, pred, also=()):
    """internal functions (of a program exported without inlining) from which a function satisfying pred is reached through internal
    functions only: inlining exactly these puts every interesting operation into the function that is visible to other files"""
    fns = list(prog.functions())
    hit = {f.name for f in fns if pred(f)}
    internal = {f.name for f in fns if f.internal}
    cl = callers(prog)
    S = {n for n in hit if n in internal}
    st = list(S)
    while st:
        n = st.pop()
        for f, i in cl.get(n, ()):
            if f.internal and f.name not in S: S.add(f.name); st.append(f.name)
    return sorted(S | set(also))
