"""C19: alphabets of adaptive symbols against the layout of their probability tables; carry-over and counter reset at the end of a frame."""
import re
from scan import *
from consts import flat, pieces
from constprop import CP, Limit
from main import CheckError

# tables that only key/intra-only frames adapt (such frames always start from the defaults, so they need not be saved), and tables that
# only inter frames adapt (AV1 specification, 5.9.2: primary_ref_frame is NONE for intra frames; 5.11: syntax of intra and inter frames)
INTRA_ONLY = {"CdfModeContext.intrabc", "CdfContext.kfym"}
INTER_ONLY = {"CdfModeContext." + x for x in
    ("y_mode wedge_idx comp_inter_mode filter interintra_mode motion_mode skip_mode newmv_mode globalmv_mode refmv_mode drl_bit intra comp comp_dir "
     "jnt_comp mask_comp wedge_comp ref comp_fwd_ref comp_bwd_ref comp_uni_ref seg_pred interintra interintra_wedge obmc").split()} | \
    {"CdfMvComponent." + x for x in "classes sign class0 class0_fp class0_hp classN classN_fp classN_hp".split()} | {"CdfMvContext.joint"}

class Tab:
    def __init__(self, key, dims): self.key = key; self.dims = dims; self.rows = {}     # row number -> alphabet parameter n (0: unused)

def struct_fields(P, t, base=0):
    """every leaf array of a structure: (struct.field, byte offset, dims)"""
    d = P.ty(t)
    if d["k"] == "array":
        e = P.ty(d["elem"])
        if e["k"] == "struct":
            n = 1
            for x in d["dims"]: n *= x
            for j in range(n): yield from struct_fields(P, d["elem"], base + j * e["size"])
        return
    for m in d["m"]:
        md = P.ty(m[3])
        if md["k"] == "struct" or (md["k"] == "array" and P.ty(md["elem"])["k"] == "struct"): yield from struct_fields(P, m[3], base + m[1])
        elif md["k"] == "array": yield "%s.%s" % (d["name"], m[0]), base + m[1], md["dims"]

def default_rows(P, tabs, ctx):
    """alphabet of every row from the default probability tables: the leading non-zero entries, followed by the counter"""
    seen = set()
    for n in sorted(P.globals):
        g = P.gv(n)
        if not g["const"] or not g.get("flat"): continue
        T = P.ty(g["ty"])
        t = T["elem"] if T["k"] == "array" else g["ty"]
        d = P.ty(t)
        if d["k"] != "struct": continue
        fs = list(struct_fields(P, t)) if d["k"] == "struct" else []
        if not any(k in tabs for k, o, dm in fs):
            continue
        reps = T["dims"][0] if T["k"] == "array" else 1
        vals = {o: v for o, s, v in flat(P, g)}
        for k, off, dims in fs:
            if k not in tabs:   # the structure of the defaults groups some tables under its own type
                c = [x for x in tabs if x.split(".")[1] == k.split(".")[1] and tabs[x].dims == dims]
                if len(c) != 1: continue
                k = c[0]
            if k not in tabs: continue
            seen.add(k)
            w = dims[-1]; nrow = 1
            for x in dims[:-1]: nrow *= x
            for r in range(reps):
                for row in range(nrow):
                    v = [vals.get(r * d["size"] + off + 2 * (row * w + j), 0) % 65536 for j in range(w)]
                    c = 0
                    while c < w and v[c]: c += 1
                    old = tabs[k].rows.get(row)
                    if any(v[c:]): ctx.violation("%s:%d" % (short(g["file"]), g["line"]), "default probabilities of %s row %d are not followed by a zero counter" % (k, row), k, "defaults")
                    elif any(a <= b for a, b in zip(v[:c], v[1:c])): ctx.violation("%s:%d" % (short(g["file"]), g["line"]), "default probabilities of %s row %d do not decrease" % (k, row), k, "defaults")
                    if c == w: ctx.violation("%s:%d" % (short(g["file"]), g["line"]), "default probabilities of %s row %d leave no room for the counter" % (k, row), k, "defaults")
                    if old is not None and old != c and c and old: ctx.violation("%s:%d" % (short(g["file"]), g["line"]), "variants of the default table %s disagree on the alphabet of row %d" % (k, row), k, "defaults")
                    tabs[k].rows[row] = max(old or 0, c)
    return seen

def chains(P, f, v, cl, depth=0, seen=()):
    """access paths a pointer operand may denote: lists of (entries, function)"""
    if depth > 6: return [None]
    path = []
    while True:
        if isinstance(v, int) and v in f.insts:
            i = f.insts[v]
            if i.op == "getelementptr": path = [(e, f) for e in i.x] + path; v = i.a[0]; continue
            if i.op in ("bitcast", "freeze"): v = i.a[0]; continue
            if i.op in ("phi", "select"):
                if v in seen: return []
                out = []
                for w in (i.a if i.op == "phi" else i.a[1:]):
                    for c in chains(P, f, w, cl, depth, seen + (v,)): out.append(None if c is None else c + path)
                return out
        elif isinstance(v, list) and v and v[0] == "cg":
            path = [(e, f) for e in v[2]] + path; v = v[1]; continue
        break
    if any(e[0] == "f" and e[1].startswith("Cdf") for e, _ in path): return [path]
    if isinstance(v, int) and v not in f.insts:          # an argument: look at the callers
        out = []
        for g, i in cl.get(f.name, ()):
            if v < len(i.a):
                for c in chains(P, g, i.a[v], cl, depth + 1): out.append(None if c is None else c + path)
        return out or [None]
    if isinstance(v, list) and v and v[0] in ("x", "u", "n"): return []      # undefined until assigned
    return [None]

def split(path):
    """(table key, index operands after the field)"""
    key = None; idx = []
    for e, f in path:
        if e[0] == "f": key = "%s.%s" % (e[1], e[2]); idx = []
        else: idx.append((e, f))
    return key, idx

KIND = re.compile(r"msac_decode_(symbol_adapt|bool_adapt|hi_tok)(\d*)")

def run(ctx):
    ctx.rule = ("Alphabets are read from the default probability tables (leading non-zero entries of each row; the adaptation counter follows). At every call of "
                "an adaptive symbol decoder the table is resolved from the pointer argument and the symbol-count argument must equal the alphabet of every row "
                "the call can select (row and count are evaluated together over the value that selects the row). The end-of-frame carry-over and the table "
                "initialisation are analysed by constant propagation with loop enumeration for each frame type: every table is copied from the same place "
                "and the counter of every used row is zeroed.")
    P = ctx.prog()
    S = P.struct("CdfContext")
    ctx.require(S is not None, "structure CdfContext not found")
    t = P.names["CdfContext"]
    fields = list(struct_fields(P, t))
    tabs = {}
    for k, off, dims in fields: tabs.setdefault(k, Tab(k, dims))
    seen = default_rows(P, tabs, ctx)
    ctx.require(len(seen) > 40, "default probability tables not found")
    for k in sorted(set(tabs) - seen): ctx.violation(k, "probability table %s has no default values" % k, k, "defaults")
    ctx.setc("tables", len(tabs)); ctx.setc("rows", sum(1 for x in tabs.values() for r in x.rows.values() if r))
    sites(ctx, P, tabs)
    carry(ctx, P, fields, tabs, t)
    saved(ctx, P)

def addr_str(f, v, depth=0):
    """readable access path of an address, following loads"""
    if depth > 12: return "?"
    if isinstance(v, int) and v in f.insts:
        i = f.insts[v]
        if i.op == "getelementptr":
            s = addr_str(f, i.a[0], depth + 1)
            for e in i.x: s += "." + e[2] if e[0] == "f" else "[%s]" % addr_str(f, e[1], depth + 1)
            return s
        if i.op == "load": return addr_str(f, i.a[0], depth + 1)
        if i.op in ("sext", "zext", "trunc", "bitcast", "freeze"): return addr_str(f, i.a[0], depth + 1)
    return "."

def saved(ctx, P):
    """the context that is saved is the one of the tile the header names, in every pipeline that decodes tiles"""
    cl = callers(P)
    users = {f.name for f, i in cl.get("dav1d_decode_tile_sbrow", ())}
    g = call_graph(P)
    k = 0
    for f, i in cl.get("dav1d_cdf_thread_update", ()):
        k += 1
        s, d = addr_str(f, i.a[2]), addr_str(f, i.a[1])
        if ".cdf" not in s or "ts" not in s or (".tiling.update" not in s and not guarded(f, i)):
            ctx.violation(i.where(), "the saved probability tables are not those of the tile named by the header (tiling.update)", f.src, "carry")
        if "out_cdf" not in d: ctx.violation(i.where(), "the adapted tables are not saved into the frame's output context", f.src, "carry")
    for u in sorted(users):
        up = {u}; st = [u]
        while st:
            for h, i in cl.get(st.pop(), ()):
                if h.name not in up: up.add(h.name); st.append(h.name)
        if not any("dav1d_cdf_thread_update" in g.get(n, ()) for n in reach(g, [u]) | up):
            ctx.violation(u, "tiles are decoded here but the adapted tables are never carried over to the saved context", u, "carry")
    ctx.require(k >= 1, "dav1d_cdf_thread_update is never called")
    ctx.setc("carry_over_calls", k)

def guarded(f, i):
    """a dominating comparison with tiling.update selects the tile"""
    for b in f.rpo:
        t = f.blocks[b][-1]
        if t.op == "br" and len(t.x) == 2 and isinstance(t.a[0], int) and t.a[0] in f.insts:
            c = f.insts[t.a[0]]
            if c.op == "icmp" and any(".tiling.update" in addr_str(f, v) for v in c.a):
                k = 0 if c.x == "eq" else 1
                if f.dominates(t.x[k], i.bb): return True
    return False

def sites(ctx, P, tabs):
    cl = callers(P)
    n = un = 0
    used = set()
    for f in P.functions():
        if f.name.startswith("dav1d_msac_"): continue
        for i in f.calls():
            cal = i.callee
            if cal is None:
                v = i.x[1]
                if isinstance(v, int) and v in f.insts and f.insts[v].op == "load":
                    c, _ = addr_class(f, f.insts[v].a[0])
                    if c and c.startswith("MsacContext."): cal = "dav1d_msac_decode_" + c.split(".")[1]
            m = cal and KIND.search(cal)
            if not m or len(i.a) < 2: continue
            kind, width = m.group(1), int(m.group(2) or 0)
            for c in chains(P, f, i.a[1], cl):
                if c is None: un += 1; ctx.notes.append("table not resolved at " + i.where()); continue
                key, idx = split(c)
                if key not in tabs: un += 1; ctx.notes.append("unknown table %s at %s" % (key, i.where())); continue
                n += 1; used.add(key)
                site(ctx, P, f, i, kind, width, tabs[key], idx)
    ctx.setc("decode_sites", n); ctx.setc("unresolved_sites", un)
    ctx.require(n >= 60, "only %d symbol decoding sites were resolved" % n)
    for k in sorted(set(tabs) - used): ctx.notes.append("table %s is decoded from nowhere" % k)
    ctx.setc("tables_decoded", len(used))

def site(ctx, P, f, i, kind, width, tab, idx):
    rowdims = tab.dims[:-1]
    def bad(msg): ctx.violation(i.where(), msg, f.src, "alphabet")
    if kind == "hi_tok" or kind == "bool_adapt":
        want = 3 if kind == "hi_tok" else 1
        rows = rows_of(P, f, tab, idx, {})
        al = {tab.rows.get(r, 0) for r in rows} - {0}
        if al - {want}: bad("%s is decoded as a %d-ary symbol but its table is laid out for %s" % (tab.key, want + 1, "/".join(str(a + 1) for a in sorted(al))))
        return
    nv = i.a[2]
    cst = const_int(nv)
    if cst is not None:
        al = {tab.rows.get(r, 0) for r in rows_of(P, f, tab, idx, {})} - {0}
        if al - {cst}: bad("%s is decoded with %d symbols but its table is laid out for %s" % (tab.key, cst + 1, "/".join(str(a + 1) for a in sorted(al))))
        if width and cst > {4: 3, 8: 7, 16: 15}.get(width, 15): bad("%s: %d symbols exceed what the %d-entry decoder handles" % (tab.key, cst + 1, width))
        return
    # the count varies: evaluate row and count together over the shared source values
    cands = sorted(expr_leaves(P, f, nv), key=str)
    cands = cands if len(cands) == 1 else []
    ix = set()
    for e, g in idx:
        if g is f and e[0] != "f": subexprs(f, e[1], ix)
    cands += [v for v in sorted(subexprs(f, nv, set())) if v in ix]
    hit = 0; bads = {}
    for lf in cands:
      if hit: break
      ty = f.insts[lf].ty if isinstance(lf, int) and lf in f.insts else "i32"
      for v in (range(2) if ty == "i1" else range(-2, 64)):
        env = {lf: v}
        c = evalx(P, f, nv, env)
        if c is None or not 0 < c < 32: continue
        rows = rows_of(P, f, tab, idx, env)
        if not rows or len(rows) == len(tab.rows): continue
        hit += 1
        al = {tab.rows.get(r, 0) for r in rows} - {0}
        if al - {c}: bads[v] = (c, al)
        if width and al and c > {4: 3, 8: 7, 16: 15}.get(width, 15): bads[v] = (c, {width - 1})
    if not hit: ctx.notes.append("count not evaluated at " + i.where()); ctx.count("unevaluated_counts"); return
    ctx.count("evaluated_counts")
    if bads:
        v = sorted(bads)[0]; c, al = bads[v]
        bad("%s can be decoded with %d symbols where its table is laid out for %s" % (tab.key, c + 1, "/".join(str(a + 1) for a in sorted(al))))

def rows_of(P, f, tab, idx, env):
    """row numbers the index operands can select (unknown indexes: all; out of range: none)"""
    rd = tab.dims[:-1]
    flatidx = [None] * len(rd)
    base = [0] * len(rd)
    size = 2 * tab.dims[-1]
    str_ = []
    for x in reversed(rd): str_.insert(0, size); size *= x
    for e, g in idx:
        if e[2] in str_:
            k = str_.index(e[2])
            v = const_int(e[1])
            if v is None and g is f: v = evalx(P, f, e[1], env)
            if v is None: base[k] = None
            elif base[k] is not None: base[k] += v
    sets = []
    for k, x in enumerate(rd):
        if base[k] is None: sets.append(range(x))
        elif 0 <= base[k] < x or any(str_.index(e[2]) == k for e, g in idx if e[2] in str_):
            sets.append([base[k]] if 0 <= base[k] < x else [])
        else: sets.append(range(x))
    rows = [0]
    for s, x in zip(sets, rd): rows = [r * x + j for r in rows for j in s]
    return rows

ARITH = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "icmp", "select", "zext", "sext", "trunc", "sdiv", "udiv"}

def subexprs(f, v, out, depth=0):
    if isinstance(v, int) and v in f.insts and depth < 20 and v not in out:
        i = f.insts[v]; out.add(v)
        if i.op in ARITH:
            for w in i.a: subexprs(f, w, out, depth + 1)
    return out

def diamond(f, i):
    """(condition, value if true, value if false) of a phi that merges the two arms of one branch"""
    if len(i.a) != 2: return None
    d = f.idom().get(i.bb)
    t = f.blocks[d][-1] if d is not None else None
    if t is None or t.op != "br" or len(t.x) != 2 or i.bb in f.loops(): return None
    side = {}
    for v, p in zip(i.a, i.x):
        if p == d: k = t.x.index(i.bb)
        else:
            ks = [k for k in (0, 1) if t.x[k] != i.bb and f.dominates(t.x[k], p)]
            if len(ks) != 1: return None
            k = ks[0]
        side[k] = v
    return (t.a[0], side[0], side[1]) if len(side) == 2 else None

def leafkey(P, f, v, i):
    if i.op == "load":
        a = akey(f, i.a[0])
        if a: return a
    return v

def akey(f, v):
    """structural name of an address (loads of the same address from constant or unchanged memory compare equal)"""
    if isinstance(v, int):
        i = f.insts.get(v)
        if i is None: return ("arg", v)
        if i.op == "getelementptr":
            b = akey(f, i.a[0])
            return ("gep", b, tuple((e[0], e[2]) if e[0] == "f" else ("i", vkey(f, e[1]), e[2]) for e in i.x))
        return ("v", v)
    if isinstance(v, list): return ("k", str(v))

def vkey(f, v):
    if isinstance(v, int):
        i = f.insts.get(v)
        if i is not None and i.op == "load": return ("ld", akey(f, i.a[0]))
        if i is not None and i.op in ("zext", "sext"): return vkey(f, i.a[0])
        return ("v", v)
    return ("k", str(v))

def const_load(P, f, i):
    """(global, chain) when a load reads a constant table"""
    v = i.a[0]; path = []
    while isinstance(v, int) and v in f.insts and f.insts[v].op in ("getelementptr", "bitcast"):
        if f.insts[v].op == "getelementptr": path = list(f.insts[v].x) + path
        v = f.insts[v].a[0]
    if isinstance(v, list) and v[0] == "cg": path = list(v[2]) + path; v = v[1]
    if isinstance(v, list) and v[0] == "g" and v[1] in P.globals and P.gv(v[1])["const"] and P.gv(v[1]).get("flat"): return P.gv(v[1]), path
    return None

def expr_leaves(P, f, v, out=None, depth=0):
    out = set() if out is None else out
    if not isinstance(v, int) or depth > 20: return out
    i = f.insts.get(v)
    if i is None: out.add(v); return out
    if i.op in ARITH:
        for w in i.a: expr_leaves(P, f, w, out, depth + 1)
    elif i.op == "phi" and diamond(f, i):
        for w in diamond(f, i): expr_leaves(P, f, w, out, depth + 1)
    elif i.op == "load" and const_load(P, f, i) and any(e[0] != "f" and const_int(e[1]) is None for e in const_load(P, f, i)[1]):
        for e in const_load(P, f, i)[1]:
            if e[0] != "f": expr_leaves(P, f, e[1], out, depth + 1)
    else: out.add(leafkey(P, f, v, i))
    return out

_cp = CP(None)
def evalx(P, f, v, env, depth=0):
    if isinstance(v, list): return v[1] if v and v[0] == "c" else None
    if depth > 20: return None
    if v in env: return env[v]
    i = f.insts.get(v)
    if i is None: return None
    k = leafkey(P, f, v, i)
    if k in env: return env[k]
    if i.op in ARITH:
        e2 = {}
        for w in i.a:
            if isinstance(w, int):
                r = evalx(P, f, w, env, depth + 1)
                if r is not None: e2[w] = r
        return _cp.ev(e2, i)
    if i.op == "phi" and diamond(f, i):
        c, x, y = diamond(f, i)
        c = evalx(P, f, c, env, depth + 1)
        return None if c is None else evalx(P, f, x if c & 1 else y, env, depth + 1)
    if i.op == "load":
        c = const_load(P, f, i)
        if c:
            g, path = c; off = 0
            for e in path:
                if e[0] == "f": off += e[3]
                else:
                    n = evalx(P, f, e[1], env, depth + 1)
                    if n is None: return None
                    off += n * e[2]
            for o, s, x in flat(P, g):
                if o == off and isinstance(x, int): return x
    return None

# --- carry-over
def carry(ctx, P, fields, tabs, t):
    spans = []                        # (key, offset, end)
    for k, off, dims in fields:
        n = 2
        for x in dims: n *= x
        spans.append((k, off, off + n, dims))
    total = P.ty(t)["size"]
    upd = [f for f in P.functions() if f.name == "dav1d_cdf_thread_update"]
    ctx.require(upd, "dav1d_cdf_thread_update not found")
    f = upd[0]
    names = {pt_name(P, a): k for k, a in enumerate(f.args)}
    ai = [k for k, a in enumerate(f.args) if pt_name(P, a) == "CdfContext"]
    hi = [k for k, a in enumerate(f.args) if pt_name(P, a) == "Dav1dFrameHeader"]
    ctx.require(len(ai) == 2 and len(hi) == 1, "dav1d_cdf_thread_update takes other arguments than expected")
    # the destination is the one written
    def args(): return {k: ("ptr", ("a", k), 0) for k in range(len(f.args))}
    obl = 0
    for ft, nm in ((0, "key"), (1, "inter"), (2, "intra-only"), (3, "switch")):
        def load(i, a):
            if isinstance(a, tuple):
                c, _ = addr_class(i.fn, i.a[0])
                if c == "Dav1dFrameHeader.frame_type": return ft
            return None
        try: paths = CP(P, load=load).run(f, args())
        except Limit: raise CheckError("constant propagation through dav1d_cdf_thread_update does not finish")
        intra = ft in (0, 2)
        for ev, _ in paths:
            dst = None
            for e in ev:
                a = e[2] if e[0] == "store" else (e[2][0] if e[0] == "call" and (e[1].callee or "").startswith(MEMW) else None)
                if isinstance(a, tuple) and a[1][0] == "a": dst = a[1]; break
            src = next((("a", k) for k in ai if ("a", k) != dst), None)
            cop = bytearray(total); zero = bytearray(total); bad = []
            for e in ev:
                if e[0] == "store":
                    a, v = e[2], e[3]
                    if isinstance(a, tuple) and a[1] == dst and a[2] is not None:
                        w = width_of(e[1])
                        if v == 0: zero[a[2]:a[2] + w] = b"\1" * w
                        else:
                            src_a = origin(P, f, e[1])
                            cop[a[2]:a[2] + w] = b"\1" * w if src_a else b"\0" * w
                            zero[a[2]:a[2] + w] = b"\0" * w
                elif e[0] == "call" and (e[1].callee or "").startswith(MEMW):
                    av = e[2]
                    if not isinstance(av[0], tuple) or av[0][1] != dst or av[0][2] is None or not isinstance(av[2], int): continue
                    o, n = av[0][2], av[2]
                    if e[1].callee.startswith("llvm.memset"):
                        if av[1] == 0: zero[o:o + n] = b"\1" * n
                        continue
                    if isinstance(av[1], tuple) and av[1][1] == src and av[1][2] == o:
                        cop[o:o + n] = b"\1" * n; zero[o:o + n] = b"\0" * n
                    elif isinstance(av[1], tuple) and av[1][1] == src: bad.append((e[1], o, av[1][2]))
                    if o + n > total: bad.append((e[1], o, o + n))
            for inst, o, s in bad:
                ctx.violation(inst.where(), "carry-over copies a probability table from or to a different place (offset %s from %s)" % (o, s), f.src, "carry")
            for k, o, e, dims in spans:
                need = k not in INTRA_ONLY and (not intra or k not in INTER_ONLY)
                if not need: continue
                obl += 1
                if not all(cop[x] or zero[x] for x in range(o, e)) or not any(cop[x] for x in range(o, e)):
                    ctx.violation(f.file + ":%d" % f.line, "adapted table %s is not carried over to the saved context of %s frames" % (k, nm), f.src, "carry"); continue
                w = dims[-1]
                for row, n in tabs[k].rows.items():
                    if not n: continue
                    obl += 1
                    p = o + 2 * (row * w + n)
                    if not (zero[p] and zero[p + 1]):
                        ctx.violation(f.file + ":%d" % f.line, "adaptation counter of %s row %d is not reset at the end of %s frames" % (k, row, nm), f.src, "counter"); break
                    lost = [j for j in range(n) if zero[o + 2 * (row * w + j)]]
                    if lost:
                        ctx.violation(f.file + ":%d" % f.line, "probabilities of %s row %d are zeroed by the carry-over of %s frames" % (k, row, nm), f.src, "counter"); break
    ctx.setc("carry_over_obligations", obl)
    # --- initialisation of a context from the defaults or from a saved context
    g = P.fn("dav1d_cdf_thread_copy")
    ctx.require(g is not None, "dav1d_cdf_thread_copy not found")
    paths = CP(P).run(g, {k: ("ptr", ("a", k), 0) for k in range(len(g.args))})
    dk = [k for k, a in enumerate(g.args) if pt_name(P, a) == "CdfContext"]
    for ev, _ in paths:
        cov = bytearray(total)
        for e in ev:
            if e[0] == "call" and (e[1].callee or "").startswith(MEMW) and isinstance(e[2][0], tuple) and e[2][0][1] == ("a", dk[0]) and isinstance(e[2][2], int) and e[2][0][2] is not None:
                o, n = e[2][0][2], e[2][2]
                cov[o:o + n] = b"\1" * n
                check_src(ctx, P, g, e[1], o, n, e[2][1], spans)
            elif e[0] == "store" and isinstance(e[2], tuple) and e[2][1] == ("a", dk[0]) and e[2][2] is not None:
                w = width_of(e[1]); cov[e[2][2]:e[2][2] + w] = b"\1" * w
        for k, o, e, dims in spans:
            if not all(cov[o:e]): ctx.violation(g.file + ":%d" % g.line, "table %s is left uninitialised when a tile context is set up" % k, g.src, "init")
    ctx.setc("init_paths", len(paths))

def check_src(ctx, P, g, inst, o, n, src, spans):
    """a copy from the defaults must pair each table with its own default"""
    if not (isinstance(src, tuple) and isinstance(src[1], tuple) and src[1][0] == "g" and src[2] is not None): return
    gv = P.gv(src[1][1])
    T = P.ty(gv["ty"])
    if T["k"] != "struct": return
    sf = [(k, off) for k, off, d in struct_fields(P, gv["ty"])]
    for k, a, e, dims in spans:
        if a >= o and a + 1 < o + n:
            want = src[2] + (a - o)
            at = [x for x, off in sf if off == want]
            if not at or at[0].split(".")[1] != k.split(".")[1]:
                ctx.violation(inst.where(), "table %s is initialised from the defaults of %s" % (k, at[0] if at else "something else"), g.src, "init")

def width_of(i):
    t = i.x[2] if isinstance(i.x, list) and len(i.x) > 2 else "i16"
    return int(t[1:]) // 8 if isinstance(t, str) and t.startswith("i") and t[1:].isdigit() else 8

def origin(P, f, i):
    v = i.a[0]
    return isinstance(v, int) and v in f.insts and f.insts[v].op == "load"

def pt_name(P, a):
    t = a[2]
    if t == -1 or isinstance(t, list): return None
    return P.type_str(t)
