"""C21: dispatch tables are complete, and every entry gets the function of its role, shape and bit depth."""
import os, json, re
from scan import *
from consts import *
from constprop import CP, Limit
from ccp import CCP
from effects import Effects
from main import CheckError

GOLD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden", "dsp.json")
CPU = r"_(sse2|ssse3|sse41|sse4|avx2|avx512icl|avx512|c)$"

def fnleaves(P, t, base=0, pre=""):
    """(path, byte offset) of every function-pointer entry of a table structure"""
    d = P.ty(t)
    if d is None: return
    if d["k"] == "struct":
        for m in d["m"]: yield from fnleaves(P, m[3], base + m[1], pre + "." + m[0])
    elif d["k"] == "array":
        n = 1
        for x in d["dims"]: n *= x
        if n <= 0: return
        es = d["size"] // n
        if not any(True for _ in fnleaves(P, d["elem"])): return
        for j in range(n):
            ix = []; q = j
            for x in reversed(d["dims"]): ix.insert(0, q % x); q //= x
            yield from fnleaves(P, d["elem"], base + j * es, pre + "".join("[%d]" % k for k in ix))
    elif d["k"] == "ptr":
        to = P.ty(d["to"])
        if to is not None and to["k"] == "func": yield pre, base

def core(n):
    """role and shape part of a kernel name"""
    n = re.sub(r"\.\d+$", "", n)
    n = re.sub(r"^dav1d_", "", n)
    for _ in range(2):
        n = re.sub(CPU, "", n)
        n = re.sub(r"_(8bpc|16bpc|10bpc|12bpc)$", "", n)
    return re.sub(r"_(8bpc|16bpc|10bpc|12bpc)_", "_", n)

def depth_ok(name, bpc):
    """does an external kernel's name claim a bit depth other than bpc?"""
    m = re.search(r"_(8|10|12|16)bpc(_|$|\.)", name)
    if not m: return True
    d = int(m.group(1))
    return d == bpc or (d == 16 and bpc > 8)

def inits(P):
    """(function, table struct type, bit depths) of the functions that fill a table structure"""
    for f in P.functions():
        if f.internal or not f.args: continue
        t = f.args[0][2]
        if t == -1 or isinstance(t, list): continue
        d = P.ty(t)
        if not d or d["k"] != "struct": continue
        if not any(i.op == "store" and isinstance(i.a[0], list) and i.a[0][0] == "g" and (i.a[0][1] in P.raw or i.a[0][1] in P.decls)
                   for i in f.all_insts()): continue
        if d["name"] in ("Dav1dContext", "Dav1dSettings", "Dav1dFrameContext", "Dav1dTaskContext", "MsacContext"): continue
        if not list(fnleaves(P, t)): continue
        m = re.search(r"_(8|16)bpc$", f.name)
        yield f, t, ([8] if m and m.group(1) == "8" else [10, 12] if m else [0])

def table_load(P):
    memo = {}
    def load(i, a):
        if isinstance(a, tuple) and isinstance(a[1], tuple) and a[1][0] == "g" and a[2] is not None:
            n = a[1][1]
            if n not in memo:
                g = P.gv(n)
                memo[n] = {o: v for o, s, v in flat(P, g)} if g and g.get("const") and not g.get("decl") else {}
            v = memo[n].get(a[2])
            if isinstance(v, str) and v.startswith("&"): return ("ptr", ("g", v[1:]), 0)
            return v if isinstance(v, int) else None
        return None
    return load

def outcomes(P, f, t, bpc):
    """final function symbol of every entry on every path: list of {entry: symbol | None}"""
    off = {o: p for p, o in fnleaves(P, t)}
    args = {0: ("ptr", ("a", 0), 0)}
    for k, a in enumerate(f.args[1:], 1): args[k] = bpc if bpc and a[2] == -1 else None
    out = []
    for ev, _ in CP(P, load=table_load(P), max_paths=4000).run(f, args):
        m = {}
        for e in ev:
            if e[0] == "store" and isinstance(e[2], tuple) and e[2][1] == ("a", 0):
                if e[2][2] is None: m["?"] = None; continue
                p = off.get(e[2][2])
                if p is None: continue
                v = e[3]
                m[p] = (v[1][1] if isinstance(v, tuple) and v[1][0] == "g" else v if v == 0 else None, e[1])
        out.append(m)
    return off, out

def golden(P):
    G = {}
    for f, t, bpcs in inits(P):
        for b in bpcs:
            try: off, outs = outcomes(P, f, t, b)
            except Limit: continue
            s = G.setdefault(P.type_str(t), {})
            for m in outs:
                for p, (v, i) in m.items():
                    if isinstance(v, str): s.setdefault(p, set()).add(core(v))
    return {k: {p: sorted(v) for p, v in s.items()} for k, s in G.items()}

def run(ctx):
    ctx.rule = ("Every table-filling function is evaluated symbolically along every CPU-flag path (constant propagation with loop enumeration): each entry that "
                "decoding dispatches on must end up holding a function, of the entry's role and block shape and of the bit depth being set up. The frame set-up "
                "code is evaluated for each bit depth: every sub-table of the selected DSP context is initialised with the function of that depth and every "
                "reconstruction entry is stored. Under each assumed bit depth no reachable code outside the templates may call a function built for the other one.")
    ctx.assumptions += ["the role of each entry is the one given in sa/golden/dsp.json (entry -> role names); kernel contents are not judged (C32)"]
    P = ctx.prog()
    G = json.load(open(GOLD))
    done = set()
    for f, t, bpcs in inits(P):
        nm = P.type_str(t)
        gold = G.get(nm)
        for b in bpcs:
            try: off, outs = outcomes(P, f, t, b)
            except Limit: ctx.notes.append("%s not evaluated (too many paths)" % f.name); continue
            ctx.count("init_functions"); ctx.count("paths", len(outs))
            done.add((nm, b or 8)); done.add((nm, b or 10)); done.add((nm, b or 12))
            if gold is None:
                ctx.notes.append("table %s has no role list" % nm); continue
            known = {}
            for p, cs in gold.items():
                for c in cs: known.setdefault(c, set()).add(p)
            fields = {re.match(r"\.(\w+)", p).group(1) for p in gold}
            cur = set(off.values())
            for p in sorted(cur):
                fld = re.match(r"\.(\w+)", p).group(1)
                # entries of a field the role list knows: exactly those listed are dispatched on; of a new field: all of them
                if fld in fields and p not in gold: continue
                ctx.count("entries")
                for m in outs:
                    if "?" in m and p not in m: continue
                    v, i = m.get(p, (0, None))
                    if v == 0:
                        ctx.violation(where_of(f, i), "%s leaves entry %s%s unset on a CPU-flag path (bit depth %s)" % (f.name, nm, p, b or "any"), f.name, "unset"); break
                    if v is None: continue
                    ctx.count("entry_path_pairs")
                    if b and v not in P.raw and not depth_ok(v, b) or b and v in P.raw and not P.fn(v).internal and not depth_ok(v, b):
                        ctx.violation(where_of(f, i), "entry %s%s receives %s when set up for %d-bit" % (nm, p, v, b), f.name, "depth"); break
                    c = core(v)
                    if p in gold and c in known and p not in known[c]:
                        ctx.violation(where_of(f, i), "entry %s%s receives %s, a kernel of entry %s" % (nm, p, v, sorted(known[c])[0]), f.name, "role"); break
    for nm in G:
        if nm in P.names and list(fnleaves(P, P.names[nm])):
            for b in (8, 10, 12):
                if (nm, b) not in done:
                    ctx.violation("src", "no function fills %s for %d-bit" % (nm, b), nm, "noinit")
    ctx.require(ctx.cov.get("entries", 0) >= 400, "table-filling functions not found")
    msac(ctx, P)
    frame(ctx, P)
    dispatch(ctx, P)
    slots(ctx, P)

def where_of(f, i):
    return i.where() if i is not None else "%s:%d (%s)" % (f.file, f.line, f.name)

def msac(ctx, P):
    """function pointers of the symbol decoder: stored on every path out of its initialiser"""
    t = P.names.get("MsacContext")
    if t is None: return
    leaves = [(p, o) for p, o in fnleaves(P, t)]
    for f in P.functions():
        if f.internal or not f.args or f.args[0][2] == -1 or isinstance(f.args[0][2], list) or P.tname(f.args[0][2]) != "MsacContext": continue
        st = [i for i in f.all_insts() if i.op == "store" and isinstance(i.a[0], list) and i.a[0][0] == "g"]
        if not st: continue
        def step(s, i, vals):
            if i.op == "store":
                c, _ = addr_class(f, i.a[1])
                if c and c.startswith("MsacContext."):
                    fld = "." + c.split(".", 1)[1]
                    if any(p == fld for p, _ in leaves) and i.a[0] != ["n"]: return s | {fld}
            return s
        A = CCP(P, f, step=step, init=frozenset(), join=lambda a, b: a & b)
        for i in f.all_insts():
            if i.op == "ret" and i.id in A.at:
                for p, _ in leaves:
                    ctx.count("entries")
                    if p not in A.at[i.id]:
                        ctx.violation(i.where(), "%s can return without setting %s" % (f.name, p), f.name, "unset")

BPC = {8: 0, 10: 1, 12: 2}

def assume(b):
    def load(i, a):
        c, _ = addr_class(i.fn, i.a[0])
        if c in ("Dav1dSequenceHeader.hbd",): return BPC[b]
        if c in ("Dav1dPictureParameters.bpc",): return b
        if c in ("Dav1dFrameContext.bitdepth_max",): return (1 << b) - 1
        return None
    return load

def frame(ctx, P):
    """dav1d_submit_frame: tables selected and filled for the frame's bit depth before anything decodes with them"""
    f = P.fn("dav1d_submit_frame")
    if f is None: raise CheckError("dav1d_submit_frame not found")
    dt = P.struct("Dav1dDSPContext"); fc = P.struct("Dav1dFrameContext"); ct = P.struct("Dav1dContext")
    if not dt or not fc or not ct: raise CheckError("context structures not found")
    subs = [(m[0], P.tname(m[3])) for m in dt["m"] if list(fnleaves(P, m[3]))]
    doff = {m[0]: m[1] for m in dt["m"]}
    dspo = next((m[1] for m in ct["m"] if m[0] == "dsp"), None)
    bd = next((m for m in fc["m"] if m[0] == "bd_fn"), None)
    ctx.require(bd is not None and dspo is not None, "bd_fn / dsp members not found")
    entries = [p for p, o in fnleaves(P, bd[3])]
    initf = {}
    for g, t, bp in inits(P): initf[g.name] = (P.type_str(t), bp)
    # helpers outside the function that fill tables on behalf of the frame (extern)
    for b in BPC:
        base = dspo + BPC[b] * dt["size"]
        def step(s, i, vals):
            if i.op == "store":
                c, _ = addr_class(f, i.a[1])
                if c and c.startswith("Dav1dFrameContext.bd_fn."):
                    v = i.a[0]
                    fld = "." + c.split("bd_fn.", 1)[1]
                    if isinstance(v, list) and v[0] == "g": return s | {("e", fld)}
                    return s - {("e", fld)}
                if c == "Dav1dFrameContext.dsp":
                    v = A0.val(vals, i.a[0])
                    if isinstance(v, tuple) and v[1] == ("a", 0) and v[2] is not None and v[2] != base:
                        bad.append((i, "the frame's DSP table pointer is not the table of its bit depth"))
                    return s
            if i.op == "call" and i.callee in initf:
                st, bp = initf[i.callee]
                a = A0.val(vals, i.a[0])
                for m, tn in subs:
                    if tn == st:
                        if b not in bp and bp != [0]: continue
                        if isinstance(a, tuple) and a[1] == ("a", 0) and a[2] is not None and a[2] != base + doff[m]:
                            bad.append((i, "%s fills the table of another bit depth" % i.callee)); continue
                        if len(i.a) > 1:
                            v = A0.val(vals, i.a[1])
                            if isinstance(v, int) and v != b: bad.append((i, "%s is told bit depth %d for %d-bit frames" % (i.callee, v, b)))
                        s = s | {("i", m)}
            return s
        def edge(s, e, vals):
            # the "already initialised" test: a table entry of the DSP context is non-null
            i, taken = e
            c = f.insts.get(i.a[0]) if isinstance(i.a[0], int) else None
            neg = False
            while c is not None and c.op == "xor": neg = not neg; c = f.insts.get(c.a[0]) if isinstance(c.a[0], int) else None
            if c is None or c.op != "icmp": return s
            p = c.x if isinstance(c.x, str) else c.x[0]
            l = f.insts.get(c.a[0]) if isinstance(c.a[0], int) else None
            if l is None or l.op != "load" or c.a[1] not in (["n"], ["c", 0]): return s
            k, _ = addr_class(f, l.a[0])
            st = k.split(".")[0] if k else ""
            if st in {tn for _, tn in subs} | {"Dav1dDSPContext"}:
                nonnull = (p == "ne") == bool(taken)
                if neg: nonnull = not nonnull
                a = A0.val(vals, l.a[0])
                if isinstance(a, tuple) and a[1] == ("a", 0) and a[2] is not None and not base <= a[2] < base + dt["size"]: return s
                if nonnull: return s | {("i", m) for m, _ in subs}
            return s
        bad = []
        A0 = None
        class A_(CCP):
            def solve(self, args, init):
                nonlocal A0
                A0 = self
                CCP.solve(self, args, init)
        A_(P, f, args={0: ("ptr", ("a", 0), 0)}, load=assume(b), step=step, init=frozenset(), join=lambda x, y: x & y, edge=edge)
        seen = set()
        for i, msg in bad:
            if (i.id, msg) not in seen: seen.add((i.id, msg)); ctx.violation(i.where(), msg, f.name, "frame")
        sinks = [i for i in f.calls() if i.callee in ("dav1d_decode_frame", "dav1d_task_frame_init", "dav1d_decode_frame_init") and i.id in A0.at]
        ctx.require(sinks, "no decoding call reachable in dav1d_submit_frame for %d-bit" % b)
        for i in sinks:
            ctx.count("decode_call_sites")
            for p in entries:
                ctx.count("frame_entries")
                if ("e", p) not in A0.at[i.id]:
                    ctx.violation(i.where(), "a %d-bit frame starts decoding with bd_fn%s possibly unset" % (b, p), f.name, "frame")
            for m, tn in subs:
                ctx.count("frame_entries")
                if ("i", m) not in A0.at[i.id]:
                    ctx.violation(i.where(), "a %d-bit frame starts decoding with DSP table %s possibly not initialised" % (b, m), f.name, "frame")
        # the function stored is the entry's own
        for i in f.all_insts():
            if i.op == "store" and i.id in A0.at and isinstance(i.a[0], list) and i.a[0][0] == "g":
                c, _ = addr_class(f, i.a[1])
                if c and c.startswith("Dav1dFrameContext.bd_fn."):
                    fld = c.split("bd_fn.", 1)[1]; n = i.a[0][1]
                    if not depth_ok(n, b): ctx.violation(i.where(), "bd_fn.%s of %d-bit frames receives %s" % (fld, b, n), f.name, "depth")
                    if core(n) != fld and core(n) in [p[1:] for p in entries]:
                        ctx.violation(i.where(), "bd_fn.%s receives %s" % (fld, n), f.name, "role")
    # instance-wide tables
    op = P.fn("dav1d_open")
    ctx.require(op is not None, "dav1d_open not found")
    E = Effects(P)
    r = E.reach(["dav1d_open"])
    for m in ct["m"]:
        d = P.ty(m[3])
        if d and d["k"] == "struct" and list(fnleaves(P, m[3])) and m[0].endswith("_dsp"):
            ctx.count("instance_tables")
            tn = P.tname(m[3])
            if not any(x in r for x in initf if initf[x][0] == tn):
                ctx.violation("src/lib.c", "dav1d_open does not initialise Dav1dContext.%s" % m[0], "dav1d_open", "noinit")
            else:
                must(ctx, P, op, m[0], [x for x in initf if initf[x][0] == tn])

def must(ctx, P, op, what, names):
    """on every successful return of dav1d_open the initialiser has run"""
    def step(s, i, vals):
        return s | {1} if i.op == "call" and i.callee in names else s
    A = CCP(P, op, step=step, init=frozenset(), join=lambda a, b: a & b)
    if not any(i.callee in names for i in op.calls()): return
    for i in op.all_insts():
        if i.op == "store" and i.id in A.at: pass
        if i.op == "ret" and i.id in A.at:
            v = i.a[0] if i.a else None
            d = op.insts.get(v) if isinstance(v, int) else None
            if d is not None and d.op == "phi":
                for a, p in zip(d.a, d.x):
                    if a == ["c", 0] and A.inb[p] is not None:
                        t = op.blocks[p][-1]
                        if t.id in A.at and 1 not in A.at[t.id]:
                            ctx.violation(t.where(), "dav1d_open can succeed without initialising %s" % what, op.name, "noinit")

def dispatch(ctx, P):
    """under an assumed bit depth, no reachable call or stored pointer outside the templates names the other depth"""
    for f in P.functions():
        if re.search(r"_(8|16|10|12)bpc$", f.name) or "_tmpl.c" in (f.file or "") : continue
        cs = [i for i in f.calls() if i.callee and re.search(r"_(8|16)bpc$", i.callee)]
        if not cs: continue
        for b in BPC:
            A = CCP(P, f, args={0: ("ptr", ("a", 0), 0)}, load=assume(b))
            for i in cs:
                if i.id not in A.at: continue
                ctx.count("depth_call_sites")
                if not depth_ok(i.callee, b):
                    ctx.violation(i.where(), "%s is called for %d-bit pictures" % (i.callee, b), f.name, "depth")
                else:
                    # a DSP table handed over must be the one of this depth
                    for v in i.a:
                        x = []
                        while isinstance(v, int) and v in f.insts and f.insts[v].op == "getelementptr":
                            x = list(f.insts[v].x) + x; v = f.insts[v].a[0]
                        k = [j for j, e in enumerate(x) if e[0] == "f" and e[1] == "Dav1dContext" and e[2] == "dsp"]
                        if not k or k[0] + 1 >= len(x) or x[k[0] + 1][0] == "f": continue
                        ix = A.val(A.vals, x[k[0] + 1][1])
                        ctx.count("dsp_selections")
                        if isinstance(ix, int) and ix != BPC[b]:
                            ctx.violation(i.where(), "%s receives DSP table %d for %d-bit pictures" % (i.callee, ix, b), f.name, "depth")

def slots(ctx, P):
    """every function-pointer field the library calls through is stored somewhere"""
    E = Effects(P)
    for f in P.functions():
        for i in E.indirect[f.name]:
            c = E.slot_of(f, i)
            if c is None or c.startswith("*"): continue
            ctx.count("indirect_calls")
            st = c.split(".")[0]
            if st in ("Dav1dPicAllocator", "Dav1dLogger", "Dav1dRef", "Dav1dSettings", "Dav1dMemPool"): continue
            if c not in E.slot and not any(isinstance(x, str) for x in E.slot.get(c, ())):
                base = c.split("[]")[0]
                if any(k.split("[]")[0] == base for k in E.slot): continue
                ctx.violation(i.where(), "%s is called but never set" % c, f.name, "unset")
