"""Which functions report failure, and how."""
from engine import *
from effects import Effects
from scan import *

ERRNO = {-1, -2, -5, -9, -11, -12, -17, -22, -34, -38, -71, -84, -92, -95}
EXT = {"pthread_create": "nz", "pthread_mutex_init": "nz", "pthread_cond_init": "nz"}
SLOTS = {"Dav1dPicAllocator.alloc_picture_callback": "neg"}
CELL = ("retval", "error", "cached_error")

def is_cell(c):
    """a field that remembers an error for later"""
    return bool(c) and c.rsplit(".", 1)[-1].split("[")[0] in CELL

def signed(v, ty):
    b = bits_of(ty)
    return v - (1 << b) if b and v >= 1 << (b - 1) else v

def returns(f):
    """(constants, callees whose result is passed on, field classes whose value is passed on, other)"""
    cs, fs, ld, other = set(), set(), set(), set(); seen = set()
    def go(v, ty):
        if isinstance(v, list):
            if v and v[0] == "c": cs.add(signed(v[1], ty))
            elif v and v[0] in ("n", "z"): cs.add(0)
            elif v and v[0] != "u": other.add("const")
            return
        if v in seen: return
        seen.add(v)
        i = f.insts.get(v)
        if i is None: other.add("arg"); return
        if i.ty == "i1": other.add("bool"); return
        if i.op == "phi":
            for x in i.a: go(x, i.ty)
        elif i.op == "select": go(i.a[1], i.ty); go(i.a[2], i.ty)
        elif i.op in ("sext", "trunc", "zext", "freeze"): go(i.a[0], f.insts[i.a[0]].ty if isinstance(i.a[0], int) and i.a[0] in f.insts else i.ty)
        elif i.op == "call":
            if i.callee: fs.add(i.callee)
            else: fs.add(("slot", i))
        elif i.op == "load": ld.add(addr_class(f, i.a[0])[0])
        elif i.op == "icmp" or i.ty == "i1": other.add("bool")
        else: other.add(i.op)
    for i in f.all_insts():
        if i.op == "ret" and i.a: go(i.a[0], i.a and (f.insts[i.a[0]].ty if isinstance(i.a[0], int) and i.a[0] in f.insts else f.ret if hasattr(f, "ret") else "i32"))
    return cs, fs, ld, other

def fallible(P, E):
    """function name -> "neg" (a negative result is a failure)"""
    R = {f.name: returns(f) for f in P.functions()}
    F = dict(EXT)
    for n, (cs, fs, ld, other) in R.items():
        neg = {c for c in cs if c < 0}
        if n in F: continue
        if neg & (ERRNO - {-1}) and not (cs - {0} - ERRNO): F[n] = "neg"
        elif neg == {-1} and cs <= {0, -1} and not (other - {"bool"}): F[n] = "neg"
        elif neg == {-1} and cs <= {0, 1, -1} and not other and not ld: F[n] = "nz"
        elif any(is_cell(c) for c in ld if c): F[n] = "neg"
    ch = True
    while ch:
        ch = False
        for n, (cs, fs, ld, other) in R.items():
            if n in F: continue
            if any(x in F and F[x] == "neg" for x in fs if isinstance(x, str)) or any(not isinstance(x, str) and E.slot_of(P.fn(n), x[1]) in SLOTS for x in fs): F[n] = "neg"; ch = True
    return F, R
