"""Constant tables read out of compiled initialisers."""
import re
from ir import *

def src_name(n): return re.sub(r"\.\d+$", "", n)
def fnname(f): return re.sub(r"_(8|16)bpc$", "", f)

def scalars(P, t):
    d = P.ty(t)
    if d is None: return set()
    if d["k"] == "array": return scalars(P, d["elem"])
    if d["k"] in ("struct", "union"): return set().union(*[scalars(P, m[3]) for m in d["m"]])
    return {P.type_str(t)}

def flat(P, g):
    """[(offset, size, value)] of a constant; values are ints or '&symbol'"""
    out = []
    for off, sz, v in g.get("flat", ()):
        if isinstance(v, list):
            if v and v[0] == "g": v = "&" + src_name(v[1])
            elif v and v[0] == "cg" and v[1][0] == "g": v = "&" + src_name(v[1][1]) + "+"
            else: v = "&?"
        out.append((off, sz, v))
    return out

UNS = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64}

def pieces(P, t, base=0, pre="", minsz=64):
    """named parts of a type: big structures are split by member: (name, offset, size, type)"""
    d = P.ty(t)
    if d is None: return
    if d["k"] == "struct" and d["size"] > minsz:
        for m in d["m"]: yield from pieces(P, m[3], base + m[1], pre + "." + m[0], minsz)
    else: yield pre, base, d["size"] if "size" in d else None, t

def table_parts(P, g):
    fl = flat(P, g)
    for name, off, size, t in pieces(P, g["ty"]):
        d = P.ty(t)
        if size is None: size = g["size"]
        vals = [v for o, s, v in fl if off <= o < off + size]
        k = scalars(P, t)
        if len(k) == 1:
            n = UNS.get(next(iter(k)))
            if n: vals = [x % (1 << n) if isinstance(x, int) else x for x in vals]
        yield name, t, vals
