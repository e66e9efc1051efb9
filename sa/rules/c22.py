"""C22: ISA gating."""
import re, os
from engine import *
from effects import Effects
import front
from world import World, Mem

SUF = re.compile(r"_(sse2|ssse3|sse41|avx2|avx512icl|sse4|avx|avx512|fma3|xop|gfni|vnni)$")
FLAG = {"sse2": "SSE2", "ssse3": "SSSE3", "sse41": "SSE41", "sse4": "SSE41", "avx2": "AVX2", "avx512icl": "AVX512ICL"}
# Intel SDM / AMD APM: feature bits each extension (as x86inc.asm defines it) needs: (leaf, register, bits)
NEED = {"SSE2": [(1, "edx", 0x06000000)],
        "SSSE3": [(1, "edx", 0x06000000), (1, "ecx", 0x201)],
        "SSE41": [(1, "edx", 0x06000000), (1, "ecx", 0x80201)],
        "AVX2": [(1, "ecx", 0x18000000), ("xcr0", "", 0x6), (7, "ebx", 0x128)],
        "AVX512ICL": [(1, "ecx", 0x18000000), ("xcr0", "", 0xe6), (7, "ebx", 0xd0230128), (7, "ecx", 0x5f42)]}
BASE = {"SSE2"}     # architectural baseline of x86-64

def bit_implies(t, bit, pred, d=0):
    """bit `bit` of t set implies the bit is set in a value satisfying pred"""
    if pred(t): return True
    if t[0] == "c": return not (t[1] >> bit & 1)
    if t[0] in ("z", "sx", "tr"): return bit_implies(t[2], bit, pred, d + 1)
    if t[0] == "op" and t[1] == "and": return bit_implies(t[3], bit, pred, d + 1) or bit_implies(t[4], bit, pred, d + 1)
    if t[0] == "op" and t[1] == "or": return bit_implies(t[3], bit, pred, d + 1) and bit_implies(t[4], bit, pred, d + 1)
    return False

def known_set_bits(st, eng):
    """[(term, mask)] : these bits are known to be one (mask exact) or at least one of them is (single bit only)"""
    out = []
    for t, r in st.facts.items():
        if t[0] == "op" and t[1] == "and" and t[4][0] == "c":
            m = t[4][1] & 0xffffffffffffffff
            lo = int(r[0]) & 0xffffffffffffffff if r[0] == r[1] and abs(r[0]) < INF else None
            if t[2] == 32: m &= 0xffffffff; lo = lo & 0xffffffff if lo is not None else None
            if lo is not None and lo: out.append((t[3], lo))
            elif r[0] > 0 and m & (m - 1) == 0: out.append((t[3], m))
    for t, e in st.ne.items():
        if 0 in e and t[0] == "op" and t[1] == "and" and t[4][0] == "c":
            m = t[4][1] & (0xffffffff if t[2] == 32 else -1)
            if m & (m - 1) == 0: out.append((t[3], m))
    for t, r in st.facts.items():
        if t[0] == "cmp" and t[1] == "eq":
            a, b = t[3], t[4]
            if r == (1, 1) and a[0] == "op" and a[1] == "and" and a[4][0] == "c" and b[0] == "c":
                out.append((a[3], b[1] & (0xffffffff if a[2] == 32 else 0xffffffffffffffff)))
            elif r == (0, 0) and b == NULL and a[0] == "op" and a[1] == "and" and a[4][0] == "c":
                m = a[4][1] & (0xffffffff if a[2] == 32 else -1)
                if m & (m - 1) == 0: out.append((a[3], m))
    return out

class GateRule(Rule):
    def __init__(self, E, bits): self.modsets = E; self.bits = bits; self.sites = []
    def isflag(self, t, g):
        if t[0] == "v" and isinstance(t[1], tuple) and t[1][0] in ("ld",):
            i = self.eng.fn.insts.get(t[1][1])
            return i is not None and isinstance(i.a[0], list) and i.a[0][:2] == ["g", g]
        return False
    def masked(self, t):
        if t[0] == "v" and isinstance(t[1], tuple) and isinstance(t[1][0], int):
            i = self.eng.fn.insts.get(t[1][0])
            return i is not None and i.op == "call" and i.callee == "dav1d_get_cpu_flags"
        return False
    def has(self, st, flag):
        bit = self.bits[flag].bit_length() - 1
        for t, m in known_set_bits(st, self.eng):
            if not m >> bit & 1: continue
            if bit_implies(t, bit, self.masked): return True
            if bit_implies(t, bit, lambda x: self.isflag(x, "dav1d_cpu_flags")) and bit_implies(t, bit, lambda x: self.isflag(x, "dav1d_cpu_flags_mask")): return True
        return False
    def check(self, st, inst, sym, how):
        m = SUF.search(sym)
        if not m: return
        s = m.group(1)
        self.sites.append((inst.where(), sym))
        if s not in FLAG:
            self.eng.report(st, inst, "%s is %s, but no CPU flag describes that extension" % (sym, how), "gate"); return
        fl = FLAG[s]
        if fl in BASE and how == "called": return
        if not self.has(st, fl):
            self.eng.report(st, inst, "%s is %s on a path where the masked CPU flags are not known to include %s" % (sym, how, fl), "gate")
    def asm(self, v): return v[0] == "g" and v[1] in self.eng.prog.decls and SUF.search(v[1])
    def on_store(self, st, inst, a, v):
        if self.asm(v): self.check(st, inst, v[1], "installed")
        return None
    def on_call(self, st, inst, name, args):
        if name and self.asm(("g", name)): self.check(st, inst, name, "called")
        for a in args:
            if self.asm(a): self.check(st, inst, a[1], "passed on")
        return None

class DetectRule(Rule):
    def __init__(self, E): self.modsets = E; self.k = 0; self.rets = []
    def start(self, st): st.r["leaf"] = {}; st.r["map"] = {}
    def key(self, st, b):
        self.k += 1; return self.k
    def merge(self, b, A, B, M, J): M.r = dict(A.r)
    def on_call(self, st, inst, name, args):
        if name == "dav1d_cpu_cpuid":
            base = loc_of(args[0])[0]
            for l in [l for l in st.mem if l[0] == base]: del st.mem[l]
            st.r = dict(st.r); st.r["leaf"] = dict(st.r["leaf"]); st.r["leaf"][base] = args[1]
            return True
        if name == "dav1d_cpu_xgetbv":
            s = self.eng.fresh(st, inst); st.env[inst.id] = s
            st.r = dict(st.r); st.r["map"] = dict(st.r["map"])
            if args[0] == C(0): st.r["map"][s] = ("xcr0", "")
            return True
        return None
    def live_syms(self, st): return frozenset(st.r["map"])
    def on_initial(self, st, inst, loc, t):
        lf = st.r["leaf"].get(loc[0])
        if lf is not None and lf[0] == "c":
            f = loc[1][-1].split(".")[-1] if loc[1] and isinstance(loc[1][-1], str) else "eax"
            if f not in ("eax", "ebx", "ecx", "edx"): f = "eax"
            st.r = dict(st.r); st.r["map"] = dict(st.r["map"]); st.r["map"][t] = (lf[1], f)
    def on_ret(self, st, inst, v):
        have = {}
        for t, m in known_set_bits(st, self.eng):
            while t[0] in ("z", "sx", "tr"): t = t[2]
            k = st.r["map"].get(t)
            if k: have[k] = have.get(k, 0) | m
        maxleaf = max([self.eng.rng(st, t)[0] for t, k in st.r["map"].items() if k[0] == 0] + [0])
        for t, r in st.facts.items():
            if t[0] == "cmp" and t[1] == "ult" and st.r["map"].get(t[3], (1,))[0] == 0 and t[4][0] == "c" and r == (0, 0): maxleaf = max(maxleaf, t[4][1])
            if t[0] == "cmp" and t[1] == "ult" and st.r["map"].get(t[4], (1,))[0] == 0 and t[3][0] == "c" and r == (1, 1): maxleaf = max(maxleaf, t[3][1] + 1)
        if v[0] != "c":
            self.eng.report(st, inst, "detected CPU flags are not a known constant on this path (" + repr(v)[:80] + ")", "detect")
            return
        self.rets.append(v[1])
        for fl, bit in self.bits.items():
            if fl not in NEED or not v[1] & bit or fl in BASE and v[1] & bit and fl in self.default: continue
            for leaf, reg, m in NEED[fl]:
                if have.get((leaf, reg), 0) & m != m:
                    self.eng.report(st, inst, "%s is reported without testing all of CPU feature bits %#x of %s" % (fl, m, ("CPUID leaf %d %s" % (leaf, reg)) if leaf != "xcr0" else "XCR0"), "detect")
                if leaf == 7 and maxleaf < 7:
                    self.eng.report(st, inst, "%s is reported from CPUID leaf 7 without establishing that the leaf exists" % fl, "detect")

def run(ctx):
    ctx.rule = ("Every store, call or argument that mentions an assembly symbol with an instruction-set suffix is checked path-sensitively: the branch conditions on the path must "
                "imply that the flag of that suffix is set in (detected flags AND application mask). The detection routine is checked on every path: a flag is returned only "
                "after all CPUID/XCR0 bits the extension needs were tested. The mask the application sets is stored unchanged (evaluated for every bit).")
    ctx.assumptions += ["the suffix of an assembly symbol names the highest extension its code uses (x86inc.asm generates it from INIT_*)", "x86-64 baseline is SSE2",
                        "only the x86-64 configuration that the build uses here is analysed"]
    bits = {}
    hdr = open(front.REPO + "/src/x86/cpu.h").read()
    d = front.tmpdir() + "/probe22.c"
    names = re.findall(r"DAV1D_X86_CPU_FLAG_(\w+)", hdr)
    names = list(dict.fromkeys(names))
    with open(d, "w") as f:
        f.write('#include "config.h"\n#include "src/cpu.h"\n#include "src/x86/cpu.h"\n')
        for n in names: f.write("const unsigned sa_flag_%s = DAV1D_X86_CPU_FLAG_%s;\n" % (n, n))
        f.write("const unsigned *sa_use[] = {%s};\n" % ",".join("&sa_flag_" + n for n in names))
    pp = Prog(front.export(front.compile_units([(d, None)])))
    for n in names:
        v = pp.gv("sa_flag_" + n)["init"]
        bits[n] = v[1] if isinstance(v, list) and v[0] == "c" else v
    ctx.require(all(isinstance(b, int) and b & (b - 1) == 0 for b in bits.values()) and set(FLAG.values()) <= set(bits), "CPU flag enumeration not understood")
    if len(set(bits.values())) != len(bits): ctx.violation("src/x86/cpu.h", "two CPU flags share a bit", "", "flags")
    P = ctx.prog(); E = Effects(P)
    ctx.cov["sites"] = 0
    fns = 0; sites = 0
    for f in P.functions():
        hit = False
        for i in f.all_insts():
            for v in i.a:
                if isinstance(v, list) and v[0] == "g" and SUF.search(v[1]) and v[1] in P.decls: hit = True
                elif isinstance(v, list) and v[0] in ("cg", "cast") and re.search(SUF.pattern[:-1] + "'", str(v)): hit = True
            if i.op == "call" and i.callee and SUF.search(i.callee) and i.callee in P.decls: hit = True
            if hit: break
        if not hit: continue
        only = {SUF.search(i.callee).group(1) for i in f.calls() if i.callee and SUF.search(i.callee) and i.callee in P.decls}
        arg = any(isinstance(v, list) and re.search(SUF.pattern[:-1] + "'", str(v)) for i in f.all_insts() if i.op != 'call' or True for v in i.a)
        if not arg and only <= {"sse2"}:
            sites += sum(1 for i in f.calls() if i.callee and SUF.search(i.callee)); continue
        fns += 1
        r = GateRule(E, bits); e = Engine(P, f, r, kmax=200); e.run()
        sites += len(set(r.sites))
        for x in e.reports: ctx.violation(x["where"], x["msg"], f.name, x["kind"], x["path"])
        if len(ctx.samples) < 6 and r.sites: ctx.sample("%s: %d sites" % (f.name, len(set(r.sites))))
    # tables of asm functions in constant initialisers would escape the path rule
    for n in P.globals:
        g = P.gv(n)
        s = str(g.get("init"))
        m = re.search(r"'(dav1d_\w+_(?:sse2|ssse3|sse41|avx2|avx512icl))'", s)
        if m: ctx.violation("%s:%s" % (g.get("file"), g.get("line")), "assembly symbol %s sits in a static table, outside any flag test" % m.group(1), n, "table")
    ctx.setc("installing_functions", fns); ctx.setc("sites", sites)
    ctx.require(sites > 0, "no assembly symbol is mentioned anywhere: wrong configuration")
    # detection
    det = [f for f in P.functions() if any(i.callee == "dav1d_cpu_cpuid" for i in f.calls())]
    ctx.require(det, "no CPUID user found")
    paths = 0
    for f in det:
        r = DetectRule(E); r.bits = bits; r.default = BASE
        e = Engine(P, f, r, kmax=2000); e.run()
        for x in e.reports: ctx.violation(x["where"], x["msg"], f.name, x["kind"], x["path"])
        paths += len(r.rets)
    ctx.setc("detection_paths", paths)
    mask(ctx, P)

def mask(ctx, P):
    """the mask the application sets is the mask the flags are tested against"""
    f = P.fn("dav1d_set_cpu_flags_mask")
    ctx.require(f is not None, "dav1d_set_cpu_flags_mask is gone")
    g = ("ptr", ("g", "dav1d_cpu_flags_mask"), 0)
    ctx.require(P.gv("dav1d_cpu_flags_mask") is not None, "the mask of the CPU flags is gone")
    for m in [0, 0xffffffff, 0x7fffffff, 0x80000000] + [1 << k for k in range(32)] + [0xffffffff ^ (1 << k) for k in range(32)]:
        w = World(P); mem = Mem(); v = m - (1 << 32) if m >> 31 else m
        mem.store(g, 0x5a)
        for ev, rv, mm in w.run(f, {0: v}, mem):
            ctx.count("masks_followed")
            x = w.read(mm, g, "i32")
            if not isinstance(x, int) or (x ^ v) & 0xffffffff:
                ctx.violation("%s:%d" % (f.file, f.line), "the mask the application sets is changed before it is used", f.name, "mask"); return
