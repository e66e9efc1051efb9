"""Front end: compile /repo's current sources to LLVM bitcode and export the resolved program.

Nothing is executed from /repo: clang only parses and lowers.  The configuration (config.h) is the one the
project's own build uses on this machine: x86-64, both bit depths, assembly enabled, no DSP trimming."""
import os, sys, subprocess, glob, hashlib, json, tempfile, shutil, atexit
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SA_REPO", "/repo")
CLANG = next((p for p in ("/usr/bin/clang-18", "/usr/lib/llvm-18/bin/clang", "clang-18", "clang") if os.path.exists(p)), "clang")
IRX = os.path.join(HERE, "bin", "irx")

class BuildError(Exception):
    pass

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="sa_ir_")
        pid = os.getpid()
        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(clean)
    return _tmp

def lib_units():
    """All translation units of the library for x86-64: (source, bitdepth or None)."""
    u = []
    for f in sorted(glob.glob(REPO + "/src/*.c")):
        if f.endswith("_tmpl.c"):
            u.append((f, 8)); u.append((f, 16))
        else:
            u.append((f, None))
    u.append((REPO + "/src/x86/cpu.c", None))
    return u

def tool_units():
    return [(f, None) for f in sorted(glob.glob(REPO + "/tools/*.c") + glob.glob(REPO + "/tools/input/*.c") + glob.glob(REPO + "/tools/output/*.c"))]

def cflags(ndebug=True):
    c = HERE + "/config"
    fl = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-std=gnu99", "-fno-discard-value-names", "-w",
          "-D_FILE_OFFSET_BITS=64", "-D_GNU_SOURCE", "-fvisibility=hidden", "-fPIC",
          "-I" + c, "-I" + c + "/include", "-I" + REPO, "-I" + REPO + "/include",
          "-I" + REPO + "/include/dav1d", "-I" + REPO + "/tools", "-I" + REPO + "/include/compat"]
    if ndebug:
        fl.append("-DNDEBUG")
    return fl

def compile_units(units, ndebug=True, extra=()):
    d = tmpdir()
    def one(u):
        src, bd = u
        key = hashlib.sha1(("%s|%s|%s|%s" % (src, bd, ndebug, extra)).encode()).hexdigest()[:12]
        out = "%s/%s_%s.bc" % (d, os.path.basename(src)[:-2], key)
        if os.path.exists(out):
            return out
        cmd = [CLANG, "-c", "-emit-llvm"] + cflags(ndebug) + list(extra)
        if bd:
            cmd.append("-DBITDEPTH=%d" % bd)
        cmd += [src, "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("clang failed on %s (bitdepth %s):\n%s" % (src, bd, r.stderr[-3000:]))
        return out
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units))

def export(bcs, inline=(), noinline=(), unroll=0, max_inline=1500, inline_static=True):
    if not os.path.exists(IRX):
        r = subprocess.run([HERE + "/build_irx.sh"], capture_output=True, text=True)
        if not os.path.exists(IRX):
            raise BuildError("cannot build irx: " + r.stderr[-2000:])
    d = tmpdir()
    args = ["--inline=" + ",".join(inline), "--noinline=" + ",".join(noinline), "--unroll=%d" % unroll, "--max-inline=%d" % max_inline]
    if not inline_static:
        args.append("--no-inline-static")
    known = HERE + "/golden/externs.txt"
    if os.path.exists(known): args.append("--known=" + known)
    key = hashlib.sha1((" ".join(args) + "|".join(bcs)).encode()).hexdigest()[:12]
    out = "%s/prog_%s.jsonl" % (d, key)
    if not os.path.exists(out):
        r = subprocess.run([IRX, "-o", out + ".tmp"] + args + bcs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("irx failed: " + r.stderr[-2000:])
        os.rename(out + ".tmp", out)
    return out
