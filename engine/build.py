"""Compiles what a check needs from /repo's current tree into a scratch
directory: C++ sources to optimised bitcode, m4 Fortran to GIMPLE to C to
bitcode."""
import atexit
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CXX = "/usr/bin/clang++-18"
CC = "/usr/bin/clang-18"
OPT = "/usr/lib/llvm-18/bin/opt"
CXXFLAGS = ["-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP", "-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP",
            "-DNDEBUG", "-std=c++17", "-fopenmp", "-fno-exceptions", "-ffp-contract=off", "-w"]
PASSES = "cgscc(inline,function(sroa,early-cse,simplifycfg)),globaldce"
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vp-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd[:6]) + " ...\n" + p.stderr[-3000:])
    return p.stdout


def cxx(src, tag=None, defs=()):
    """one C++ source -> bitcode path"""
    d = scratch()
    tag = tag or os.path.basename(src).replace(".", "_")
    raw, out = f"{d}/{tag}.raw.bc", f"{d}/{tag}.bc"
    run([CXX, f"-I{VERIF}/stubs", f"-I{REPO}/src", f"-I{REPO}/src/cuda", "-O2", "-Xclang", "-disable-llvm-passes", *CXXFLAGS, *defs,
         "-c", "-emit-llvm", src, "-o", raw])
    run([OPT, "-inline-threshold=3000", f"-passes={PASSES}", raw, "-o", out])
    os.unlink(raw)
    return out


def fortran(name):
    """m4 source name (without extension) -> (bitcode, signatures, untranslated)"""
    import gimple2c
    d = scratch()
    w = f"{d}/f_{name}"
    os.makedirs(w, exist_ok=True)
    f = f"{w}/{name}.f"
    with open(f, "w") as o:
        o.write(run(["m4", f"{REPO}/m4/{name}.m4", f"-I{REPO}/m4"]))
    run(["gfortran", "-O0", "-fdump-tree-gimple", "-c", f"{name}.f", "-o", f"{name}.o"], cwd=w)
    g = [x for x in os.listdir(w) if x.endswith(".gimple")][0]
    c, sigs, bad = gimple2c.translate(open(f"{w}/{g}").read())
    cf = f"{w}/{name}.c"
    with open(cf, "w") as o:
        o.write(c)
    raw, out = f"{w}/{name}.raw.bc", f"{w}/{name}.bc"
    run([CC, "-std=gnu11", "-w", "-O2", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-c", "-emit-llvm", cf, "-o", raw])
    run([OPT, "-inline-threshold=3000", f"-passes={PASSES}", raw, "-o", out])
    return out, sigs, bad


def build_all(cxxs=(), forts=(), jobs=8):
    """parallel build; returns ({src: bc}, {name: (bc, sigs, bad)})"""
    with ThreadPoolExecutor(jobs) as ex:
        fc = {c: ex.submit(cxx, *(c if isinstance(c, tuple) else (c,))) for c in cxxs}
        ff = {f: ex.submit(fortran, f) for f in forts}
        return {c: r.result() for c, r in fc.items()}, {f: r.result() for f, r in ff.items()}
