"""Concrete replay of a counterexample on the real, compiled code."""
import ctypes
import json
import math
import os
import random
import re
import subprocess
import sys

import build
import numpy as np

_libs = {}


def so_cxx(cfile, flavour=""):
    """real C++ translation unit as a shared object (same flags as the project)"""
    key = (cfile, flavour)
    if key in _libs:
        return _libs[key]
    d = build.scratch()
    out = f"{d}/real_{os.path.basename(cfile).replace('.', '_')}{flavour}.so"
    inc = [f"-I{build.REPO}/src", f"-I{build.REPO}/src/cuda"]
    defs = ["-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP", "-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP", "-DNDEBUG",
            "-std=c++17", "-fPIC", "-w"]
    src = cfile if os.path.isabs(cfile) else f"{build.REPO}/src/cuda/{cfile}"
    if flavour == "":
        build.run(["g++", "-O2", "-fopenmp", *defs, *inc, "-shared", src, "-o", out])
    else:
        # same code, own OpenMP runtime that runs one-iteration chunks in reverse order
        o = out + ".o"
        build.run([build.CXX, "-O1", "-fopenmp", f"-I{build.VERIF}/stubs", *defs, *inc, "-c", src, "-o", o])
        r = out + ".rt.o"
        build.run([build.CC, "-O1", "-fPIC", "-c", f"{build.VERIF}/stubs/revomp.c", "-o", r])
        build.run([build.CXX, "-shared", o, r, "-o", out])
    lib = ctypes.CDLL(out)
    syms = {}
    for l in subprocess.run(["nm", "-D", "--defined-only", out], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        p = l.split()
        if len(p) == 3:
            syms[p[2]] = 1
    _libs[key] = (lib, syms)
    return _libs[key]


def so_fortran(m4):
    if m4 in _libs:
        return _libs[m4]
    d = build.scratch()
    f, out = f"{d}/real_{m4}.f", f"{d}/real_{m4}.so"
    with open(f, "w") as o:
        o.write(build.run(["m4", f"{build.REPO}/m4/{m4}.m4", f"-I{build.REPO}/m4"]))
    stub = f"{d}/lapack.c"                     # LAPACK is not here: its callers are outside the claims
    if not os.path.exists(stub):
        with open(f"{stub}.{os.getpid()}.{m4}", "w") as o:
            o.write("#include <stdlib.h>\n" + "".join(f"void {n}_(void) {{ abort(); }}\n" for n in ("dgesv", "dgetrf", "dgetrs")))
        os.replace(f"{stub}.{os.getpid()}.{m4}", stub)
    build.run(["gfortran", "-O2", "-fPIC", "-shared", f, "-x", "c", stub, "-o", out])
    _libs[m4] = ctypes.CDLL(out)
    return _libs[m4]


_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PAGE, WALL = 4096, 64 * 4096


def walled(n, dt, at_end):
    """array of n elements between inaccessible pages; (array, NaN slack)"""
    esz = np.dtype(dt).itemsize
    body = max(PAGE, -(-n * esz // PAGE) * PAGE)
    b = _libc.mmap(None, body + 2 * WALL, 3, 0x22, -1, 0)
    _libc.mprotect(b, WALL, 0)
    _libc.mprotect(b + WALL + body, WALL, 0)
    whole = np.ctypeslib.as_array((ctypes.c_byte * body).from_address(b + WALL)).view(dt)
    whole[:] = np.nan
    k = (body - n * esz) // esz if at_end else 0
    return whole[k:k + n], whole


class Inputs:
    """concrete inputs of one kernel call, arrays surrounded by guard zones"""

    def __init__(self, k, vals, extents, cells, seed, T="d"):
        rnd = random.Random(seed)
        self.k, self.vals, self.T = k, vals, T
        self.arr = {}
        dt = np.float64 if T == "d" else np.float32
        for p in k.params:
            n = p.lstrip("*")
            if p[0] == "*" or p in ("alpha", "beta", "dirf", "neuf"):
                ext = max(0, int(extents.get(n, 8192 if p[0] == "*" else 1)))
                a = np.array([rnd.uniform(0.5, 1.5) for i in range(ext)], dtype=np.float64)
                for off, x in cells.get(n, {}).items():
                    off = int(off)
                    if 0 <= off < ext and math.isfinite(x) and abs(x) < 1e12:
                        a[off] = x
                self.arr[n] = a.astype(dt)

    def call(self, fn, dt=None, at_end=False):
        arr, slack = {}, {}
        for n, a in self.arr.items():
            arr[n], slack[n] = walled(len(a), dt or a.dtype, at_end)
            arr[n][:] = a
        keep, args = [], []
        for p in self.k.params:
            n = p.lstrip("*#")
            if n in arr:
                args.append(ctypes.c_void_p(arr[n].ctypes.data))
            elif p[0] == "#":
                c = (ctypes.c_int * len(self.vals[p]))(*self.vals[p])
                keep.append(c)
                args.append(ctypes.cast(c, ctypes.c_void_p))
            else:
                c = ctypes.c_int(self.vals[p])
                keep.append(c)
                args.append(ctypes.cast(ctypes.pointer(c), ctypes.c_void_p))
        fn.restype = None
        fn(*args)
        self.spill = [n for n in arr if np.count_nonzero(~np.isnan(slack[n])) != np.count_nonzero(~np.isnan(arr[n]))]
        return arr


def differ(a, b, tol):
    with np.errstate(all="ignore"):
        na, nb = np.isnan(a), np.isnan(b)
        bad = na != nb
        both = ~na & ~nb
        s = np.maximum(1.0, np.maximum(np.abs(a), np.abs(b)))
        bad |= both & (np.abs(a - b) > tol * s)
    return np.nonzero(bad)[0]


def kernel_fn(k, T="d", flavour=""):
    lib, syms = so_cxx(k.cfile, flavour)
    name = [n for n in syms if n.startswith("_ZN" + k.cmangled(T))]
    return getattr(lib, name[0])


def child(fn, timeout=120):
    """run fn in a forked child: the replayed code may crash.  -> (status, result)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import resource
            import signal
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.alarm(timeout)
            os.environ["OMP_NUM_THREADS"] = "1"
            res = fn()
            os.write(w, json.dumps(res).encode())
        except BaseException as e:
            os.write(w, json.dumps({"error": repr(e)}).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return {"signal": os.WTERMSIG(st)}
    try:
        return json.loads(data)
    except ValueError:
        return {"error": "no result"}


def kernel_replay(k, vals, extents, cells, kind, T="d", seeds=6):
    """-> description of the reproduced misbehaviour or None"""
    fref = so_fortran(k.m4)
    ref = getattr(fref, k.fname + "_")
    impl = kernel_fn(k, T)
    rev = None
    if kind == "race":
        rev = kernel_fn(k, T, "_rev")

    def once(seed, cells, at_end, what):
        inp = Inputs(k, vals, extents, cells, seed, T)
        if what == "reference":
            inp.call(ref, np.float64, at_end)
            return [[n, "written outside"] for n in inp.spill]
        if what == "C++":
            got = inp.call(impl, None, at_end)
            return [[n, "written outside"] for n in inp.spill]
        want = inp.call(ref, np.float64, at_end)
        got = inp.call(impl, None, at_end)
        tol = 1e-6 if T == "d" else 2e-3
        out = []
        for n in want:
            d = differ(got[n].astype(np.float64), want[n].astype(np.float64), tol)
            for i in d[:3]:
                out.append([n, int(i), repr(float(got[n][i])), repr(float(want[n][i]))])
        if rev is not None and not out:
            alt = inp.call(rev)
            for n in got:
                d = differ(got[n].astype(np.float64), alt[n].astype(np.float64), tol)
                for i in d[:3]:
                    out.append([n, int(i), repr(float(got[n][i])), repr(float(alt[n][i])), "order of iterations"])
        return out

    for s in range(seeds):
        for what in (("C++", "reference", "values") if kind in ("bounds", "crash") else ("values",)):
            at_end = s % 2 == 1
            r = child(lambda: once(s, cells if s < 2 else {}, at_end, what))
            if isinstance(r, dict):
                if "signal" in r:
                    return {"crash": r["signal"], "in": what, "seed": s}
                continue
            if r:
                return {"mismatch": r, "in": what, "seed": s, "used_model": s < 2}
    return None
