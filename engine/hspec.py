"""Properties decided on C++ harnesses that use the repository's headers.
A harness entry is executed symbolically; its checks are the property."""
import ctypes
import math
import os
import random
import subprocess
import time
import zlib
from concurrent.futures import ThreadPoolExecutor

import z3

import build
import exec as ex
import kcheck
import realz
import replay
import rexpr as RX
import rt
from driver import Spec
from kcheck import Problem, evalp
from poly import Poly, Sym

S = Poly.sym
REAL = "floating point is treated as exact real arithmetic (rounding, overflow, NaN outside the claim)"


class Case:
    """per-path state of one harness run"""

    def __init__(self, params, eq, stats):
        self.params, self.eq, self.stats = params, eq, stats
        self.ints, self.arrays, self.iarrays, self.reals = [], {}, {}, {}
        self.out = []


CUR = None


def install(P):
    H = P.handlers

    def newint(lo, hi, ub=None):
        c = CUR
        n = len(c.ints)
        key = (n, lo, hi, ub)
        s = c.symtab.get(key)
        if s is None:
            s = Sym(f"x{n}", lo, hi)
            if ub is not None:
                s.ub.append(ub)
            c.symtab[key] = s
        v = S(s) if lo != hi else lo
        if v.__class__ is Poly:
            rt.X.zs(s.idx)
        c.ints.append(v)
        return v

    def vp_int(lo, hi):
        if lo > hi:
            raise rt.Infeasible()
        return newint(lo, hi)

    def vp_below(n):
        if n.__class__ is int:
            if n <= 0:
                raise rt.Infeasible()
            return newint(0, n - 1)
        n = rt.norm_s(n, 32)
        if not rt.ge0(n - 1):
            raise rt.Infeasible()
        return newint(0, max(0, n.interval()[1] - 1), n - 1)

    def vp_array(i, n):
        c = CUR
        o = rt.Obj(f"a{i}", "arg", esz=8)
        o.extent = rt.norm_s(n, 64) if n.__class__ is not int else n
        c.arrays[i] = o
        return rt.Ptr(o, 0)

    def vp_iarray(i, n, lo, hi):
        c = CUR
        q = rt.alloca(4 * n, f"i{i}")
        vals = []
        for k in range(n):
            key = ("ia", i, k, lo, hi)
            s = c.symtab.get(key)
            if s is None:
                s = c.symtab[key] = Sym(f"i{i}_{k}", lo, hi)
            rt.X.zs(s.idx)
            vals.append(S(s))
            rt.store(rt.Ptr(q.obj, 4 * k), S(s), 4)
        q.obj.ro = True
        c.iarrays[i] = vals
        return q

    def vp_real(i):
        return RX.sym(f"r{i}", 0)

    def vp_check(cond, line):
        c = CUR
        c.stats["asserts"] = c.stats.get("asserts", 0) + 1
        if cond.__class__ is not int:
            cond = 0 if rt.eq0(rt.norm_s(cond, 32)) else 1
        if not cond:
            r = rt.X.check()
            if r == z3.unsat:
                raise rt.Infeasible()
            if r == z3.unknown:
                c.out.append(Problem(kind="unknown", what=f"check at line {line} undecided"))
                raise Stop()
            c.out.append(Problem(kind="assert", line=line, what=f"check at line {line} fails", ints=kcheck.intmodel(rt.X), env={}))
            raise Stop()

    def vp_same(a, b, line):
        c = CUR
        c.stats["asserts"] = c.stats.get("asserts", 0) + 1
        a, b = rt.fp(a), rt.fp(b)
        if a is b:
            return
        r = c.eq.check(a, b, rt.X, list(rt.X.rconds))
        if r is None:
            return
        if r != "unknown":
            rc = list(rt.X.rconds)
            u = realz.unify(rt.X, a, b, *[q[1] for q in rc], fork=rt.eq0)
            if u:
                a, b = u[0], u[1]
                r = None if a is b else c.eq.check(a, b, rt.X, [(q[0], d, q[2]) for q, d in zip(rc, u[2:])])
                if r is None:
                    return
        if r != "unknown":
            # retry under what the path forces
            sig = kcheck.sigma(rt.X)
            if sig:
                r = c.eq.check(RX.subst(a, sig, {}), RX.subst(b, sig, {}), rt.X,
                               [(q[0], RX.subst(q[1], sig, {}), q[2]) for q in rt.X.rconds])
                if r is None:
                    return
        if r == "unknown":
            c.out.append(Problem(kind="unknown", what=f"equality at line {line} undecided"))
            return
        c.out.append(Problem(kind="assert", line=line, what=f"values at line {line} differ", got=RX.show(a)[:200], want=RX.show(b)[:200],
                             env=r["env"], ints=kcheck.intmodel(rt.X)))
        raise Stop()

    def vp_init(p):
        off = p.off
        return RX.sym(p.obj.name, off)

    def vp_cell(p, line):
        vp_same(rt.load(p, 8, "f"), vp_init(p), line)

    def vp_assume(cond):
        if cond.__class__ is not int:
            cond = 0 if rt.eq0(rt.norm_s(cond, 32)) else 1
        if not cond:
            raise rt.Infeasible()

    H.update(vp_param=lambda k: CUR.params[k], vp_int=vp_int, vp_below=vp_below, vp_array=vp_array, vp_iarray=vp_iarray,
             vp_real=vp_real, vp_check=vp_check, vp_same=vp_same, vp_cell=vp_cell, vp_init=vp_init, vp_assume=vp_assume)


class Stop(Exception):
    pass


class HarnessSpec(Spec):
    """entries: [(file, entry function, [parameter tuples] or tier -> list)]"""

    def __init__(self, entries, bounds="", mode="serial", assumptions=(), maxpaths=600):
        self.entries = entries
        self.bounds = bounds
        self.mode = mode
        self.assumptions = [REAL, *assumptions]
        self.eq = None
        self.maxpaths = maxpaths
        self.notes0 = []

    def prepare(self, tier):
        files = sorted({e[0] for e in self.entries})
        src = {f: f"{build.VERIF}/harness/{f}" for f in files}
        c, _ = build.build_all([(src[f], "h_" + f.replace(".", "_")) for f in files])
        self.P = {}
        for f in files:
            P = ex.Program([c[(src[f], "h_" + f.replace(".", "_"))]])
            install(P)
            self.P[f] = P

    def jobs(self, tier):
        out = []
        for f, e, ps, *m in self.entries:
            for p in (ps(tier) if callable(ps) else ps):
                for mode in (m[0] if m else (self.mode,)):
                    out.append((f, e, tuple(p), mode))
        out.sort(key=lambda j: zlib.crc32(repr(j).encode()))
        return out

    def run(self, job, maxpaths=None):
        global CUR
        f, entry, params, *mode = job
        mode = mode[0] if mode else self.mode
        if self.eq is None:
            self.eq = realz.EqChecker()
        e0 = dict(self.eq.stats)
        t0 = time.time()
        P = self.P[f]
        stats = {"paths": 0}
        problems, notes = [], []
        symtab = {}

        snap = getattr(self, "snap", None)

        def run(ctx):
            global CUR
            c = CUR = Case(params, self.eq, stats)
            c.symtab = symtab
            ctx.omp_mode = mode
            try:
                P.call(entry)
            except Stop:
                pass
            except rt.Violation as e:
                if ctx.check() == z3.sat:
                    c.out.append(Problem(kind="crash", line=0, what=str(e), ints=kcheck.intmodel(ctx), env={}))
            else:
                for o in c.arrays.values():
                    stats["bounds"] = stats.get("bounds", 0) + kcheck.check_bounds(ctx, o, None, entry, c.out)
                if mode == "each":
                    for i, r in enumerate(ctx.regions):
                        kcheck.conflicts(ctx, r, c.out, stats, f"parallel loop {i}")
            if snap is not None:
                snap(ctx, c)
            for p in c.out:
                self.concretise(p, c)
            return c.out

        try:
            for ctx, r in ex.explore(run, max_paths=maxpaths or self.maxpaths, deadline=time.time() + 100):
                stats["paths"] += 1
                for q in ("queries", "solver_s", "steps", "unknown"):
                    stats[q] = stats.get(q, 0) + ctx.stats[q]
                for p in r or ():
                    if p["kind"] == "unknown":
                        notes.append(p["what"])
                    else:
                        problems.append(p)
                if len(problems) > 3:
                    break
        except rt.Unsupported as e:
            notes.append(f"{entry}{params}: unsupported: {e}")
        if stats.get("asserts", 0) == 0 and not notes:
            notes.append(f"{entry}{params}: no check reached")
        for p in problems:
            p["file"], p["entry"], p["params"], p["mode"] = f, entry, list(params), mode
            p["kernel"], p["case"] = entry, {"flags": {}}
        for q, x in self.eq.stats.items():
            stats[q] = x - e0[q]
        stats["t"] = time.time() - t0
        return {"stats": stats, "problems": problems, "notes": notes, "functions": {x for x in P.used if not x.startswith("llvm.")}}

    def concretise(self, p, c):
        ints = p.pop("ints", None) or {}
        p["in"] = [evalp(x, ints) for x in c.ints]
        p["ext"] = {i: evalp(o.extent, ints) for i, o in c.arrays.items()}
        p["iarr"] = {i: [evalp(x, ints) for x in v] for i, v in c.iarrays.items()}
        cells, reals = {}, {}
        for node, x in (p.pop("env", None) or {}).items():
            if node.b is None:
                continue
            if node.a[0] == "r":
                reals[int(node.a[1:])] = x
            elif node.a[0] == "a":
                cells.setdefault(int(node.a[1:]), {})[evalp(node.b, ints) // 8] = x
        p["cells"], p["reals"] = cells, reals
        if "off" in p:
            p["at"] = evalp(p.pop("off"), ints)

    def key(self, p):
        return f"{p['entry']}{tuple(p['params'])[:self.keyn(p)]}/{p['kind']}/{p.get('line', '')}"

    def keyn(self, p):
        return 1

    def matches(self, f, p):
        return f.get("entry") == p["entry"] and f.get("kind") == p["kind"] and (
            "params" not in f or p["params"] in f["params"])

    def sample(self, job):
        return f"{job[1]} parameters {job[2]} ({job[3]}), everything else symbolic"

    # ------------------- points of symbolic paths on the compiled harness
    def validate(self, jobs, seed):
        rnd = random.Random(seed)
        per = {}
        for j in jobs:
            per.setdefault(j[1], []).append(j)
        q = max(1, 60 // max(1, len(per)))
        pick = [(j, rnd.random()) for e in per for j in rnd.sample(per[e], min(q, len(per[e])))]
        with ThreadPoolExecutor(8) as ex_:
            list(ex_.map(lambda fe: native(*fe), {j[0]: (j[0], j[1]) for j, _ in pick}.values()))
        return pick

    def validate_one(self, arg):
        job, seed = arg
        rnd = random.Random(seed)
        got = []

        def snap(ctx, c):
            if len(got) >= 2 or c.out:
                return
            ints = kcheck.randmodel(ctx, rnd)
            if ints is None:
                return
            p = Problem(ints=ints, kind="", env={})
            self.concretise(p, c)
            p["params"] = list(job[2])
            got.append(p)

        self.snap = snap
        try:
            self.run(job, maxpaths=6)
        finally:
            self.snap = None
        lib, fn = native(job[0], job[1])
        ok, bad = 0, []
        for p in got:
            def once():
                feed(lib, p, rnd, False, False)
                lib.vpn_run(fn)
                return [ctypes.c_int.in_dll(lib, "vpn_nfail").value, ctypes.c_int.in_dll(lib, "vpn_skip").value]
            r = replay.child(once, 60)
            if r == [0, 0]:
                ok += 1
            elif r != [0, 1]:
                bad.append(f"{job[1]}{job[2]} at {p['in']}: {r}"[:300])
        return ok, bad, [f"{job[1]}{job[2]} run natively at {p['in']}: all checks hold"[:300] for p in got[:1] if ok]

    # ---------------------------------------------------------- replay
    def replay(self, p):
        r = None
        if p["kind"] != "race":
            r = self.replay1(p, "")
        if r is None and p["mode"] == "each":
            r = self.replay1(p, "_rev")
        return r

    def replay1(self, p, flavour):
        lib, fn = native(p["file"], p["entry"], flavour)

        def once(seed, use, at_end):
            rnd = random.Random(seed)
            feed(lib, p, rnd, use, at_end)
            lib.vpn_run(fn)
            nf = ctypes.c_int.in_dll(lib, "vpn_nfail").value
            if not nf and ctypes.c_int.in_dll(lib, "vpn_skip").value:
                return {"skip": 1}
            ln = (ctypes.c_int * 64).in_dll(lib, "vpn_lines")
            a = (ctypes.c_double * 64).in_dll(lib, "vpn_a")
            b = (ctypes.c_double * 64).in_dll(lib, "vpn_b")
            return [[ln[i], repr(a[i]), repr(b[i])] for i in range(min(nf, 3))]

        for s in range(6):
            r = replay.child(lambda: once(s, s < 2, s % 2 == 1), 60)
            if isinstance(r, dict):
                if "signal" in r:
                    return {"crash": r["signal"], "harness": p["entry"], "inputs": p["in"], "seed": s}
                continue
            if r:
                return {"failed checks [line, got, want]": r, "harness": p["entry"], "inputs": p["in"], "params": p["params"], "seed": s}
        return None


_native = {}


def native(f, entry, flavour=""):
    key = (f, flavour)
    if key not in _native:
        d = build.scratch()
        o = f"{d}/native_{f}{flavour}.o"
        so = f"{d}/native_{f}{flavour}.so"
        n = f"{d}/vpn_{f}{flavour}.o"
        inc = [f"-I{build.VERIF}/harness", f"-I{build.REPO}/src", f"-I{build.REPO}/src/cuda"]
        defs = ["-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP", "-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP", "-DNDEBUG", "-std=c++17", "-fPIC", "-w"]
        build.run([build.CC, "-O1", "-fPIC", "-c", f"{build.VERIF}/stubs/vp_native.c", "-o", n])
        if flavour:
            r = f"{d}/rt_{f}.o"
            build.run([build.CXX, "-O1", "-fopenmp", f"-I{build.VERIF}/stubs", *defs, *inc, "-c", f"{build.VERIF}/harness/{f}", "-o", o])
            build.run([build.CC, "-O1", "-fPIC", "-c", f"{build.VERIF}/stubs/revomp.c", "-o", r])
            build.run([build.CXX, "-shared", o, n, r, "-o", so])
        else:
            build.run(["g++", "-O1", "-fopenmp", *defs, *inc, "-c", f"{build.VERIF}/harness/{f}", "-o", o])
            build.run(["g++", "-shared", "-fopenmp", o, n, "-o", so, "-lm"])
        _native[key] = ctypes.CDLL(so)
    lib = _native[key]
    return lib, getattr(lib, entry)


def feed(lib, p, rnd, use_model, at_end):
    P = (ctypes.c_int * 64).in_dll(lib, "vpn_params")
    for i, x in enumerate(p["params"]):
        P[i] = x
    I = (ctypes.c_int * 4096).in_dll(lib, "vpn_ints")
    for i, x in enumerate(p["in"]):
        I[i] = x
    ctypes.c_int.in_dll(lib, "vpn_nints").value = len(p["in"])
    arr = (ctypes.c_void_p * 64).in_dll(lib, "vpn_arr")
    ini = (ctypes.c_void_p * 64).in_dll(lib, "vpn_init")
    ln = (ctypes.c_long * 64).in_dll(lib, "vpn_len")
    keep = lib.__dict__.setdefault("_keep", [])
    for i, n in p["ext"].items():
        i, n = int(i), int(n)
        a, _ = replay.walled(n, "f8", at_end)
        for k in range(n):
            a[k] = rnd.uniform(0.5, 1.5)
        if use_model:
            for k, x in p["cells"].get(i, {}).items():
                if 0 <= int(k) < n and math.isfinite(x) and abs(x) < 1e12:
                    a[int(k)] = x
        b = a.copy()
        keep += [a, b]
        arr[i], ini[i], ln[i] = a.ctypes.data, b.ctypes.data, n
    ia = (ctypes.c_void_p * 64).in_dll(lib, "vpn_iarr")
    for i, v in p["iarr"].items():
        c = (ctypes.c_int * max(1, len(v)))(*v)
        keep.append(c)
        ia[int(i)] = ctypes.addressof(c)
    R_ = (ctypes.c_double * 64).in_dll(lib, "vpn_reals")
    for i in range(64):
        R_[i] = p["reals"].get(i, rnd.uniform(0.5, 1.5)) if use_model else rnd.uniform(0.5, 1.5)
