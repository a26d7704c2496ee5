"""Properties decided on scenarios: a Python function states inputs, calls
routines of the code under test (Fortran or C++) and says what must come out.
The same function runs symbolically (deciding) and on the compiled code
(replaying counterexamples, validating the encoding)."""
import ctypes
import math
import random
import time
import zlib
from fractions import Fraction
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import z3

import build
import exec as ex
import kcheck
import kernels
import realz
import replay
import rexpr as RX
import rt
from driver import Spec
from kcheck import Problem, evalp
from poly import Poly, Sym

REAL = "floating point is treated as exact real arithmetic (rounding, overflow, NaN outside the claim)"
CONTRACT = "arrays passed to a routine do not alias"


def _lift(x):
    return x if x.__class__ is RX.R else RX.const(x)


RX.R.__add__ = lambda a, b: RX.add(a, _lift(b))
RX.R.__radd__ = lambda a, b: RX.add(_lift(b), a)
RX.R.__sub__ = lambda a, b: RX.sub(a, _lift(b))
RX.R.__rsub__ = lambda a, b: RX.sub(_lift(b), a)
RX.R.__mul__ = lambda a, b: RX.mul(a, _lift(b))
RX.R.__rmul__ = lambda a, b: RX.mul(_lift(b), a)
RX.R.__truediv__ = lambda a, b: RX.div(a, _lift(b))
RX.R.__rtruediv__ = lambda a, b: RX.div(_lift(b), a)
RX.R.__neg__ = lambda a: RX.neg(a)


class Arr:
    """array with inclusive index ranges, first index fastest"""

    def __init__(self, S, name, dims):
        self.S, self.name, self.dims = S, name, dims
        st, s = [], 1
        for lo, hi in dims:
            st.append(s)
            s = s * (hi - lo + 1)
        self.strides, self.size = st, s

    def lin(self, c):
        p = 0
        for x, (lo, hi), s in zip(c, self.dims, self.strides):
            p = p + (x - lo) * s
        return p

    def old(self, *c):
        return self.S.old(self, self.lin(c))

    def new(self, *c):
        return self.S.new(self, self.lin(c))


class Scal:
    def __init__(self, name, v):
        self.name, self.v = name, v


class Failed(Exception):
    pass


class SymRun:
    symbolic = True

    def __init__(self, spec, ctx, symtab, stats, out):
        self.spec, self.ctx, self.symtab, self.stats, self.out = spec, ctx, symtab, stats, out
        self.arrays, self.ints, self.scal, self.objs = {}, {}, {}, {}

    def int(self, name, lo, hi):
        if lo == hi:
            self.ints[name] = lo
            return lo
        s = self.symtab.get((name, lo, hi))
        if s is None:
            s = self.symtab[name, lo, hi] = Sym(name, lo, hi)
        v = Poly.sym(s)
        self.ctx.zs(s.idx)
        self.ints[name] = v
        return v

    def pick(self, name, lo, hi):
        """an integer whose value splits the path"""
        v = self.int(name, lo, hi)
        return v if v.__class__ is int else rt.concretize(v)

    def arr(self, name, *dims):
        a = Arr(self, name, dims)
        o = rt.Obj(name, "arg", esz=8)
        o.extent = a.size
        self.arrays[name], self.objs[name] = a, o
        return a

    def real(self, name):
        o = rt.Obj(name, "arg", esz=8, ro=True)
        o.extent = 1
        self.objs[name] = o
        s = self.scal[name] = Scal(name, RX.sym(name, 0))
        return s

    def num(self, name, value):
        """real argument of a given value"""
        o = rt.Obj(name, "arg", esz=8)
        o.extent = 1
        self.objs[name] = o
        rt.arg_store(o, 0, 8, _lift(value))
        s = self.scal[name] = Scal(name, value)
        return s

    def zero(self, p):
        """the path condition says p == 0 (splits the path)"""
        return rt.eq0(p)

    def require(self, p):
        """only inputs with p >= 0"""
        if p.__class__ is int:
            if p < 0:
                raise rt.Infeasible()
        else:
            self.ctx.assume(self.ctx.z(p) >= 0)

    def nonzero(self, x):
        """only inputs whose value x is not zero"""
        if x.__class__ is RX.R:
            self.ctx.rconds.append(("ne", x, True))
        elif x == 0:
            raise rt.Infeasible()

    def old(self, a, i):
        return self.objs[a.name].init.get(i * 8) or RX.sym(a.name, i * 8)

    def new(self, a, i):
        return rt.load(rt.Ptr(self.objs[a.name], i * 8), 8, "f")

    def put(self, a, c, v):
        """give a cell a value of the scenario's choosing before a call"""
        rt.arg_store(self.objs[a.name], a.lin(c) * 8, 8, _lift(v))

    def image(self, a, c, src, q, sign=1):
        """cell c of a starts out with the initial value of cell q of src"""
        v = src.old(*q)
        self.objs[a.name].init[a.lin(c) * 8] = RX.neg(v) if sign < 0 else v

    def args(self, args):
        l = []
        for x in args:
            if x.__class__ in (Arr, Scal):
                l.append(rt.Ptr(self.objs[x.name], 0))
            elif isinstance(x, (list, tuple)):
                q = rt.alloca(4 * len(x), "ia")
                for i, v in enumerate(x):
                    rt.store(rt.Ptr(q.obj, 4 * i), v, 4)
                q.obj.ro = True
                l.append(q)
            else:
                q = rt.alloca(4, "i")
                rt.store(q, x, 4)
                q.obj.ro = True
                l.append(q)
        return l

    def _call(self, P, name, args):
        ext = {n: o.extent for n, o in self.objs.items()}
        P.call(name, *self.args(args))
        for n, e in ext.items():
            self.objs[n].extent = e

    def f(self, m4, name, *args):
        self._call(self.spec.F[m4], name + "_", args)

    def kernel(self, kid, impl, *args):
        k = self.spec.K[kid]
        if impl == "f":
            return self.f(k.m4, k.fname, *args)
        P = self.spec.P[k.cfile]
        cn = [n for n in P.find(k.cmangled("d")) if n.startswith("_ZN" + k.cmangled("d")) and "." not in n]
        if len(cn) != 1:
            raise rt.Unsupported(f"kernel {kid} not found")
        self._call(P, cn[0], args)

    def same(self, a, b, what):
        self.stats["asserts"] = self.stats.get("asserts", 0) + 1
        self.compare(what, 0, _lift(a), _lift(b))

    def near_const(self, v, c, what):
        """v is a constant within a millionth of c"""
        self.stats["asserts"] = self.stats.get("asserts", 0) + 1
        if v.op != "c" or abs(v.a - c) > Fraction(1, 10 ** 6):
            self.out.append(Problem(kind="diff", obj=what, what=f"{what} is {RX.show(v)[:100]} instead of {c}", ints=kcheck.intmodel(self.ctx)))

    def compare(self, name, q, v, w, only=None):
        kcheck.one(self.ctx, self.spec.eq, name, (0, q) if q.__class__ is int else (q.nonconst(), q.const()), v, w,
                   list(self.ctx.rconds), self.out, self.stats, only=only)

    def final(self, a, want, ignore=()):
        """cells of array a after the calls: the listed ones have the given values, all others their initial one"""
        self.stats["asserts"] = self.stats.get("asserts", 0) + 1
        W = kcheck.flat(self.objs[a.name])
        for c, v in want.items():
            i = a.lin(c) * 8
            k = kcheck.split(i)
            got = W.pop(k, None)
            if got is None:
                for k2 in list(W):
                    if k2[0] != k[0] and rt.eq0(i - k2[0] - k2[1]):
                        got = W.pop(k2)
                        break
            if got is None:
                got = self.old(a, a.lin(c))
            if v is not None:
                self.compare(a.name, i, got, _lift(v))
        for k, v in W.items():
            i = k[0] + k[1]
            if any(rt.eq0(i - a.lin(c) * 8) for c in ignore):
                continue
            self.compare(a.name, i, v, self.objs[a.name].init.get(i) or RX.sym(a.name, i), only="the routine")

    def unchanged(self, *arrs):
        for a in arrs:
            if a.__class__ is Arr:
                self.final(a, {})

    def finish(self):
        n = 0
        for a in self.arrays.values():
            n += kcheck.check_bounds(self.ctx, self.objs[a.name], None, "routine", self.out)
        self.stats["bounds"] = self.stats.get("bounds", 0) + n

    def concretise(self, p):
        ints = p.pop("ints", None) or {}
        p["ints"] = {n: evalp(v, ints) for n, v in self.ints.items()}
        cells = {}
        for node, x in (p.pop("env", None) or {}).items():
            if node.b is not None:
                cells.setdefault(node.a, {})[evalp(node.b, ints) // 8] = x
        p["cells"] = cells
        if "off" in p:
            p["at"] = evalp(p.pop("off"), ints) // 8


class NatRun:
    symbolic = False

    def __init__(self, spec, ints, cells, seed, at_end=False):
        self.spec, self.iv, self.cells, self.at_end = spec, ints, cells, at_end
        self.rnd = random.Random(seed)
        self.data, self.slack, self.init, self.bad = {}, {}, {}, []
        self.arrays = {}

    def int(self, name, lo, hi):
        return self.iv[name] if name in self.iv else lo

    pick = int

    def value(self, name, i):
        x = self.cells.get(name, {}).get(i)
        if x is not None and math.isfinite(x) and abs(x) < 1e12:
            return x
        return self.rnd.uniform(0.5, 1.5)

    def alloc(self, name, n):
        n = max(0, n)
        v, s = replay.walled(n, np.float64, self.at_end)
        v[:] = [self.value(name, i) for i in range(n)]
        self.data[name], self.slack[name], self.init[name] = v, s, v.copy()

    def arr(self, name, *dims):
        a = Arr(self, name, dims)
        self.alloc(name, a.size)
        self.arrays[name] = a
        return a

    def real(self, name):
        self.alloc(name, 1)
        return Scal(name, float(self.data[name][0]))

    def num(self, name, value):
        self.alloc(name, 1)
        self.data[name][0] = self.init[name][0] = float(value)
        return Scal(name, value)

    def zero(self, p):
        return p == 0

    def require(self, p):
        if p < 0:
            raise rt.Infeasible()

    def nonzero(self, x):
        if x == 0:
            raise rt.Infeasible()

    def old(self, a, i):
        return float(self.init[a.name][i])

    def image(self, a, c, src, q, sign=1):
        v = sign * float(self.init[src.name][src.lin(q)])
        self.data[a.name][a.lin(c)] = self.init[a.name][a.lin(c)] = v

    def new(self, a, i):
        return float(self.data[a.name][i])

    def put(self, a, c, v):
        self.data[a.name][a.lin(c)] = float(v)

    def _call(self, fn, args):
        keep, l = [], []
        for x in args:
            if x.__class__ in (Arr, Scal):
                l.append(ctypes.c_void_p(self.data[x.name].ctypes.data))
                continue
            c = (ctypes.c_int * len(x))(*x) if isinstance(x, (list, tuple)) else ctypes.c_int(x)
            keep.append(c)
            l.append(ctypes.cast(c if isinstance(x, (list, tuple)) else ctypes.pointer(c), ctypes.c_void_p))
        fn.restype = None
        fn(*l)
        for n, v in self.data.items():
            if np.count_nonzero(~np.isnan(self.slack[n])) != np.count_nonzero(~np.isnan(v)):
                self.bad.append([n, "written outside"])

    def f(self, m4, name, *args):
        self._call(getattr(replay.so_fortran(m4), name + "_"), args)

    def kernel(self, kid, impl, *args):
        k = self.spec.K[kid]
        if impl == "f":
            return self.f(k.m4, k.fname, *args)
        self._call(replay.kernel_fn(k), args)

    def near(self, a, b):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))

    def same(self, a, b, what):
        if not self.near(float(a), float(b)):
            self.bad.append([what, float(a), float(b)])

    def near_const(self, v, c, what):
        if abs(v - float(c)) > 1e-6:
            self.bad.append([what, v])

    def final(self, a, want, ignore=()):
        skip = {a.lin(c) for c in ignore}
        w = {a.lin(c): v for c, v in want.items()}
        for i, x in enumerate(self.data[a.name]):
            if i in skip or (i in w and w[i] is None):
                continue
            y = float(w[i]) if i in w else float(self.init[a.name][i])
            if not self.near(float(x), y):
                self.bad.append([a.name, i, float(x), y])
                if len(self.bad) > 3:
                    return

    def unchanged(self, *arrs):
        for a in arrs:
            if a.__class__ is Arr:
                self.final(a, {})


class ScenSpec(Spec):
    """scenarios: [(function, params tuples or tier -> list)]; m4 / kids: what to build"""

    def __init__(self, scenarios, m4=(), kids=(), impls="f", bounds="", assumptions=()):
        self.scen = {f.__name__: f for f, *_ in scenarios}
        self.scenarios, self.m4, self.kids, self.impls = scenarios, set(m4), kids, impls
        self.bounds = bounds
        self.assumptions = [REAL, CONTRACT, *assumptions]
        self.eq = None

    def prepare(self, tier):
        self.K = {k.id: k for k in kernels.table()}
        cf = {self.K[k].cfile for k in self.kids} if "c" in self.impls else set()
        m4 = self.m4 | ({self.K[k].m4 for k in self.kids} if "f" in self.impls else set())
        src = lambda c: f"{build.REPO}/src/cuda/{c}"
        c, f = build.build_all({src(x) for x in cf}, m4)
        self.P = {x: ex.Program([c[src(x)]]) for x in cf}
        self.F, self.bad = {}, {}
        for m, b in f.items():
            self.F[m] = ex.Program([b[0]])
            self.F[m].handlers["__vp_extent"] = lambda p, n: None
            self.bad.update(b[2])

    def jobs(self, tier):
        out = []
        for f, ps in self.scenarios:
            for p in (ps(tier) if callable(ps) else ps):
                out.append((f.__name__, tuple(p)))
        out.sort(key=lambda j: zlib.crc32(repr(j).encode()))
        return out

    def run(self, job, snap=None, maxpaths=400, deadline=100):
        name, params = job
        if self.eq is None:
            self.eq = realz.EqChecker()
        e0 = dict(self.eq.stats)
        t0 = time.time()
        stats, problems, notes, symtab = {"paths": 0}, [], [], {}

        def run(ctx):
            out = []
            S = SymRun(self, ctx, symtab, stats, out)
            try:
                self.scen[name](S, *params)
                S.finish()
            except rt.Violation as e:
                if ctx.check() == z3.sat:
                    out.append(Problem(kind="crash", what=str(e), ints=kcheck.intmodel(ctx)))
            if snap is not None:
                snap(ctx, S)
            for p in out:
                S.concretise(p)
            return out

        try:
            for ctx, r in ex.explore(run, max_paths=maxpaths, deadline=time.time() + deadline):
                stats["paths"] += 1
                for q in ("queries", "solver_s", "steps", "unknown"):
                    stats[q] = stats.get(q, 0) + ctx.stats[q]
                for p in r or ():
                    if p["kind"] == "unknown":
                        notes.append(f"{name}{params}: {p['what']}")
                    else:
                        problems.append(p)
                if len(problems) > 3:
                    break
        except rt.Unsupported as e:
            notes.append(f"{name}{params}: unsupported: {e}")
        if not notes and stats.get("cells", 0) + stats.get("asserts", 0) == 0:
            notes.append(f"{name}{params}: nothing checked")
        for p in problems:
            p["scenario"], p["params"], p["kernel"], p["case"] = name, list(params), name, {"flags": {}}
        for q, x in self.eq.stats.items():
            stats[q] = x - e0[q]
        stats["t"] = time.time() - t0
        fn = set()
        for P in (*self.F.values(), *self.P.values()):
            fn |= {x for x in P.used if not x.startswith("llvm.")}
        return {"stats": stats, "problems": problems, "notes": notes, "functions": fn}

    def key(self, p):
        return f"{p['scenario']}{tuple(p['params'])[:2]}/{p['kind']}/{p.get('obj')}"

    def matches(self, f, p):
        return f.get("scenario") == p["scenario"] and f.get("kind") == p["kind"] and f.get("obj") == p.get("obj") and all(
            p["params"][int(i)] in v for i, v in f.get("params", {}).items())

    def sample(self, job):
        return f"{job[0]} parameters {job[1]}, everything else symbolic"

    def replay(self, p):
        def once(seed, at_end):
            N = NatRun(self, p["ints"], p["cells"] if seed < 2 else {}, seed, at_end)
            self.scen[p["scenario"]](N, *p["params"])
            return N.bad[:4]

        for s in range(6):
            r = replay.child(lambda: once(s, s % 2 == 1))
            if isinstance(r, dict):
                if "signal" in r:
                    return {"crash": r["signal"], "seed": s}
                continue
            if r:
                return {"mismatch": r, "seed": s, "used_model": s < 2}
        return None

    # ------- points of symbolic paths on the compiled code
    def validate(self, jobs, seed):
        rnd = random.Random(seed)
        per = {}
        for j in jobs:
            per.setdefault((j[0], j[1][:2]), []).append(j)
        pick = [(rnd.choice(js), rnd.random()) for js in per.values()]
        rnd.shuffle(pick)
        pick = pick[:120]
        with ThreadPoolExecutor(8) as ex_:
            list(ex_.map(replay.so_fortran, sorted(self.F)))
            list(ex_.map(replay.so_cxx, sorted(self.P)))
        return pick

    def validate_one(self, arg):
        (name, params), seed = arg
        rnd = random.Random(seed)
        got = []

        def snap(ctx, S):
            if len(got) >= 2:
                return
            ints = kcheck.randmodel(ctx, rnd)
            if ints is None:
                return
            got.append((ctx, S, ints, {n: evalp(v, ints) for n, v in S.ints.items()}))

        self.run((name, params), snap=snap, maxpaths=12, deadline=20)
        ok, bad, text = 0, [], []
        for ctx, S, ints, iv in got:
            def once():
                N = NatRun(self, iv, {}, 7)
                self.scen[name](N, *params)
                memo, out = {}, list(N.bad)
                env = lambda n: float(N.init[n.a][evalp(n.b, ints) // 8])
                for p, d, r in ctx.rconds:
                    if COND[p](RX.evaluate(d, env, ints, memo)) != bool(r):
                        return out
                for n, a in S.arrays.items():
                    want = N.init[n].copy()
                    for (g, c), x in kcheck.flat(S.objs[n]).items():
                        want[evalp(g + c, ints) // 8] = float(RX.evaluate(x, env, ints, memo)) if x.__class__ is RX.R else float(x)
                    for i in replay.differ(N.data[n], want, 1e-6)[:2]:
                        out.append([n, int(i), float(N.data[n][i]), float(want[i])])
                return out[:4]
            r = replay.child(once)
            if r == []:
                ok += 1
                text = [f"{name}{params} evaluated at {iv} agrees with the compiled code"[:300]]
            else:
                bad.append(f"{name}{params} at {iv}: {r}"[:300])
        return ok, bad, text


COND = {"eq": lambda x: x == 0, "ne": lambda x: x != 0, "lt": lambda x: x < 0, "le": lambda x: x <= 0, "gt": lambda x: x > 0, "ge": lambda x: x >= 0}
