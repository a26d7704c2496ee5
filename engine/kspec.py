"""Properties decided on the kernels that have a Fortran reference."""
import random
import zlib
from concurrent.futures import ThreadPoolExecutor

import numpy as np

import build
import cases
import exec as ex
import kcheck
import kernels
import realz
import replay
import rexpr as RX
import rt
from driver import Spec

REAL = "floating point is treated as exact real arithmetic (rounding, overflow, NaN outside the claim)"
CONTRACT = "arrays passed to a kernel do not alias and have the extents the Fortran reference declares for them"


class KernelSpec(Spec):
    def __init__(self, groups, modes, T="d", filt=None, bounds="", split=None):
        self.groups, self.modes, self.T, self.filt = groups, modes, T, filt
        self.bounds = bounds
        self.assumptions = [REAL, CONTRACT]
        self.eq = None

    def prepare(self, tier):
        self.K = {k.id: k for k in kernels.table() if k.group in self.groups and (self.filt is None or self.filt(k))}
        src = lambda k: f"{build.REPO}/src/cuda/{k.cfile}"
        c, f = build.build_all({src(k) for k in self.K.values()}, {k.m4 for k in self.K.values()})
        cp = {s: ex.Program([b]) for s, b in c.items()}
        self.P = {k.id: cp[src(k)] for k in self.K.values()}
        fp = {}
        for m, b in f.items():
            fp[m] = ex.Program([b[0]])
            fp[m].handlers["__vp_extent"] = lambda p, n: setattr(p.obj, "extent", n)
        self.F = {k.id: fp[k.m4] for k in self.K.values()}
        for k in self.K.values():
            P, T = self.P[k.id], self.T
            P.warm(n for n in P.find(k.cmangled(T)) if n.startswith("_ZN"))
            self.F[k.id].warm([k.fname + "_"])

    def jobs(self, tier):
        out = []
        for k in self.K.values():
            for c in cases.cases(k, tier):
                if self.T != "d":
                    c = dict(c, T=self.T)
                for m in self.modes:
                    if m == "safe" and k.group == "c2f":
                        o = c["out"]
                        for g in sorted({o, o + 1, 4}):
                            out.append((k.id, dict(c, fixed_boxes=g, gw={"gcw": (g, g)}), m))
                        continue
                    out.append((k.id, c, m))
        # cheap and varied first
        out.sort(key=lambda j: zlib.crc32(repr(j).encode()))
        return out

    def run(self, job):
        kid, case, mode = job
        if self.eq is None:
            self.eq = realz.EqChecker()
        k = self.K[kid]
        e0 = dict(self.eq.stats)
        r = kcheck.run_case(k, case, self.P[kid], self.F[kid], mode, self.eq)
        for q, x in self.eq.stats.items():
            r["stats"][q] = x - e0[q]
        r["functions"] = ex_functions(self.P[kid]) | ex_functions(self.F[kid])
        for p in r["problems"]:
            p["mode"] = mode
        return r

    def key(self, p):
        fl = p["case"].get("flags", {})
        return f"{p['kernel']}/{p['kind']}/{p.get('obj')}/{','.join(f'{a}={b}' for a, b in fl.items())}/{p['case'].get('gw')}"

    def matches(self, f, p):
        fl = p["case"].get("flags", {})
        return f["kernel"] == p["kernel"] and f["kind"] == p["kind"] and all(fl.get(a) in b for a, b in f.get("flags", {}).items()) and all(
            list(p["case"].get("gw", {}).get(a, ())) == b for a, b in f.get("gw", {}).items())

    def replay(self, p):
        k = self.K[p["kernel"]]
        return replay.kernel_replay(k, p["vals"], p["ext"], p["cells"], p["kind"], p["case"].get("T", "d"))

    # --------------------------------- encoding against the compiled code
    def validate(self, jobs, seed):
        """random points of random paths: the encoding's final memory, evaluated, against the compiled kernel's"""
        rnd = random.Random(seed)
        per = {}
        for j in jobs:
            per.setdefault(j[0], []).append(j)
        pick = [(j, rnd.random()) for kid in per for j in rnd.sample(per[kid], min(3, len(per[kid])))]
        with ThreadPoolExecutor(8) as ex_:
            list(ex_.map(lambda c: replay.so_cxx(c), sorted({self.K[j[0]].cfile for j, _ in pick})))
        return pick

    def validate_one(self, arg):
        (kid, case, mode), seed = arg
        rnd = random.Random(seed)
        k, T = self.K[kid], case.get("T", "d")
        got = []

        def snap(ctx, v, exts, objs):
            if len(got) >= 2:
                return
            ints = kcheck.randmodel(ctx, rnd)
            if ints is None:
                return
            ext = {n: kcheck.evalp(e, ints) for n, e in exts.items() if e is not None}
            inp = replay.Inputs(k, kcheck.evalvals(v, ints), ext, {}, rnd.random(), T)
            env = lambda n: float(inp.arr[n.a][kcheck.evalp(n.b, ints) // 8])
            memo, want = {}, {n: [float(x) for x in a] for n, a in inp.arr.items()}
            for p, d, r in ctx.rconds:
                if COND[p](RX.evaluate(d, env, ints, memo)) != bool(r):
                    return
            for n, o in objs.items():
                for (g, c), x in kcheck.flat(o).items():
                    i = kcheck.evalp(g + c, ints) // o.esz
                    want[n][i] = float(RX.evaluate(x, env, ints, memo)) if x.__class__ is RX.R else float(x)
            got.append((inp, want))

        try:
            kcheck.run_case(k, case, self.P[kid], self.F[kid], "eq", self.eq or realz.EqChecker(), snap=snap, maxpaths=12, deadline=20)
        except (rt.Unsupported, IndexError):     # a listed out-of-range access has no value
            pass
        fn = replay.kernel_fn(k, T)
        ok, bad = 0, []
        for inp, want in got:
            def once():
                r = inp.call(fn)
                return [[n, int(i), float(r[n][i]), want[n][i]] for n in want
                        for i in replay.differ(r[n].astype(float), np.array(want[n]), 1e-6 if T == "d" else 2e-3)[:2]]
            r = replay.child(once)
            if r == []:
                ok += 1
            else:
                bad.append(f"{kid} {case}: {r}"[:300])
        return ok, bad, [f"encoding of {kid} evaluated at {i.vals} agrees with the compiled kernel"[:300] for i, _ in got[:1] if ok]

    def sample(self, job):
        kid, case, mode = job
        return f"{kid} [{mode}] extents {case.get('n', case.get('len'))} flags {case['flags']}, everything else symbolic"


COND = {"eq": lambda x: x == 0, "ne": lambda x: x != 0, "lt": lambda x: x < 0, "le": lambda x: x <= 0, "gt": lambda x: x > 0, "ge": lambda x: x >= 0}


def ex_functions(P):
    return {f for f in P.used if not f.startswith("llvm.")}
