"""Symbolic execution of one kernel case: C++ kernel against Fortran reference,
memory safety, schedule independence.

A case fixes the extents of the patch box and the flag arguments; every other
input (box position, ghost widths, further boxes, all array contents and real
parameters) is symbolic."""
import time
import zlib

import z3

import exec as ex
import realz
import rexpr as RX
import rt
from kernels import AX
from poly import Poly, Sym

S = Poly.sym
GW = {"ugcw": (0, 12), "agcw": (0, 12), "fgcw": (0, 12), "rgcw": (0, 12), "dgcw": (0, 12), "sgcw": (0, 6), "gcw": (0, 12)}
FLAGS = ("dir", "side", "btype", "exOrder", "intOrder", "face", "type", "axis", "r")
REALS = ("alpha", "beta", "dirf", "neuf")


def sym(name, lo, hi):
    return S(Sym(name, lo, hi)) if lo != hi else lo


def values(k, case):
    """integer value of every integer role (Poly or int), index arrays too"""
    n, fl = case.get("n"), case["flags"]
    d = k.d
    v = dict(fl)
    base = case.get("base")
    B = 100000
    for a in range(d if n else 0):
        x = AX[a]
        b = sym(x + "0", -B, B) if base is None else base[a]
        v[x + "0"], v[x + "1"] = b, b + (n[a] - 1)
        # surrounding boxes: extend the patch box by symbolic margins
        for p in "ab":
            v[p + x + "0"] = b - sym(f"{p}{x}lo", 0, 3)
            v[p + x + "1"] = b + (n[a] - 1) + sym(f"{p}{x}hi", 0, 3)
    g = case.get("gw", {})
    for q in GW:
        if q in k.params:
            lo, hi = g.get(q, GW[q])
            v[q] = sym(q, lo, hi)
    if k.group == "adj":
        dr, side = fl.get("dir", 0), fl["side"]
        for a in range(d):
            x = AX[a]
            m = case["m"][a]
            if a == dr:
                # boundary ghost cell next to an interior cell (side 0: below it)
                inner = v[x + "0"] + (sym(f"q{x}", 0, n[a] - 1))
                lo = inner - 1 + 2 * side
                m = 1
            else:
                lo = v[x + "0"] + sym(f"q{x}", 0, n[a] - m)
            for p in "pc":
                v[p + x + "0"], v[p + x + "1"] = lo, lo + (m - 1)
    if k.group == "bc":
        lo, hi = [], []
        fixed = case["fixed"]            # axes whose segment is one cell thick, with side
        for a in range(d):
            x = AX[a]
            if a in fixed:
                # ghost coordinate or (as the tests do) any position whose inward
                # neighbours exist
                s = sym(f"q{x}", -1, max(-1, n[a] - case["depth"]))
                m = case["m"][a]
                if fixed[a] == 0:
                    p = v[x + "0"] + s
                    lo.append(p)
                    hi.append(p if m == 1 else p + (m - 1))
                else:
                    p = v[x + "1"] - s
                    hi.append(p)
                    lo.append(p if m == 1 else p - (m - 1))
            elif case.get("clip"):           # segment reaching past the patch
                lo.append(v[x + "0"] + case["clip"][0])
                hi.append(v[x + "1"] + case["clip"][1])
            else:
                m = case["m"][a]
                p = v[x + "0"] + sym(f"q{x}", 0, n[a] - m)
                lo.append(p)
                hi.append(p + (m - 1))
        v["#bLo"], v["#bHi"] = lo, hi
    if k.group == "c2f":
        r = case["ratio"]
        v["#ratio"] = list(r)
        gc = v["gcw"]
        o = case.get("out", 0)           # how far the lines reach into the ghost layers
        fixed = case.get("fixed_boxes")  # concrete array boxes (safety: extents multiply addresses)

        def margin(name):
            if fixed is None:
                return sym(name, -o, 5)
            return zlib.crc32(f"{name}{fixed}".encode()) % (o + 6) - o

        for a in range(3):
            x = AX[a]
            c0 = sym(f"cc{x}", -4000, 4000)
            v[f"c{x}0"] = c0
            if a == case["axis"]:
                f0 = c0 * r[a] + case["phase"]
                c1 = c0 + (case["phase"] + case["len"] - 1) // r[a]
                v[f"c{x}1"] = c1
                v[f"f{x}0"], v[f"f{x}1"] = f0, f0 + (case["len"] - 1)
            else:
                v[f"c{x}1"] = c0 + case["cm"]
                f0 = sym(f"ff{x}", -4000, 4000)
                v[f"f{x}0"], v[f"f{x}1"] = f0, f0 + case["fm"]
                c1 = c0
            for q, lo, hi in (("f", f0, v[f"f{x}1"] if a == case["axis"] else f0), ("c", c0, c1)):
                v[f"{q}b{x}0"] = lo - margin(f"{q}{x}lo")
                v[f"{q}b{x}1"] = hi + margin(f"{q}{x}hi")
    return v


class Args:
    def __init__(self, k, v, esz=8, ints_esz=4):
        self.objs, self.args = {}, []
        for p in k.params:
            if p[0] == "*":
                o = rt.Obj(p[1:], "arg", esz=esz)
                if p == "*dx":
                    o.extent = k.d
                self.objs[p[1:]] = o
                self.args.append(rt.Ptr(o, 0))
            elif p[0] == "#":
                vals = v[p]
                q = rt.alloca(4 * len(vals), p[1:])
                for i, x in enumerate(vals):
                    rt.store(rt.Ptr(q.obj, 4 * i), x, 4)
                q.obj.ro = True
                self.args.append(q)
            elif p in REALS:
                o = rt.Obj(p, "arg", esz=esz, ro=True)
                o.extent = 1
                self.args.append(rt.Ptr(o, 0))
                self.objs[p] = o
            else:
                q = rt.alloca(4, p)
                rt.store(q, v[p], 4)
                q.obj.ro = True
                self.args.append(q)


class Problem(dict):
    pass


def intmodel(ctx, extra=()):
    r = ctx.check(*extra)
    if r == z3.unsat:
        return None
    m = ctx.model if r == z3.sat else None
    out = {}
    for i, zv in ctx.zsym.items():
        out[i] = m.eval(zv, model_completion=True).as_long() if m is not None else Sym.table[i].lo
    return out


def randmodel(ctx, rnd, tries=10):
    """integer values of one random point of this path, None if none is found"""
    fixed = []
    ids = list(ctx.zsym.items())
    rnd.shuffle(ids)
    for i, zv in ids[:tries]:
        s = Sym.table[i]
        c = zv == rnd.randint(s.lo, min(s.hi, s.lo + 100000))
        if ctx.check(*fixed, c) == z3.sat:
            fixed.append(c)
    if ctx.check(*fixed) != z3.sat:
        return None
    m = ctx.model
    return {i: m.eval(zv, model_completion=True).as_long() for i, zv in ctx.zsym.items()}


def feasible(ctx, extra):
    r = ctx.check(extra)
    return r, (intmodel(ctx, (extra,)) if r == z3.sat else None)


def check_bounds(ctx, obj, scale, what, out):
    """every access of obj within [0, extent)"""
    ext = obj.extent
    if ext is None:
        return 0
    limit = ext * obj.esz if scale is None else ext * scale
    n = 0
    groups = {}
    for acc in (obj.reads, obj.writes):
        for off, size in acc.items():
            if off.__class__ is int:
                g, c = 0, off
            else:
                g, c = off.nonconst(), off.const()
            lo, hi = groups.get(g, (c, c + size))
            groups[g] = (min(lo, c), max(hi, c + size))
    conds = []
    for g, (lo, hi) in groups.items():
        for cond, p in (("below", g + lo), ("above", limit - g - hi)):
            n += 1
            conds.append((cond, p))
    symb = [(c, p) for c, p in conds if p.__class__ is not int]
    for cond, p in conds:
        if p.__class__ is int and p < 0:
            out.append(Problem(kind="bounds", obj=obj.name, what=f"{what}: access {cond} array {obj.name}", ints=intmodel(ctx)))
            return n
    # one query: can any access of this array leave it?
    if symb:
        r = ctx.check(z3.Or([ctx.z(p) < 0 for c, p in symb]))
        if r != z3.unsat:
            for cond, p in symb:
                if p.interval()[0] >= 0:
                    continue
                r, m = feasible(ctx, ctx.z(p) < 0)
                if r == z3.sat:
                    out.append(Problem(kind="bounds", obj=obj.name, what=f"{what}: access {cond} array {obj.name}", ints=m))
                    return n
                if r == z3.unknown:
                    out.append(Problem(kind="unknown", obj=obj.name, what=f"{what}: bound undecided on {obj.name}"))
                    return n
    return n


def flat(obj):
    return {(g, c): v for g, grp in obj.groups.items() for c, v in grp.items()}


def split(off):
    return (0, off) if off.__class__ is int else (off.nonconst(), off.const())


def scale_key(k, s):
    return k if s == 1 else (k[0] * s, k[1] * s)


def sigma(ctx):
    """integer symbols whose value the decisions of this path force"""
    if not ctx.trace:
        return None
    sig = {}
    if ctx.check() != z3.sat:
        return None
    m = ctx.model
    for i, zv in list(ctx.zsym.items()):
        val = m.eval(zv, model_completion=True)
        if ctx.check(zv != val) == z3.unsat:
            sig[i] = val.as_long()
    return sig or None


def fix(p, sig):
    return p if p.__class__ is int else p.subst(sig)


def compare(ctx, eq, A, B, out, stats, sa=1, la="C++", lb="reference", reals=()):
    """final contents of every array of A and B agree.  sa scales A's offsets"""
    conds = [c for c in ctx.rconds]
    sig = sigma(ctx)
    memo = {}
    if sig:
        conds = [(c[0], RX.subst(c[1], sig, memo), c[2]) for c in conds]
    for name, a in A.items():
        b = B[name]
        wa = {scale_key(q, sa): v for q, v in flat(a).items()}
        wb = flat(b)
        if sig:
            wa, wb = ({split(fix(q[0] + q[1], sig)): RX.subst(v, sig, memo) if v.__class__ is RX.R else v
                       for q, v in w.items()} for w in (wa, wb))
        only_a = {}
        for q, v in wa.items():
            w = wb.pop(q, None)
            if w is None:
                only_a[q] = v
            else:
                one(ctx, eq, name, q, v, w, conds, out, stats)
        # cells written on one side only: match non-syntactically, else compare
        # with the initial content
        for q, v in list(only_a.items()):
            off = q[0] + q[1]
            for q2 in list(wb):
                if q2[0] != q[0] and rt.eq0(off - q2[0] - q2[1]):
                    one(ctx, eq, name, q, v, wb.pop(q2), conds, out, stats)
                    only_a.pop(q)
                    break
        for side, d in ((la, only_a), (lb, wb)):
            for q, v in d.items():
                off = q[0] + q[1]
                init = RX.sym(name, off)
                one(ctx, eq, name, q, v, init, conds, out, stats, only=side)


def one(ctx, eq, name, q, v, w, conds, out, stats, only=None):
    stats["cells"] = stats.get("cells", 0) + 1
    if v.__class__ is not RX.R or w.__class__ is not RX.R:
        raise rt.Unsupported(f"non-real value stored in {name}")
    r = eq.check(v, w, ctx, conds)
    if r is not None and r != "unknown":
        u = realz.unify(ctx, v, w, *[c[1] for c in conds])
        if u:
            r = None if u[0] is u[1] else eq.check(u[0], u[1], ctx, [(c[0], d, c[2]) for c, d in zip(conds, u[2:])])
    if r is None:
        return
    if r == "unknown":
        out.append(Problem(kind="unknown", obj=name, what=f"equality of {name}[{q[0] + q[1]}] undecided"))
        return
    out.append(Problem(kind="diff", obj=name, off=q[0] + q[1], only=only,
                       what=f"{name}[{q[0] + q[1]}] differs" + (f" (written by {only} only)" if only else ""),
                       got=RX.show(v)[:300], want=RX.show(w)[:300], env=r["env"], ints=intmodel(ctx)))


def conflicts(ctx, region, out, stats, where):
    """two iterations of a parallel loop must not touch the same cell unless both read"""
    cells = {}
    for t, log in region["iters"]:
        for obj, off, size, wr in log:
            e = cells.setdefault(id(obj), (obj, {}))[1]
            g, c = (0, off) if off.__class__ is int else (off.nonconst(), off.const())
            w, r = e.setdefault(g, {}).setdefault(c, (set(), set()))
            (w if wr else r).add(t)
    for obj, gs in cells.values():
        wg = {g for g, cs in gs.items() if any(w for w, r in cs.values())}
        for g, cs in gs.items():
            for c, (w, r) in cs.items():
                stats["accesses"] = stats.get("accesses", 0) + 1
                if w and (len(w) > 1 or r - w):
                    out.append(Problem(kind="race", obj=obj.name, ints=intmodel(ctx), off=g + c,
                                       what=f"{where}: iterations {sorted(w | r)[:4]} conflict on {obj.name}[{g + c}]"))
                    return
        for g in wg:
            for g2, cs2 in gs.items():
                if g2 == g or (g2 in wg and repr(g2) < repr(g)):
                    continue
                dg = g - g2
                for c, (w, r) in gs[g].items():
                    for c2, (w2, r2) in cs2.items():
                        if not (w or w2):
                            continue
                        if len(w | r | w2 | r2) < 2:
                            continue
                        p = dg + (c - c2)
                        if p.__class__ is not int:
                            lo, hi = p.interval()
                            if lo > 0 or hi < 0:
                                continue
                            zc = ctx.z(p) == 0
                            rr, m = feasible(ctx, zc)
                            if rr == z3.unsat:
                                continue
                            if rr == z3.unknown:
                                out.append(Problem(kind="unknown", obj=obj.name, what="aliasing undecided"))
                                return
                            out.append(Problem(kind="race", obj=obj.name, ints=m, off=g + c,
                                               what=f"{where}: conflicting accesses to {obj.name}"))
                            return


def run_case(k, case, P, F, mode, eq, deadline=60, maxpaths=300, snap=None):
    """mode: eq | safe | sched.  T: d | f"""
    t0 = time.time()
    T = case.get("T", "d")
    cn = [n for n in P.find(k.cmangled(T)) if n.startswith("_ZN" + k.cmangled(T)) and "." not in n]
    if len(cn) != 1:
        raise rt.Unsupported(f"kernel {k.id} not found")
    v = values(k, case)
    stats = {"paths": 0, "cells": 0}
    problems, notes = [], []
    esz = 8 if T == "d" else 4

    def setup(ctx):
        # keep every symbol known to the context (bounds become facts)
        def touch(x):
            if x.__class__ is Poly:
                for i in x.syms():
                    ctx.zs(i)
        for x in v.values():
            for y in (x if isinstance(x, list) else [x]):
                touch(y)
        ctx.fptrunc_id = T == "f"

    def run(ctx):
        out = []
        setup(ctx)
        body(ctx, out)
        for p in out:
            concretise(p, v, exts)
        return out

    exts = {}

    def body(ctx, out):
        B = Args(k, v)
        F.call(k.fname + "_", *B.args)
        refn = {n: o.extent for n, o in B.objs.items()}
        exts.update(refn)
        A = Args(k, v, esz)
        for n, o in A.objs.items():
            o.extent = refn[n]
        if mode == "sched":
            ctx.omp_mode = "each"
        try:
            P.call(cn[0], *A.args)
        except rt.Violation as e:
            if ctx.check() == z3.sat:
                out.append(Problem(kind="crash", what=str(e), ints=intmodel(ctx)))
            return out
        if snap is not None:
            snap(ctx, v, exts, A.objs)
            return out
        if mode == "safe":
            n = 0
            for o in B.objs.values():
                n += check_bounds(ctx, o, None, "reference", out)
            for o in A.objs.values():
                n += check_bounds(ctx, o, None, "C++", out)
            stats["bounds"] = stats.get("bounds", 0) + n
        elif mode == "sched":
            for i, r in enumerate(ctx.regions):
                stats["regions"] = stats.get("regions", 0) + 1
                stats["iterations"] = stats.get("iterations", 0) + len(r["iters"])
                conflicts(ctx, r, out, stats, f"parallel loop {i}")
            compare(ctx, eq, A.objs, B.objs, out, stats, 8 // esz)
        else:
            compare(ctx, eq, A.objs, B.objs, out, stats, 8 // esz)
        return out

    try:
        for ctx, r in ex.explore(run, max_paths=maxpaths, deadline=time.time() + deadline):
            stats["paths"] += 1
            for q in ("queries", "solver_s", "steps", "unknown"):
                stats[q] = stats.get(q, 0) + ctx.stats[q]
            stats["decisions"] = stats.get("decisions", 0) + len(ctx.trace)
            for p in r or ():
                if p["kind"] == "unknown":
                    notes.append(p["what"])
                else:
                    p["case"] = case
                    p["kernel"] = k.id
                    problems.append(p)
            if len(problems) > 5:
                break
    except rt.Unsupported as e:
        notes.append(f"unsupported: {e}")
    stats["t"] = time.time() - t0
    return {"kernel": k.id, "case": case, "stats": stats, "problems": problems, "notes": notes}


def evalp(x, ints):
    if x.__class__ is Poly:
        return int(x.eval({i: ints.get(i, min(max(0, Sym.table[i].lo), Sym.table[i].hi)) for i in x.syms()}))
    return x


def evalvals(v, ints):
    return {q: [evalp(y, ints) for y in x] if isinstance(x, list) else evalp(x, ints) for q, x in v.items()}


def concretise(p, v, exts):
    """concrete arguments of a counterexample (problem p), for the replay"""
    ints = p.get("ints") or {}
    p["vals"] = evalvals(v, ints)
    p["ext"] = {n: evalp(e, ints) for n, e in exts.items() if e is not None}
    cells = {}
    for node, x in (p.pop("env", None) or {}).items():
        if node.b is not None:
            cells.setdefault(node.a, {})[evalp(node.b, ints) // 8] = x
    p["cells"] = cells
    if "off" in p:
        p["at"] = evalp(p.pop("off"), ints) // 8
    p.pop("ints", None)
