"""Real expressions to z3, and the equality/definedness queries."""
import time
import z3
import rexpr as RX
from rexpr import R
from poly import Poly, Sym

_z = {}
_isym = {}


def reset():
    _z.clear()


def isym(i):
    """integer symbol as a real unknown (relaxation)"""
    v = _isym.get(i)
    if v is None:
        v = _isym[i] = z3.ToReal(z3.Int(Sym.table[i].name))
    return v


def zpoly(p, f):
    if p.__class__ is int:
        return z3.RealVal(p)
    s = None
    for m, c in p.t.items():
        t = z3.RealVal(c)
        for i in m:
            t = t * f(i)
        s = t if s is None else s + t
    return s


def symname(n):
    return f"{n.a}[{n.b}]" if n.b is not None else n.a


def zreal(x, ints=isym):
    """direct translation with division (used for path conditions)"""
    memo = _z
    st = [x]
    while st:
        n = st[-1]
        if n.id in memo:
            st.pop()
            continue
        o = n.op
        if o == "c":
            memo[n.id] = z3.RealVal(n.a)
        elif o == "s":
            memo[n.id] = z3.Real(symname(n))
        elif o == "i":
            memo[n.id] = zpoly(n.a, ints)
        else:
            ch = [c for c in (n.a, n.b) if c.__class__ is R]
            miss = [c for c in ch if c.id not in memo]
            if miss:
                st.extend(miss)
                continue
            v = [memo[c.id] for c in ch]
            if o == "+":
                memo[n.id] = v[0] + v[1]
            elif o == "*":
                memo[n.id] = v[0] * v[1]
            elif o == "/":
                memo[n.id] = v[0] / v[1]
            elif o == "n":
                memo[n.id] = -v[0]
            else:
                memo[n.id] = z3.Function(n.a, z3.RealSort(), z3.RealSort())(v[0])
        st.pop()
    return memo[x.id]


class Tr:
    """num/den translation with alpha-renamed leaves"""

    def __init__(self):
        self.names = {}
        self.order = []
        self.ints = {}
        self.iorder = []
        self.memo = {}
        self.dens = {}

    def leaf(self, n):
        v = self.names.get(n.id)
        if v is None:
            v = self.names[n.id] = z3.Real(f"v{len(self.names)}")
            self.order.append(n)
        return v

    def isym(self, i):
        v = self.ints.get(i)
        if v is None:
            v = self.ints[i] = z3.Real(f"n{len(self.ints)}")
            self.iorder.append(i)
        return v

    def nd(self, x):
        """(numerator, its factors, factors of the denominator)"""
        memo = self.memo
        st = [x]
        while st:
            n = st[-1]
            if n.id in memo:
                st.pop()
                continue
            o = n.op
            if o in "csi":
                t = z3.RealVal(n.a) if o == "c" else self.leaf(n) if o == "s" else zpoly(n.a, self.isym)
                r = (t, self.fac(t), {})
            else:
                ch = [c for c in (n.a, n.b) if c.__class__ is R]
                miss = [c for c in ch if c.id not in memo]
                if miss:
                    st.extend(miss)
                    continue
                v = [memo[c.id] for c in ch]
                if o == "n":
                    t = -v[0][0]
                    r = (t, merge(v[0][1], self.fac(MINUS)), v[0][2])
                elif o == "+":
                    (a, _, b), (c, _, d) = v
                    den = common(b, d)
                    t = times(a, den, b) + times(c, den, d)
                    r = (t, self.fac(t), den)
                elif o == "*":
                    (a, p, b), (c, q, d) = v
                    r = (a * c, merge(p, q), merge(b, d))
                elif o == "/":
                    (a, p, b), (c, q, d) = v
                    for i, (f, e) in q.items():
                        if not (z3.is_rational_value(f) and f.numerator_as_long()):
                            self.dens.setdefault(i, f)
                    r = (times(a, d, {}), merge(p, d), merge(b, q))
                else:
                    arg = v[0][0] / times(z3.RealVal(1), v[0][2], {}) if v[0][2] else v[0][0]
                    t = z3.Function(n.a, z3.RealSort(), z3.RealSort())(arg)
                    r = (t, self.fac(t), {})
            memo[n.id] = r
            st.pop()
        return memo[x.id]

    def fac(self, t):
        return {t.get_id(): (t, 1)}


MINUS = z3.RealVal(-1)


def merge(a, b):
    """product of two factor lists"""
    if not a or not b:
        return a or b
    r = dict(a)
    for i, (f, e) in b.items():
        r[i] = (f, r[i][1] + e) if i in r else (f, e)
    return r


def common(a, b):
    """least common multiple"""
    if not a or not b or a is b:
        return a or b
    r = dict(a)
    for i, (f, e) in b.items():
        r[i] = (f, max(r[i][1], e)) if i in r else (f, e)
    return r


def times(t, num, den):
    """t * num / den, den dividing num"""
    for i, (f, e) in num.items():
        for _ in range(e - (den[i][1] if i in den else 0)):
            t = t * f
    return t


def signature(*xs):
    """structure of expressions modulo injective renaming of leaves"""
    names, ints, ids, out = {}, {}, {}, []
    for x in xs:
        st = [x]
        while st:
            n = st[-1]
            if n.id in ids:
                st.pop()
                continue
            o = n.op
            if o == "c":
                e = ("c", n.a)
            elif o == "s":
                e = ("s", names.setdefault(n.id, len(names)))
            elif o == "i":
                if n.a.__class__ is int:
                    e = ("c", n.a)
                else:
                    e = ("i", tuple((tuple(ints.setdefault(s, len(ints)) for s in m), c)
                                    for m, c in n.a.key()))
            else:
                ch = [c for c in (n.b, n.a) if c.__class__ is R]
                miss = [c for c in ch if c.id not in ids]
                if miss:
                    st.extend(miss)
                    continue
                e = (o, n.a if o == "f" else ids[n.a.id], ids[n.b.id] if n.b.__class__ is R else None)
            ids[n.id] = len(out)
            out.append(e)
            st.pop()
        out.append(("root", ids[x.id]))
    return tuple(out)


def unify(ctx, *xs, fork=None, limit=400):
    """array cells whose (differently written) indices are forced to be equal become one
    unknown; with fork, cells that may be equal are decided by splitting the path"""
    groups = {}
    acc, seen = [], set()
    for x in xs:
        RX.leaves(x, acc, seen)
    for n in acc:
        if n.op == "s" and n.b is not None:
            groups.setdefault(n.a, []).append(n)
    rep, tried, may = {}, 0, []
    for g in groups.values():
        if len(g) < 2 or all(n.b.__class__ is int for n in g):
            continue
        reps = []
        for n in g:
            for m in reps:
                d = n.b - m.b
                if d.__class__ is int:
                    continue
                lo, hi = d.interval()
                if lo > 0 or hi < 0 or tried >= limit:
                    continue
                tried += 1
                z = ctx.z(d)
                if ctx.check(z != 0) == z3.unsat:
                    rep[n.id] = m
                    break
                if fork is not None and len(may) < 8 and ctx.check(z == 0) != z3.unsat:
                    may.append((n, m, d))
            else:
                reps.append(n)
    if fork is not None:
        for n, m, d in may:
            if n.id not in rep and fork(d):
                rep[n.id] = m
    if not rep:
        return None
    memo = dict(rep)
    return [RX.subst(x, {}, memo) for x in xs]


class EqChecker:
    """decides  forall reals with defined reference: impl defined and equal"""

    def __init__(self, timeout_ms=20000):
        self.cache = {}
        self.timeout = timeout_ms
        self.stats = {"eq_queries": 0, "eq_solver_s": 0.0, "eq_unknown": 0, "eq_pairs": 0,
                      "eq_cached": 0, "def_queries": 0}

    def check(self, impl, ref, ctx=None, conds=()):
        """None = equal; otherwise (leaf model) dict"""
        self.stats["eq_pairs"] += 1
        if impl is ref:
            key = ("same",)
        sig = signature(impl, ref, *[c[1] for c in conds])
        csig = tuple((c[0], c[2]) for c in conds)
        key = (sig, csig)
        if key in self.cache:
            self.stats["eq_cached"] += 1
            r = self.cache[key]
            if r is None:
                return None
            if r == "unknown":
                return r
        tr = Tr()
        ni, _, di = tr.nd(impl)
        dimpl, tr.dens = tr.dens, {}
        tr.memo = {}
        nr, _, dr = tr.nd(ref)
        dref, tr.dens = tr.dens, {}
        dimpl = [f for i, f in dimpl.items() if i not in dref]
        tr.memo = {}
        s = z3.Solver()
        s.set("timeout", self.timeout)
        for d in dref.values():
            s.add(d != 0)
        for p, d, taken in conds:
            cn, _, cd = tr.nd(d)
            v = times(cn, cd, {})
            zc = {"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[p]
            s.add(zc if taken else z3.Not(zc))
            for f, _ in cd.values():
                s.add(f != 0)
        for i in tr.iorder:
            sy = Sym.table[i]
            s.add(tr.ints[i] >= sy.lo, tr.ints[i] <= sy.hi)
        den = common(di, dr)
        lhs, rhs = times(ni, den, di), times(nr, den, dr)
        bad = [lhs != rhs] + [d == 0 for d in dimpl]
        t0 = time.time()
        model = None
        try:
            p = z3.simplify(lhs - rhs, som=True, som_blowup=1000000, max_steps=400000)
        except z3.Z3Exception:
            p = None
        if p is not None and z3.is_rational_value(p) and p.numerator_as_long() == 0:
            r = z3.unsat                                # an identity
        else:
            s.push()
            s.add(bad[0])
            r = s.check()
            model = s.model() if r == z3.sat else None
            s.pop()
        self.stats["eq_queries"] += 1
        if r == z3.unsat and dimpl:
            s.push()
            s.add(z3.Or(bad[1:]))
            r = s.check()
            self.stats["def_queries"] += 1
            model = s.model() if r == z3.sat else None
            s.pop()
        self.stats["eq_solver_s"] += time.time() - t0
        if r == z3.unsat:
            self.cache[key] = None
            return None
        if r == z3.unknown:
            self.stats["eq_unknown"] += 1
            self.cache[key] = "unknown"
            return "unknown"
        self.cache[key] = "sat"
        env = {}
        for n in tr.order:
            env[n] = _num(model.eval(tr.names[n.id], model_completion=True))
        ienv = {i: _num(model.eval(tr.ints[i], model_completion=True)) for i in tr.iorder}
        return {"env": env, "ienv": ienv}


def _num(v):
    if z3.is_rational_value(v):
        return float(v.numerator_as_long()) / float(v.denominator_as_long()) if v.denominator_as_long() else 0.0
    if z3.is_algebraic_value(v):
        a = v.approx(12)
        return float(a.numerator_as_long()) / float(a.denominator_as_long())
    return 0.0
