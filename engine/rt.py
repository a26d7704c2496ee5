"""Runtime of the symbolic executor: values, memory, path decisions, OpenMP
model.  One global context `X` is active at a time."""
import struct
import time
from fractions import Fraction
import z3
import rexpr as RX
from rexpr import R
from poly import Poly, Sym, mk, divmod_poly


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Violation(Exception):
    """a definite violation found while executing (bad access, trap...)"""

    def __init__(self, what, detail=""):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


class Cat:
    """64-bit integer made of two 32-bit halves that are only moved around"""
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return f"&{self.obj.name if self.obj else None}+{self.off}"


class PI:
    """pointer as integer"""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off


NULL = Ptr(None, 0)


class Obj:
    __slots__ = ("name", "kind", "esz", "ek", "size", "cells", "groups", "init",
                 "birth", "reads", "writes", "ro", "dead", "initf", "extent", "span", "near")

    def __init__(self, name, kind, size=None, esz=8, ek="f", ro=False, initf=None):
        self.name, self.kind, self.size, self.esz, self.ek = name, kind, size, esz, ek
        self.cells = {}
        self.groups = {}
        self.span = {}           # least and greatest constant part of each group
        self.near = {}           # g -> g2 -> (g - g2, its interval)
        self.init = {}
        self.birth = 0
        self.reads = {}
        self.writes = {}
        self.ro = ro
        self.dead = False
        self.initf = initf
        self.extent = None


class Ctx:
    def __init__(self, prefix=(), timeout_ms=4000):
        self.prefix = list(prefix)
        self.trace = []          # (payload, taken, other_feasible)
        self.facts = []          # z3 constraints on this path
        self.ifacts = {}         # Poly -> bool for >=0 / ==0 decisions
        self.solver = None
        self.nf = 0              # facts already asserted
        self.known = set()
        self.zsym = {}
        self.divmemo = {}
        self.timeout = timeout_ms
        self.stats = {"queries": 0, "solver_s": 0.0, "unknown": 0, "steps": 0}
        # openmp
        self.omp_mode = "serial"     # serial | each
        self.iter = 0                # current parallel iteration (0 = none)
        self.region = None
        self.regions = []
        self.par_pending = None
        self.log = False
        self.iterlog = None
        self.nobj = 0
        self.events = []
        self.handlers = {}
        self.guards = set()
        self.dens = []
        self.rconds = []
        self.fptrunc_id = False

    # ---------------- z3 conversion of integer polynomials
    def zs(self, i):
        v = self.zsym.get(i)
        if v is None:
            s = Sym.table[i]
            v = self.zsym[i] = z3.Int(s.name)
            self.facts.append(v >= s.lo)
            self.facts.append(v <= s.hi)
            for u in s.ub:
                self.facts.append(v <= self.z(u))
        return v

    def z(self, p):
        if p.__class__ is int:
            return z3.IntVal(p)
        terms = []
        for m, c in p.t.items():
            f = [self.zs(i) for i in m]
            if c != 1 or not f:
                f = [z3.IntVal(c)] + f
            t = f[0]
            for x in f[1:]:
                t = t * x
            terms.append(t)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def check(self, *cons):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.timeout)
            self.nf = 0
        s = self.solver
        if self.nf < len(self.facts):
            s.add(*self.facts[self.nf:])
            self.nf = len(self.facts)
        t0 = time.time()
        s.push()
        s.add(*cons)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        if r == z3.unknown:
            self.stats["unknown"] += 1
        self.model = m
        return r

    def assume(self, zc):
        self.facts.append(zc)

    def fork(self, zt, zf, payload=None):
        """decide between two z3 constraints"""
        n = len(self.trace)
        if n < len(self.prefix):
            payload, taken = self.prefix[n][0], self.prefix[n][1]
            self.trace.append((payload, taken, False))
            self.facts.append(zt if taken else zf)
            return taken
        rt = self.check(zt)
        rf = self.check(zf) if rt != z3.unsat else None
        if rt == z3.unsat:
            # path itself is assumed feasible
            self.trace.append((payload, False, False))
            self.facts.append(zf)
            return False
        if rf == z3.unsat:
            self.trace.append((payload, True, False))
            self.facts.append(zt)
            return True
        self.trace.append((payload, True, True))
        self.facts.append(zt)
        if len(self.trace) > 4000:
            raise Unsupported("too many decisions on one path")
        return True


X = None


def set_ctx(c):
    global X
    X = c
    return c


# ------------------------------------------------------------- decisions

def upper_neg(p, depth=0):
    """prove p < 0 by substituting symbolic upper bounds / lower bounds"""
    if p.__class__ is int:
        return p < 0
    if p.interval()[1] < 0:
        return True
    if depth > 6:
        return False
    for i in p.syms():
        s = Sym.table[i]
        if not s.ub:
            continue
        # coefficient of s (must be linear in s)
        lin, rest, ok = {}, {}, True
        for m, c in p.t.items():
            k = m.count(i)
            if k == 0:
                rest[m] = c
            elif k == 1:
                mm = list(m)
                mm.remove(i)
                lin[tuple(mm)] = c
            else:
                ok = False
        if not ok:
            continue
        co = mk(lin)
        lo, hi = (co, co) if co.__class__ is int else co.interval()
        if lo >= 0:
            for u in s.ub:
                if upper_neg(mk(rest) + co * u, depth + 1):
                    return True
        elif hi <= 0 and s.lo == 0:
            if upper_neg(mk(rest), depth + 1):
                return True
    return False


def ge0(p):
    """decide p >= 0 on this path"""
    if p.__class__ is int:
        return p >= 0
    lo, hi = p.interval()
    if lo >= 0:
        return True
    if hi < 0:
        return False
    k = ("g", p)
    d = X.ifacts.get(k)
    if d is None:
        if any(Sym.table[i].ub for i in p.syms()):
            if upper_neg(p):
                d = False
            elif upper_neg(-p - 1):
                d = True
        if d is None:
            zp = X.z(p)
            d = X.fork(zp >= 0, zp < 0)
        X.ifacts[k] = d
    return d


def eq0(p):
    if p.__class__ is int:
        return p == 0
    lo, hi = p.interval()
    if lo > 0 or hi < 0:
        return False
    # gcd test
    k = ("e", p)
    d = X.ifacts.get(k)
    if d is None:
        c0 = p.const()
        g = 0
        from math import gcd
        for m, c in p.t.items():
            if m != ():
                g = gcd(g, c)
        if g > 1 and c0 % g:
            d = False
        elif any(Sym.table[i].ub for i in p.syms()) and (upper_neg(p) or upper_neg(-p)):
            d = False
        if d is None:
            zp = X.z(p)
            d = X.fork(zp == 0, zp != 0)
        X.ifacts[k] = d
        X.ifacts[("e", -p)] = d
    return d


def concretize(p):
    if p.__class__ is int:
        return p
    if p.__class__ is not Poly:
        raise Unsupported(f"concretize {p!r}")
    zp = X.z(p)
    for _ in range(400):
        n = len(X.trace)
        if n < len(X.prefix):
            v = X.prefix[n][0]
        else:
            # candidates are constrained by the decisions already on the path
            r = X.check()
            if r != z3.sat:
                raise Infeasible() if r == z3.unsat else Unsupported("concretize: unknown")
            v = X.model.eval(zp, model_completion=True).as_long()
        if X.fork(zp == v, zp != v, v):
            return v
    raise Unsupported("concretize: too many values")


# ------------------------------------------------------------- integers

_M = {w: 1 << w for w in (1, 8, 16, 24, 32, 48, 64, 128)}
_H = {w: 1 << (w - 1) for w in _M}


def wrap(z, w):
    z &= _M[w] - 1
    return z - _M[w] if z >= _H[w] and w > 1 else z


def res(v, w):
    """resolve packed values for arithmetic"""
    c = v.__class__
    if c is int or c is Poly:
        return v
    if c is Cat:
        if v.hi.__class__ is int and v.hi == 0:
            return norm_u(v.lo, 32)
        if v.lo.__class__ is R or v.hi.__class__ is R:
            raise Unsupported("arithmetic on packed float")
        lo = norm_u(v.lo, 32)
        return lo + v.hi * (1 << 32)
    if v is UNDEF:
        return v
    raise Unsupported(f"integer arithmetic on {v!r}")


def norm_s(v, w):
    if v.__class__ is int:
        return v
    v = res(v, w)
    if v.__class__ is int:
        return wrap(v, w)
    if v is UNDEF:
        raise Unsupported("undef value observed")
    h = 1 << (w - 1)
    lo, hi = v.interval()
    if lo >= -h and hi < h:
        return v
    # reduce coefficients modulo 2^w
    t = {}
    for m, c in v.t.items():
        c &= (1 << w) - 1
        if c >= h:
            c -= 1 << w
        if c:
            t[m] = c
    v2 = mk(t)
    if v2.__class__ is int:
        return v2
    lo, hi = v2.interval()
    if lo >= -h and hi < h:
        return v2
    if X.check(z3.Or(X.z(v2) < -h, X.z(v2) >= h)) == z3.unsat:
        return v2
    X.events.append(("overflow", w, v2))
    raise Unsupported(f"possible {w}-bit overflow of {v2}")


def norm_u(v, w):
    v = norm_s(v, w)
    if ge0(v):
        return v
    return v + (1 << w)


def add(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        z = a + b
        h = _H[w]
        return z if -h <= z < h else wrap(z, w)
    ca, cb = a.__class__, b.__class__
    if ca is PI or cb is PI:
        if ca is PI and cb is not PI:
            return PI(a.obj, a.off + res(b, w))
        if cb is PI and ca is not PI:
            return PI(b.obj, b.off + res(a, w))
        raise Unsupported("ptr+ptr")
    a, b = res(a, w), res(b, w)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    z = a + b
    return z if z.__class__ is Poly else wrap(z, w)


def sub(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        z = a - b
        h = _H[w]
        return z if -h <= z < h else wrap(z, w)
    ca, cb = a.__class__, b.__class__
    if ca is PI or cb is PI:
        if ca is PI and cb is PI:
            if a.obj is not b.obj:
                raise Unsupported("pointer difference across objects")
            return a.off - b.off
        if ca is PI:
            return PI(a.obj, a.off - res(b, w))
        raise Unsupported("int-ptr")
    a, b = res(a, w), res(b, w)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    z = a - b
    return z if z.__class__ is Poly else wrap(z, w)


def mul(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        z = a * b
        h = _H[w]
        return z if -h <= z < h else wrap(z, w)
    a, b = res(a, w), res(b, w)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    z = a * b
    return z if z.__class__ is Poly else wrap(z, w)


_fresh = [0]


def fresh(name, lo, hi):
    _fresh[0] += 1
    return Sym(f"{name}!{_fresh[0]}", lo, hi)


def _fdivmod(a, b):
    """quotient/remainder for a >= 0, b > 0 (a, b normalised)"""
    if a.__class__ is int and b.__class__ is int:
        return a // b, a % b
    if b.__class__ is int and b == 1:
        return a, 0
    k = (a, b)
    r = X.divmemo.get(k)
    if r is not None:
        return r
    cand = None
    # a < b ?
    if b.__class__ is Poly or a.interval()[1] < 10 ** 9:
        pass
    dm = divmod_poly(a, b) if a.__class__ is Poly else (0, a)
    if dm is not None:
        q, rr = dm
        # try to fix the constant part: r may be negative or too large
        for dq in (0, -1, 1):
            q2, r2 = q + dq, rr - b * dq
            if _prove_ge0(r2) and _prove_ge0(b - 1 - r2):
                cand = (q2, r2)
                break
    if cand is None:
        # fall back to fresh unknowns constrained by the division theorem
        alo, ahi = (a, a) if a.__class__ is int else a.interval()
        blo, bhi = (b, b) if b.__class__ is int else b.interval()
        blo = max(blo, 1)
        q = Poly.sym(fresh("q", 0, max(0, ahi // blo)))
        r = Poly.sym(fresh("r", 0, max(0, bhi - 1)))
        zq, zr = X.z(q), X.z(r)
        X.facts.append(X.z(a) == zq * X.z(b) + zr)
        X.facts.append(zr < X.z(b))
        cand = (q, r)
    X.divmemo[k] = cand
    return cand


def _prove_ge0(p):
    if p.__class__ is int:
        return p >= 0
    lo, hi = p.interval()
    if lo >= 0:
        return True
    if hi < 0:
        return False
    d = X.ifacts.get(("g", p))
    if d is not None:
        return d
    if upper_neg(-p - 1):
        return True
    if upper_neg(p):
        return False
    return X.check(X.z(p) < 0) == z3.unsat


def sdivrem(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            raise Violation("integer division by zero")
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q, a - q * b
    a, b = norm_s(a, w), norm_s(b, w)
    if eq0(b):
        raise Violation("integer division by zero")
    bn = not ge0(b)
    if bn:
        b = -b
    an = not ge0(a)
    if an:
        a = -a
    q, r = _fdivmod(a, b)
    if an:
        r = -r
    if an != bn:
        q = -q
    return q, r


def sdiv(a, b, w):
    return sdivrem(a, b, w)[0]


def srem(a, b, w):
    return sdivrem(a, b, w)[1]


def udiv(a, b, w):
    a, b = norm_u(a, w), norm_u(b, w)
    if eq0(b):
        raise Violation("integer division by zero")
    return _wr(_fdivmod(a, b)[0], w)


def urem(a, b, w):
    a, b = norm_u(a, w), norm_u(b, w)
    if eq0(b):
        raise Violation("integer division by zero")
    return _wr(_fdivmod(a, b)[1], w)


def _wr(v, w):
    return wrap(v, w) if v.__class__ is int else v


def tocat(v):
    c = v.__class__
    if c is Cat:
        return v
    if c is int:
        u = v & ((1 << 64) - 1)
        return Cat(wrap(u, 32), wrap(u >> 32, 32))
    if c is Poly:
        lo, hi = v.interval()
        if lo >= 0 and hi < (1 << 32):
            return Cat(v, 0)
    return None


def _uncat(c):
    if c.lo.__class__ is int and c.hi.__class__ is int:
        return wrap((c.lo & 0xffffffff) | ((c.hi & 0xffffffff) << 32), 64)
    return c


def band(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a & b
    if a is UNDEF or b is UNDEF:
        return 0 if (a == 0 or b == 0) else UNDEF
    if a.__class__ is int:
        a, b = b, a
    if w == 64 and b.__class__ is int:
        c = tocat(a)
        u = b & ((1 << 64) - 1)
        if u == 0xffffffff:
            if c is not None:
                return zext(c.lo, 32, 64)
            if a.__class__ is Poly:
                return zext(a, 32, 64)
        if u == 0xffffffff00000000:
            if c is not None:
                return _uncat(Cat(0, c.hi))
        if c is not None:
            try:
                return _uncat(Cat(band(c.lo, wrap(u, 32), 32), band(c.hi, wrap(u >> 32, 32), 32)))
            except Unsupported:
                pass
    if b.__class__ is int:
        if b == -1:
            return a
        if b == 0:
            return 0
        u = b & (_M[w] - 1)
        if u & (u + 1) == 0:          # low mask
            a = norm_s(a, w)
            m = u + 1
            if ge0(a):
                return _fdivmod(a, m)[1]
            # a negative: a mod m
            r = _fdivmod(-a, m)[1]
            return 0 if eq0(r) else m - r
        inv = (~b)
        if inv >= 0 and inv & (inv + 1) == 0:   # clear low bits
            return sub(a, band(a, inv, w), w)
    a, b = concretize(norm_s(a, w)), concretize(norm_s(b, w))
    return a & b


def bor(a, b, w, disjoint=False):
    if a.__class__ is int and b.__class__ is int:
        return a | b
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int and b == 0:
        return a
    if w == 64:
        ca, cb = tocat(a), tocat(b)
        if ca is not None and cb is not None:
            def one(x, y):
                if x.__class__ is int and x == 0:
                    return y
                if y.__class__ is int and y == 0:
                    return x
                return bor(x, y, 32)
            return _uncat(Cat(one(ca.lo, cb.lo), one(ca.hi, cb.hi)))
    if disjoint:
        return add(a, b, w)
    a, b = concretize(norm_s(a, w)), concretize(norm_s(b, w))
    return a | b


def bxor(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if b == -1:
            return sub(-1, a, w)
        if b == 0:
            return a
    a, b = concretize(norm_s(a, w)), concretize(norm_s(b, w))
    return a ^ b


def shl(a, b, w):
    if b.__class__ is not int:
        b = concretize(norm_s(b, w))
    if a.__class__ is int:
        return wrap(a << b, w)
    if w == 64 and b == 32:
        if a.__class__ is Cat:
            return Cat(0, a.lo)
        if a.__class__ is R:
            return Cat(0, a)
        if a.__class__ is Poly:
            return Cat(0, trunc(a, 64, 32))
    a = res(a, w)
    return a if a is UNDEF else a * (1 << b)


def lshr(a, b, w):
    if b.__class__ is not int:
        b = concretize(norm_s(b, w))
    if a.__class__ is int:
        return wrap((a & (_M[w] - 1)) >> b, w)
    if w == 64 and b == 32 and a.__class__ is Cat:
        return zext(a.hi, 32, 64)
    if a is UNDEF:
        return a
    if b == w - 1:
        return 0 if ge0(norm_s(a, w)) else 1
    a = norm_u(a, w)
    return _fdivmod(a, 1 << b)[0]


def ashr(a, b, w):
    if b.__class__ is not int:
        b = concretize(norm_s(b, w))
    if a.__class__ is int:
        return a >> b
    if w == 64 and b == 32 and a.__class__ is Cat:
        return sext(a.hi, 32, 64)
    if a is UNDEF:
        return a
    a = norm_s(a, w)
    if ge0(a):
        return _fdivmod(a, 1 << b)[0] if b < w - 1 else 0
    if b == w - 1:
        return -1
    return -1 - _fdivmod(-1 - a, 1 << b)[0]


def trunc(a, w0, w):
    if a.__class__ is int:
        return (a & 1) if w == 1 else wrap(a, w)
    if a.__class__ is Cat:
        if w == 32:
            return a.lo
        return trunc(a.lo, 32, w)
    if a.__class__ is R or a is UNDEF:
        return a
    if a.__class__ is PI:
        raise Unsupported("trunc of pointer")
    if w == 1:
        return band(a, 1, w0)
    if w < 32:
        a = norm_s(a, w0)
        lo, hi = a.interval()
        h = 1 << (w - 1)
        if -h <= lo and hi < h:
            return a
        return trunc(concretize(a), w0, w)
    # congruence is kept; drop coefficients that vanish modulo 2^w
    m = 1 << w
    if any(abs(c) >= m for c in a.t.values()):
        a = mk({k: c % m for k, c in a.t.items() if c % m})
        if a.__class__ is int:
            return wrap(a, w)
    return a


def zext(a, w0, w):
    if a.__class__ is int:
        return a if w0 == 1 else a & ((1 << w0) - 1)
    if a.__class__ is Poly:
        if w0 == 32 and w == 64:
            lo, hi = a.interval()
            if lo >= 0 and hi < (1 << 31):
                return a
            return Cat(a, 0)
        return norm_u(a, w0)
    if a.__class__ is R and w0 == 32:
        return Cat(a, 0)
    if a is UNDEF:
        return a
    raise Unsupported(f"zext {a!r}")


def sext(a, w0, w):
    if a.__class__ is int:
        return -a if w0 == 1 else a
    if a is UNDEF:
        return a
    return norm_s(a, w0)


def icmp(pred, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if pred == "eq":
            return 1 if a == b else 0
        if pred == "ne":
            return 1 if a != b else 0
        if pred[0] == "u":
            m = _M[w] - 1
            a &= m
            b &= m
        p = pred[1:]
        return 1 if (a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt" else a >= b) else 0
    if a.__class__ is Ptr or b.__class__ is Ptr or a.__class__ is PI or b.__class__ is PI:
        return pcmp(pred, a, b)
    if a is UNDEF or b is UNDEF:
        raise Unsupported("branch on undef")
    if pred in ("eq", "ne"):
        if a.__class__ is Cat and b.__class__ is int or a.__class__ is Cat and b.__class__ is Cat:
            pass
        r = eq0(norm_s(a, w) - norm_s(b, w))
        return int(r if pred == "eq" else not r)
    if pred[0] == "s":
        a, b = norm_s(a, w), norm_s(b, w)
    else:
        a, b = norm_u(a, w), norm_u(b, w)
    p = pred[1:]
    if p == "lt":
        return int(not ge0(a - b))
    if p == "le":
        return int(ge0(b - a))
    if p == "gt":
        return int(not ge0(b - a))
    return int(ge0(a - b))


def pcmp(pred, a, b):
    if a.__class__ is int:
        a = Ptr(None, a)
    if b.__class__ is int:
        b = Ptr(None, b)
    if a.obj is not b.obj:
        if pred == "eq":
            return 0
        if pred == "ne":
            return 1
        raise Unsupported("ordering of unrelated pointers")
    d = a.off - b.off
    p = pred if pred in ("eq", "ne") else pred[1:]
    if p == "eq":
        return int(eq0(d))
    if p == "ne":
        return int(not eq0(d))
    if p == "lt":
        return int(not ge0(d))
    if p == "le":
        return int(ge0(-d))
    if p == "gt":
        return int(not ge0(-d))
    return int(ge0(d))


# --------------------------------------------------------------- floats

def fp(v):
    if v.__class__ is R:
        return v
    if v is UNDEF:
        raise Unsupported("undef floating value used")
    if v.__class__ is int:
        if v == 0:
            return RX.const(0)
        return RX.const(RX.rationalize(struct.unpack("d", struct.pack("q", v))[0]))
    raise Unsupported(f"float from {v!r}")


def fadd(a, b):
    if a.__class__ is R and b.__class__ is R:
        return RX.add(a, b)
    return vec2(RX.add, a, b)


def fsub(a, b):
    if a.__class__ is R and b.__class__ is R:
        return RX.sub(a, b)
    return vec2(RX.sub, a, b)


def fmul(a, b):
    if a.__class__ is R and b.__class__ is R:
        return RX.mul(a, b)
    return vec2(RX.mul, a, b)


def fdiv(a, b):
    if a.__class__ is R and b.__class__ is R:
        try:
            r = RX.div(a, b)
        except RX.DivByZero:
            raise Violation("floating division by zero")
        if r.op == "/":
            X.dens.append(r.b)
        return r
    return vec2(fdiv, a, b)


def vec2(f, a, b):
    if a.__class__ is tuple:
        return tuple(f(x, y) for x, y in zip(a, b))
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return f(fp(a), fp(b))


def fneg(a):
    if a.__class__ is tuple:
        return tuple(fneg(x) for x in a)
    return RX.neg(fp(a))


def fcmp(pred, a, b):
    a, b = fp(a), fp(b)
    if pred in ("ord", "true"):
        return 1
    if pred in ("uno", "false"):
        return 0
    p = pred[1:]
    d = RX.sub(a, b)
    if d.op == "c":
        v = d.a
        return int({"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[p])
    if d.op == "i":
        q = d.a
        return int({"eq": lambda: eq0(q), "ne": lambda: not eq0(q), "lt": lambda: not ge0(q),
                    "le": lambda: ge0(-q), "gt": lambda: not ge0(-q), "ge": lambda: ge0(q)}[p]())
    n = ratio(d)
    if n is not None:
        q = n[0] * n[1]
        return int({"eq": lambda: eq0(q), "ne": lambda: not eq0(q), "lt": lambda: not ge0(q),
                    "le": lambda: ge0(-q), "gt": lambda: not ge0(-q), "ge": lambda: ge0(q)}[p]())
    import realz
    k = ("f", p, d.id)
    r = X.ifacts.get(k)
    if r is None:
        z = realz.zreal(d)
        zt = {"eq": z == 0, "ne": z != 0, "lt": z < 0, "le": z <= 0, "gt": z > 0, "ge": z >= 0}[p]
        r = X.fork(zt, z3.Not(zt))
        X.ifacts[k] = r
        X.rconds.append((p, d, r))
    return int(r)


def sitofp(v, w):
    return RX.from_int(norm_s(v, w))


def uitofp(v, w):
    if w == 1:
        return RX.from_int(v)
    return RX.from_int(norm_u(v, w))


def fptosi(v, w):
    v = fp(v)
    if v.op == "c":
        q = abs(v.a.numerator) // v.a.denominator
        return wrap(-q if v.a < 0 else q, w)
    if v.op == "i":
        return v.a
    r = ratio(v)
    if r is not None:
        return sdiv(r[0], r[1], 64)
    if fcmp("oge", v, RX.const(0)):
        return int_below(v, w)
    q = int_below(RX.neg(v), w)
    return sub(0, q, w)


def ratio(v):
    """v as a quotient of integer polynomials (num, den), or None"""
    o = v.op
    if o == "c":
        return v.a.numerator, v.a.denominator
    if o == "i":
        return v.a, 1
    if o in ("s",) or o not in ("+", "*", "/", "n"):
        return None
    a = ratio(v.a)
    if a is None:
        return None
    if o == "n":
        return -a[0], a[1]
    b = ratio(v.b)
    if b is None:
        return None
    if o == "*":
        return a[0] * b[0], a[1] * b[1]
    if o == "/":
        return a[0] * b[1], a[1] * b[0]
    if a[1] == b[1]:
        return a[0] + b[0], a[1]
    return a[0] * b[1] + b[0] * a[1], a[1] * b[1]


def int_below(v, w):
    """largest integer not above the real v"""
    import realz
    k = ("floor", v.id)
    q = X.ifacts.get(k)
    if q is None:
        h = 1 << (min(w, 32) - 1)
        q = Poly.sym(fresh("floor", -h, h - 1))
        z = realz.zreal(v)
        zq = z3.ToReal(X.z(q))
        X.facts.append(zq <= z)
        X.facts.append(z < zq + 1)
        d = RX.sub(v, RX.from_int(q))
        X.rconds.append(("ge", d, True))
        X.rconds.append(("lt", RX.sub(d, RX.const(1)), True))
        X.ifacts[k] = q
    return q


def ffloor(v):
    v = fp(v)
    if v.op == "i":
        return v
    if v.op == "c":
        return RX.const(v.a.numerator // v.a.denominator)
    r = ratio(v)
    if r is None:
        return RX.from_int(int_below(v, 64))
    q, m = sdivrem(r[0], r[1], 64)
    # truncated quotient: step down when the exact value is below it
    if fcmp("olt", v, RX.from_int(q)):
        q = q - 1
    return RX.from_int(q)


def fceil(v):
    return RX.neg(ffloor(RX.neg(fp(v))))


def ftrunc(v):
    v = fp(v)
    return ffloor(v) if fcmp("oge", v, RX.const(0)) else fceil(v)


def fptrunc(v):
    if v.__class__ is tuple:
        return tuple(fptrunc(x) for x in v)
    v = fp(v)
    if X.fptrunc_id or v.op == "c" and (v.a.denominator & (v.a.denominator - 1)) == 0 and abs(v.a.numerator) < 2 ** 24 or v.op == "i":
        return v
    return RX.fun("round32", v)


def fabs(v):
    v = fp(v)
    if fcmp("olt", v, RX.const(0)):
        return RX.neg(v)
    return v


# --------------------------------------------------------------- memory

def new_obj(name, kind, size=None, **kw):
    o = Obj(name, kind, size, **kw)
    X.nobj += 1
    o.birth = X.iter
    return o


def alloca(size, name):
    o = Obj(name, "stack", size)
    o.birth = X.iter
    return Ptr(o, 0)


def gep(p, off):
    if p.__class__ is Ptr:
        return Ptr(p.obj, p.off + off)
    if p is UNDEF:
        return UNDEF
    if p.__class__ is int:
        return Ptr(None, p + off)
    raise Unsupported(f"gep on {p!r}")


def idx(v, w, scale):
    """one gep index"""
    if v.__class__ is int:
        return v * scale
    if v.__class__ is Poly:
        if w < 64:
            v = norm_s(v, w)
        return v * scale
    v = norm_s(v, w)
    return v * scale


def _track(obj, off, size, write):
    if X.region is not None and obj.birth != X.iter:
        X.iterlog.append((obj, off, size, write))


def overlaid(obj, g, c):
    """written cells of other groups that g + c turns out to be equal to"""
    near = obj.near.get(g)
    if near is None:
        near = obj.near[g] = {g: None}
    span = obj.span
    for g2, grp2 in list(obj.groups.items()):
        e = near.get(g2, 0)
        if e is None:
            continue
        if e == 0:
            dg = g - g2
            e = near[g2] = (dg, *dg.interval())
        dg, lo, hi = e
        mn, mx = span[g2]
        if c + lo > mx or c + hi < mn:
            continue
        for c2 in grp2:
            d = c - c2
            if -hi <= d <= -lo and eq0(dg + d):
                yield grp2, c2


def arg_load(obj, off, size):
    if off.__class__ is int:
        g, c = 0, off
    else:
        g, c = off.nonconst(), off.const()
    if X.region is not None and obj.birth != X.iter:
        X.iterlog.append((obj, off, size, False))
    if obj.dead:
        raise Violation("use after free", obj.name)
    k = obj.reads
    if off not in k:
        k[off] = size
    W = obj.groups
    if W:
        grp = W.get(g)
        if grp is not None:
            v = grp.get(c)
            if v is not None:
                return v
            if grp.get(c - 4) is not None or grp.get(c + 4) is not None:
                if obj.esz == 8:
                    raise Unsupported("partially overlapping access")
        if len(W) > (1 if grp is not None else 0):
            for grp2, c2 in overlaid(obj, g, c):
                return grp2[c2]
    v = obj.init.get(off)
    if v is None:
        if obj.initf is not None:
            v = obj.initf(obj, off, size)
        elif obj.ek == "f":
            v = RX.sym(obj.name, off if obj.esz == 8 else off * 2)
        else:
            raise Unsupported(f"symbolic integer array {obj.name}")
        obj.init[off] = v
    return v


def arg_store(obj, off, size, val):
    if X.region is not None and obj.birth != X.iter:
        X.iterlog.append((obj, off, size, True))
    if obj.dead:
        raise Violation("use after free", obj.name)
    if obj.ro:
        raise Violation("write to a read-only argument", obj.name)
    if off.__class__ is int:
        g, c = 0, off
    else:
        g, c = off.nonconst(), off.const()
    W = obj.groups
    grp = W.get(g)
    if len(W) > (1 if grp is not None else 0):
        for grp2, c2 in overlaid(obj, g, c):
            grp2[c2] = val
            return
    if grp is None:
        grp = W[g] = {}
        obj.span[g] = [c, c]
    else:
        s = obj.span[g]
        if c < s[0]:
            s[0] = c
        elif c > s[1]:
            s[1] = c
    grp[c] = val
    obj.writes[off] = size


def load(p, size, k):
    """k: 'i' integer, 'f' float/double, 'p' pointer"""
    if p.__class__ is not Ptr:
        raise Unsupported(f"load through {p!r}")
    obj, off = p.obj, p.off
    if obj is None:
        raise Violation("null/invalid pointer dereference")
    if obj.kind == "arg":
        if obj.esz != size:
            return arg_load_odd(obj, off, size, k)
        return arg_load(obj, off, size)
    if off.__class__ is not int:
        off = concretize(off)
    if X.region is not None and obj.birth != X.iter and not obj.ro:
        X.iterlog.append((obj, off, size, False))
    c = obj.cells.get(off)
    if c is not None and c[0] == size:
        v = c[1]
        if k == "f":
            if v.__class__ is int:
                return RX.const(0) if v == 0 else bits2r(v, size)
        elif k == "p" and v.__class__ is int:
            return Ptr(None, v)
        elif k == "i" and v.__class__ is Ptr:
            return PI(v.obj, v.off)
        elif k == "p" and v.__class__ is PI:
            return Ptr(v.obj, v.off)
        return v
    if obj.size.__class__ is int and (off < 0 or off + size > obj.size):
        raise Violation("out-of-bounds access to local object", f"{obj.name}+{off}")
    return load_odd(obj, off, size, k)


def arg_load_odd(obj, off, size, k):
    if size == 2 * obj.esz and size == 8:
        return Cat(arg_load(obj, off, 4), arg_load(obj, off + 4, 4))
    raise Unsupported(f"{size}-byte access to {obj.name} with {obj.esz}-byte elements")


def bits2r(v, size):
    if size == 8:
        f = struct.unpack("d", struct.pack("q", v))[0]
        return RX.const(RX.rationalize(f))
    f = struct.unpack("f", struct.pack("i", v))[0]
    return RX.const(RX.rationalize(f, 24))


def load_odd(obj, off, size, k):
    # containing cell?
    for d in range(0, 16):
        c = obj.cells.get(off - d)
        if c is not None and c[0] >= d + size:
            v = c[1]
            if v is UNDEF:
                return UNDEF
            if v.__class__ is int:
                r = wrap(v >> (8 * d), 8 * size)
                if k == "f":
                    return bits2r(r, size)
                return r
            if v.__class__ is Cat and size == 4 and d in (0, 4):
                r = v.lo if d == 0 else v.hi
                if k == "f" and r.__class__ is int:
                    return bits2r(r, 4)
                return r
            if v.__class__ is Poly and d == 0:
                return trunc(v, 8 * c[0], 8 * size)
            if v.__class__ is Poly and c[0] == 8 and d == 4 and size == 4:
                lo, hi = v.interval()
                if lo >= 0 and hi < 1 << 32:
                    return 0
                return trunc(lshr(v, 32, 64), 64, 32)
            raise Unsupported("partial load")
    if size == 8:
        lo, hi = load(Ptr(obj, off), 4, "i"), load(Ptr(obj, off + 4), 4, "i")
        if lo is UNDEF and hi is UNDEF:
            return UNDEF
        v = _uncat(Cat(lo, hi))
        if k == "f" and v.__class__ is int:
            return bits2r(v, 8)
        if k == "p" and v.__class__ is int:
            return Ptr(None, v)
        return v
    if size in (2, 4):
        parts = [obj.cells.get(off + i) for i in range(size)]
        if all(c is not None and c[0] == 1 and c[1].__class__ is int for c in parts):
            v = 0
            for i, c in enumerate(parts):
                v |= (c[1] & 255) << (8 * i)
            return wrap(v, 8 * size)
    if size > 8 and size % 8 == 0:
        raise Unsupported("wide load")
    if obj.initf is not None:
        v = obj.initf(obj, off, size)
        if v is not None:
            return v
    return UNDEF


def store(p, v, size):
    if p.__class__ is not Ptr:
        raise Unsupported(f"store through {p!r}")
    obj, off = p.obj, p.off
    if obj is None:
        raise Violation("null/invalid pointer dereference")
    if obj.kind == "arg":
        if v is UNDEF:
            v = RX.sym("undef")
        if obj.esz != size:
            if size == 8 and obj.esz == 4:
                c = tocat(v)
                if c is not None:
                    arg_store(obj, off, 4, fp4(c.lo, obj))
                    arg_store(obj, off + 4, 4, fp4(c.hi, obj))
                    return
            raise Unsupported(f"{size}-byte store to {obj.name}")
        if v.__class__ is int and obj.ek == "f":
            v = RX.const(0) if v == 0 else bits2r(v, size)
        arg_store(obj, off, size, v)
        return
    if off.__class__ is not int:
        off = concretize(off)
    if obj.ro:
        raise Violation("write to constant object", obj.name)
    if X.region is not None and obj.birth != X.iter:
        X.iterlog.append((obj, off, size, True))
    if obj.size.__class__ is int and (off < 0 or off + size > obj.size):
        raise Violation("out-of-bounds access to local object", f"{obj.name}+{off}")
    cells = obj.cells
    c = cells.get(off)
    if c is None or c[0] != size:
        carve(obj, off, size)
    cells[off] = (size, v)


def fp4(v, obj):
    if v.__class__ is int and obj.ek == "f":
        return RX.const(0) if v == 0 else bits2r(v, 4)
    return v


def carve(obj, off, size):
    """remove / split cells overlapping [off, off+size)"""
    cells = obj.cells
    if not cells:
        return
    for o in filter(cells.__contains__, range(off - 15, off + size)):
        c = cells[o]
        if o + c[0] <= off:
            continue
        if o >= off and o + c[0] <= off + size:
            del cells[o]
            continue
        # partial overlap: split in 4-byte pieces
        if c[0] == 8 and (off - o) % 4 == 0 and size % 4 == 0:
            lo = load_odd(obj, o, 4, "i") if True else None
            hi = load_odd(obj, o + 4, 4, "i")
            del cells[o]
            cells[o] = (4, lo)
            cells[o + 4] = (4, hi)
            for q in (o, o + 4):
                if off <= q < off + size:
                    del cells[q]
        elif c[1].__class__ is int or c[1] is UNDEF:
            v = c[1]
            del cells[o]
            for i in range(c[0]):
                if not off <= o + i < off + size:
                    cells[o + i] = (1, UNDEF if v is UNDEF else wrap(v >> (8 * i), 8))
        else:
            raise Unsupported("partial store")


def memcpy(d, s, n):
    n = n if n.__class__ is int else concretize(n)
    if n == 0:
        return
    if d.obj is None or s.obj is None:
        raise Violation("null/invalid pointer dereference")
    if d.obj.kind == "arg" or s.obj.kind == "arg":
        e = d.obj.esz if d.obj.kind == "arg" else s.obj.esz
        if n % e:
            raise Unsupported("memcpy of partial elements")
        if n // e > 100000:
            raise Unsupported("huge memcpy")
        vals = [load(Ptr(s.obj, s.off + i), e, "f" if e == 8 or s.obj.kind == "arg" and s.obj.ek == "f" else "i") for i in range(0, n, e)]
        for i, v in enumerate(vals):
            store(Ptr(d.obj, d.off + i * e), v, e)
        return
    so = s.off if s.off.__class__ is int else concretize(s.off)
    do = d.off if d.off.__class__ is int else concretize(d.off)
    so_, do_ = s.obj, d.obj
    if so_.size.__class__ is int and (so < 0 or so + n > so_.size) or \
       do_.size.__class__ is int and (do < 0 or do + n > do_.size):
        raise Violation("out-of-bounds memcpy on local object", f"{so_.name}/{do_.name}")
    if X.region is not None:
        if so_.birth != X.iter and not so_.ro:
            X.iterlog.append((so_, so, n, False))
        if do_.birth != X.iter:
            X.iterlog.append((do_, do, n, True))
    if so_.initf is not None and so_.kind == "glob":
        so_.initf(so_, so, n)
    items = []
    o = so
    end = so + n
    cells = so_.cells
    # left-edge partial cell
    for b in () if cells.keys().isdisjoint(range(so - 15, so)) else range(1, 16):
        c = cells.get(so - b)
        if c is not None and c[0] > b:
            rem = min(c[0] - b, n)
            items.append((0, rem, load_odd(so_, so, rem, "i")))
            break
    for o in filter(cells.__contains__, range(so, end)):
        c = cells[o]
        if o + c[0] <= end:
            items.append((o - so, c[0], c[1]))
        else:
            items.append((o - so, end - o, load_odd(so_, o, end - o, "i")))
    carve(do_, do, n)
    for o, sz, v in items:
        do_.cells[do + o] = (sz, v)


def memset(d, v, n):
    n = n if n.__class__ is int else concretize(n)
    if d.obj is None:
        raise Violation("null/invalid pointer dereference")
    v = v if v.__class__ is int else concretize(v)
    b = v & 255
    if d.obj.kind == "arg":
        e = d.obj.esz
        if n % e:
            raise Unsupported("memset of partial elements")
        w = int.from_bytes(bytes([b]) * e, "little", signed=True)
        for i in range(0, n, e):
            store(Ptr(d.obj, d.off + i), w, e)
        return
    off = d.off if d.off.__class__ is int else concretize(d.off)
    o = 0
    while o < n:
        e = 8 if (off + o) % 8 == 0 and n - o >= 8 else 4 if (off + o) % 4 == 0 and n - o >= 4 else 1
        store(Ptr(d.obj, off + o), int.from_bytes(bytes([b]) * e, "little", signed=True), e)
        o += e
