"""Real-valued expressions (hash-consed).  A machine floating point value is
modelled by the exact real it approximates; see DESIGN.md for what that
leaves out."""
from fractions import Fraction
from poly import Poly, Sym


class R:
    __slots__ = ("op", "a", "b", "id", "nd", "z")

    def __repr__(self):
        return show(self)


_tab = {}


def reset():
    _tab.clear()


def _mk(op, a, b):
    k = (op, a.id if a.__class__ is R else a, b.id if b.__class__ is R else b)
    r = _tab.get(k)
    if r is None:
        r = R()
        r.op, r.a, r.b = op, a, b
        r.id = len(_tab)
        r.nd = None
        r.z = None
        _tab[k] = r
    return r


def const(f):
    if f.__class__ is not Fraction:
        f = Fraction(f)
    return _mk("c", f, None)


def sym(name, key=None):
    return _mk("s", name, key)


def from_int(p):
    if p.__class__ is int:
        return const(p)
    return _mk("i", p, None)


def is_c(x):
    return x.op == "c"


def add(x, y):
    if x.op == "c":
        if y.op == "c":
            return const(x.a + y.a)
        if x.a == 0:
            return y
    elif y.op == "c" and y.a == 0:
        return x
    if x.op == "i" and y.op == "i":
        return from_int(x.a + y.a)
    if x.op == "i" and y.op == "c" and y.a.denominator == 1:
        return from_int(x.a + int(y.a))
    if y.op == "i" and x.op == "c" and x.a.denominator == 1:
        return from_int(y.a + int(x.a))
    return _mk("+", x, y)


def neg(x):
    if x.op == "c":
        return const(-x.a)
    if x.op == "n":
        return x.a
    if x.op == "i":
        return from_int(-x.a)
    return _mk("n", x, None)


def sub(x, y):
    return add(x, neg(y))


def mul(x, y):
    if x.op == "c" and y.op == "c":
        return const(x.a * y.a)
    if y.op == "c":
        x, y = y, x
    if x.op == "c":
        if x.a == 1:
            return y
        if x.a == 0:
            return x
        if x.a == -1:
            return neg(y)
    if x.op == "n":
        if y.op == "n":
            return mul(x.a, y.a)
        return neg(mul(x.a, y))
    if y.op == "n":
        return neg(mul(x, y.a))
    return _mk("*", x, y)


class DivByZero(Exception):
    pass


def div(x, y):
    if y.op == "c":
        if y.a == 0:
            raise DivByZero()
        if x.op == "c":
            return const(x.a / y.a)
        return mul(const(1 / y.a), x)
    if x.op == "n":
        return neg(div(x.a, y))
    if y.op == "n":
        return neg(div(x, y.a))
    return _mk("/", x, y)


def fun(name, x):
    return _mk("f", name, x)


def show(x, d=0):
    if d > 12:
        return "..."
    o = x.op
    if o == "c":
        return str(x.a)
    if o == "s":
        return f"{x.a}[{x.b}]" if x.b is not None else x.a
    if o == "i":
        return f"int({x.a})"
    if o == "n":
        return f"-({show(x.a, d+1)})"
    if o == "f":
        return f"{x.a}({show(x.b, d+1)})"
    return f"({show(x.a, d+1)} {o} {show(x.b, d+1)})"


def leaves(x, acc=None, seen=None):
    """symbol leaves in first-visit order (op s) and int leaves (op i)"""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    st = [x]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op in "si":
            acc.append(n)
        elif n.op == "f":
            st.append(n.b)
        elif n.op == "n":
            st.append(n.a)
        elif n.op != "c":
            st.append(n.b)
            st.append(n.a)
    return acc


def evaluate(x, env, ienv, memo=None):
    """float evaluation; env: sym node id -> float, ienv: int sym idx -> int"""
    memo = {} if memo is None else memo
    st = [x]
    while st:
        n = st[-1]
        if n.id in memo:
            st.pop()
            continue
        o = n.op
        if o == "c":
            memo[n.id] = n.a
        elif o == "s":
            memo[n.id] = env(n)
        elif o == "i":
            memo[n.id] = Fraction(n.a.eval(ienv))
        else:
            ch = [c for c in (n.a, n.b) if c.__class__ is R]
            miss = [c for c in ch if c.id not in memo]
            if miss:
                st.extend(miss)
                continue
            v = [memo[c.id] for c in ch]
            if o == "+":
                memo[n.id] = v[0] + v[1]
            elif o == "*":
                memo[n.id] = v[0] * v[1]
            elif o == "/":
                memo[n.id] = v[0] / v[1]
            elif o == "n":
                memo[n.id] = -v[0]
            elif o == "f":
                memo[n.id] = v[0]
        st.pop()
    return memo[x.id]


# ---- simplest rational nearest to a machine constant ---------------------

def simplest_between(lo, hi):
    """simplest fraction in the closed interval [lo, hi], 0 < lo <= hi"""
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


def rationalize(x, mant=53):
    """the simplest rational within one ulp of the `mant`-bit float x"""
    if x == 0:
        return Fraction(0)
    import math
    f = Fraction(x)
    s = 1 if f > 0 else -1
    f = abs(f)
    m, e = math.frexp(float(f))
    half_ulp = Fraction(2) ** (e - mant - 1)
    lo, hi = f - 2 * half_ulp, f + 2 * half_ulp
    r = simplest_between(lo, hi)
    # keep an exact dyadic when it is about as simple
    return s * (r if r.denominator * abs(r.numerator) < 10 ** 9 else f)


def subst(x, sig, memo):
    """apply an integer substitution to every array index / integer leaf"""
    st = [x]
    while st:
        n = st[-1]
        if n.id in memo:
            st.pop()
            continue
        o = n.op
        if o == "c":
            memo[n.id] = n
        elif o == "s":
            memo[n.id] = n if n.b.__class__ is not Poly else sym(n.a, n.b.subst(sig))
        elif o == "i":
            memo[n.id] = from_int(n.a.subst(sig))
        else:
            ch = [c for c in (n.a, n.b) if c.__class__ is R]
            miss = [c for c in ch if c.id not in memo]
            if miss:
                st.extend(miss)
                continue
            v = [memo[c.id] for c in ch]
            if o == "+":
                r = add(*v)
            elif o == "*":
                r = mul(*v)
            elif o == "/":
                r = div(*v)
            elif o == "n":
                r = neg(*v)
            else:
                r = fun(n.a, v[-1])
            memo[n.id] = r
        st.pop()
    return memo[x.id]
