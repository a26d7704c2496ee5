"""Integer polynomials over named integer symbols, used for every symbolic
machine integer (coordinates, extents, strides, ghost widths, flags)."""


class Sym:
    """An integer unknown with a closed concrete range; optional symbolic
    upper bounds (self <= bound) sharpen non-linear reasoning."""
    __slots__ = ("name", "lo", "hi", "idx", "ub")
    table = []

    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi
        self.idx = len(Sym.table)
        self.ub = []
        Sym.table.append(self)

    def __repr__(self):
        return self.name


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    return tuple(sorted(a + b))


class Poly:
    __slots__ = ("t", "_h", "_k")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None

    @staticmethod
    def sym(s):
        return Poly({(s.idx,): 1})

    def key(self):
        k = self._k
        if k is None:
            k = self._k = tuple(sorted(self.t.items()))
        return k

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash(self.key())
        return h

    def __eq__(self, o):
        return o.__class__ is Poly and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def __add__(self, o):
        t = dict(self.t)
        if o.__class__ is int:
            if o == 0:
                return self
            c = t.get((), 0) + o
            if c:
                t[()] = c
            else:
                t.pop((), None)
            return Poly(t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                del t[m]
        return mk(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if o.__class__ is int:
            if o == 0:
                return 0
            if o == 1:
                return self
            return Poly({m: c * o for m, c in self.t.items()})
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        return mk(t)

    __rmul__ = __mul__

    def const(self):
        return self.t.get((), 0)

    def nonconst(self):
        t = dict(self.t)
        t.pop((), None)
        return Poly(t)

    def syms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def interval(self):
        lo = hi = 0
        tb = Sym.table
        for m, c in self.t.items():
            a = b = c
            i = 0
            n = len(m)
            while i < n:
                j = i
                while j < n and m[j] == m[i]:
                    j += 1
                s = tb[m[i]]
                p = j - i
                l, h = s.lo, s.hi
                if p > 1:
                    if p % 2 == 0:
                        l2, h2 = l ** p, h ** p
                        if l <= 0 <= h:
                            l, h = 0, max(l2, h2)
                        else:
                            l, h = min(l2, h2), max(l2, h2)
                    else:
                        l, h = l ** p, h ** p
                v = (a * l, a * h, b * l, b * h)
                a, b = min(v), max(v)
                i = j
            lo += a
            hi += b
        return lo, hi

    def subst(self, d):
        """d: sym idx -> int/Poly"""
        if not any(s in d for m in self.t for s in m):
            return self
        r = 0
        for m, c in self.t.items():
            term = c
            for s in m:
                term = term * (d[s] if s in d else Poly({(s,): 1}))
            r = r + term
        return r

    def eval(self, env):
        r = 0
        for m, c in self.t.items():
            for s in m:
                c = c * env[s]
            r += c
        return r

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (-len(x[0]), x[0])):
            n = "*".join(Sym.table[s].name for s in m)
            out.append(f"{c}" if not n else (n if c == 1 else f"{c}*{n}"))
        return " + ".join(out)


def mk(t):
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def divmod_poly(a, d):
    """multivariate division a = d*q + r by lexicographic leading monomial."""
    if d.__class__ is int:
        q, r = {}, {}
        if a.__class__ is int:
            raise ValueError
        for m, c in a.t.items():
            qq, rr = divmod(c, d)
            if m != ():
                # keep non divisible parts entirely in the remainder
                if rr:
                    r[m] = c
                    continue
            if qq:
                q[m] = qq
            if rr:
                r[m] = rr
        return mk(q), mk(r)
    if a.__class__ is int:
        return 0, a

    def key(m):
        return (len(m), m)
    lead = max(d.t, key=key)
    lc = d.t[lead]
    q = 0
    r = 0
    p = a
    from collections import Counter
    lcnt = Counter(lead)
    n = 0
    while p.__class__ is not int or p != 0:
        n += 1
        if n > 200:
            return None
        if p.__class__ is int:
            r = r + p
            break
        m = max(p.t, key=key)
        c = p.t[m]
        mc = Counter(m)
        if c % lc == 0 and all(mc[s] >= k for s, k in lcnt.items()):
            rest = mc - lcnt
            f = mk({tuple(sorted(rest.elements())): c // lc})
            q = q + f
            p = p - f * d
        else:
            f = mk({m: c})
            r = r + f
            p = p - f
    return q, r
