"""Scenarios (see sspec.py) of the routines that have no C++ counterpart and of
the laws that tie several kernels together."""
from fractions import Fraction
from itertools import product

from kernels import AX

B = 1000


def box(S, n, lo="lo", b=B):
    """patch box: symbolic position, extents n"""
    l = [S.int(f"{lo}{k}", -b, b) for k in range(len(n))]
    return l, [x + m - 1 for x, m in zip(l, n)]


def grow(l, h, g):
    return [(a - g, b + g) for a, b in zip(l, h)]


def shift(c, o):
    return tuple(x + y for x, y in zip(c, o))


def cells(l, n):
    for t in product(*[range(m) for m in reversed(n)]):
        yield tuple(a + x for a, x in zip(l, reversed(t)))


def lohi(l, h):
    return [x for p in zip(l, h) for x in p]


STAR = {d: [(0,) * d] + [tuple(s if k == a else 0 for k in range(d)) for a in range(d) for s in (-1, 1)] for d in (1, 2, 3)}
FULL = {d: [(0,) * d] + [o for o in product((-1, 0, 1), repeat=d) if any(o)] for d in (1, 2, 3)}
WIDE = {1: [(0,), (2,), (-2,), (1,)], 2: [(0, 0), (2, -1), (-2, 0), (0, 2), (1, 1)], 3: [(0, 0, 0), (2, 0, -1), (-1, 2, 1), (0, -2, 0), (1, 1, 2)]}
NINE = [(0, 0), (-1, 0), (1, 0), (0, -1), (0, 1), (-1, -1), (1, -1), (-1, 1), (1, 1)]
OFFS = {"star": STAR, "full": FULL, "wide": WIDE}


def flatten(off):
    return [x for o in off for x in o]


def soffs(S, n, d, r):
    """symbolic offsets"""
    return [tuple(S.int(f"o{s}_{k}", -r, r) for k in range(d)) for s in range(n)]


# --------------------------------------------------------------- C24
def apply_stencil(S, d, n, m, point):
    """r = b f + a sum_s stencil_s u(. + offset_s)"""
    n = n[:d]
    lo, hi = box(S, n)
    fg, ug, rg = S.int("fg", 0, 6), S.int("ug", 0, 6), S.int("rg", 0, 6)
    off = soffs(S, m, d, 3)
    for o in off:
        for x in o:                                  # the offsets stay within u's ghost cells
            S.require(ug - x)
            S.require(ug + x)
    st = S.arr("st", (1, m), *grow(lo, hi, 0))
    f, u, r = (S.arr(q, *grow(lo, hi, g)) for q, g in (("f", fg), ("u", ug), ("r", rg)))
    a, b = S.real("a"), S.real("b")
    val = lambda c: b.v * f.old(*c) + sum((a.v * st.old(s + 1, *c) * u.old(*shift(c, o)) for s, o in enumerate(off)), 0)
    pre = lohi(lo, hi)
    rest = [m, flatten(off), st, a, b, fg, f, ug, u, rg, r]
    if point:
        c = tuple(l + S.int(f"p{k}", 0, n[k] - 1) for k, l in enumerate(lo))
        S.f(f"applystencil{d}d", f"applystencilatpoint{d}d", *pre, *c, *rest)
        S.final(r, {c: val(c)})
    else:
        S.f(f"applystencil{d}d", f"applystencilonpatch{d}d", *pre, *rest)
        S.final(r, {c: val(c) for c in cells(lo, n)})
    S.unchanged(st, f, u, a, b)


# --------------------------------------------------------------- C25
def system_rhs(S, d, n, m, extra):
    """f += sum over the first m entries of stencil_s u(. + offset_s)"""
    n = n[:d]
    lo, hi = box(S, n)
    fg, ug = S.int("fg", 0, 6), S.int("ug", 0, 6)
    off = soffs(S, m, d, 3)
    for o in off:
        for x in o:
            S.require(ug - x)
            S.require(ug + x)
    st = S.arr("st", (1, m + extra), *grow(lo, hi, 0))
    f, u = (S.arr(q, *grow(lo, hi, g)) for q, g in (("f", fg), ("u", ug)))
    S.f(f"celladjustrhs{d}d", f"celladjustsystemrhspatch{d}d", *lo, *hi, m, flatten(off), m + extra, st, ug, u, fg, f)
    S.final(f, {c: f.old(*c) + sum((st.old(s + 1, *c) * u.old(*shift(c, o)) for s, o in enumerate(off)), 0) for c in cells(lo, n)})
    S.unchanged(st, u)


def side_rhs(S, d, n, dr, side, seg, which):
    """the stencil entries that point through the side leave the matrix for the right-hand side"""
    n = n[:d]
    lo, hi = box(S, n)
    g = S.int("g", 1, 5)
    off = OFFS[which][d]
    m = len(off)
    p0, p1 = [], []
    for k in range(d):
        if k == dr:
            x = lo[k] - 1 + S.int("q", 0, n[k] - 1) if side == 0 else hi[k] + 1 - S.int("q", 0, n[k] - 1)
            p0.append(x)
            p1.append(x)
        else:
            w = min(seg, n[k])
            x = lo[k] + S.int(f"q{k}", 0, n[k] - w)
            p0.append(x)
            p1.append(x + w - 1)
    st = S.arr("st", (0, m - 1), *grow(lo, hi, 0))
    u, rhs = S.arr("u", *grow(lo, hi, g)), S.arr("rhs", *grow(lo, hi, 0))
    S.f(f"celladjustrhs{d}d", f"adjcellcrsfinebdryrhs{d}d", *lo, *hi, *p0, *p1, *([dr] if d > 1 else []), side, m, flatten(off), st, g, u, rhs)
    want = {}
    for c in cells(p0, [1 if k == dr else min(seg, n[k]) for k in range(d)]):
        e = tuple(x + (1 - 2 * side if k == dr else 0) for k, x in enumerate(c))
        v = rhs.old(*e)
        for s, o in enumerate(off):
            if o[dr] == 2 * side - 1:
                v = v - st.old(s, *e) * u.old(*shift(e, o))
        want[e] = v
    S.final(rhs, want)
    S.unchanged(st, u)


# --------------------------------------------------------------- C26
def smooth_boxes(S, n, even=None):
    """patch box inside the (independent) boxes of stencil, f and u"""
    d = len(n)
    lo = [S.int(f"lo{k}", -B, B) if even is None or k == 0 else 2 * S.int(f"h{k}", -B, B) + even[k] for k in range(d)]
    hi = [l + m - 1 for l, m in zip(lo, n)]

    def around(q, most):
        return [(l - S.int(f"{q}l{k}", 0, most), h + S.int(f"{q}h{k}", 0, most)) for k, (l, h) in enumerate(zip(lo, hi))]
    return lo, hi, around


def wide_enough(S, ub, lo, hi, off):
    """u's box holds every neighbour the stencil names"""
    return [(a - max(0, -min(o[k] for o in off)), b + max(0, max(o[k] for o in off))) for k, (a, b) in enumerate(ub)]


def flat_box(b):
    return [x for p in b for x in p]


def smoother_setup(S, d, n, off, even=None):
    lo, hi, around = smooth_boxes(S, n, even)
    m = len(off)
    sb, fb = around("s", 2), around("f", 3)
    ub = wide_enough(S, around("u", 2), lo, hi, off)
    st = S.arr("st", (0, m - 1), *sb)
    f, u = S.arr("f", *fb), S.arr("u", *ub)
    return lo, hi, m, sb, fb, ub, st, f, u


def damping(S, d, lo):
    return Fraction(2, 3) if d == 1 else Fraction(4, 5)


def jacobi(S, d, n, which):
    n = n[:d]
    off = OFFS[which][d]
    lo, hi, m, sb, fb, ub, st, f, u = smoother_setup(S, d, n, off)
    # the damping factor, as one cell shows it
    st1, f1, u1 = S.arr("st1", (0, 0), *[(0, 0)] * d), S.arr("f1", *[(0, 0)] * d), S.arr("u1", *[(0, 0)] * d)
    z = (0,) * d
    S.put(st1, (0,) + z, 1)
    S.put(f1, z, 1)
    S.put(u1, z, 0)
    one = [0, 0] * d
    S.f(f"cellsmooth{d}d", f"celljacobi{d}d", *one, 1, [0] * d, *one, st1, *one, f1, *one, u1)
    w = u1.new(*z)
    S.near_const(w, damping(S, d, lo), "damping factor")
    S.f(f"cellsmooth{d}d", f"celljacobi{d}d", *lohi(lo, hi), m, flatten(off), *flat_box(sb), st, *flat_box(fb), f, *flat_box(ub), u)
    S.final(u, {c: u.old(*c) + w * ((f.old(*c) - sum((st.old(s, *c) * u.old(*shift(c, o)) for s, o in enumerate(off)), 0)) / st.old(0, *c))
                for c in cells(lo, n)})
    S.unchanged(st, f)


def seidel(S, u, st, f, off, order):
    """each cell of `order` in turn gets the value that solves its equation"""
    now = {}
    for c in order:
        r = f.old(*c)
        for s, o in enumerate(off):
            if s:
                q = shift(c, o)
                r = r - st.old(s, *c) * (now[q] if q in now else u.old(*q))
        now[c] = r / st.old(0, *c)
    return now


def gauss_seidel(S, d, n, which):
    n = n[:d]
    off = OFFS[which][d]
    lo, hi, m, sb, fb, ub, st, f, u = smoother_setup(S, d, n, off)
    S.f(f"cellsmooth{d}d", f"cellgs{d}d", *lohi(lo, hi), m, flatten(off), *flat_box(sb), st, *flat_box(fb), f, *flat_box(ub), u)
    S.final(u, seidel(S, u, st, f, off, list(cells(lo, n))))
    S.unchanged(st, f)


def colored(lo, n, even, color):
    """cells of one colour, in storage order"""
    out = []
    for t in product(*[range(m) for m in reversed(n)]):
        t = tuple(reversed(t))
        if (t[0] + sum(t[1:]) + sum(even[1:]) + color) % 2 == 0:
            out.append(tuple(a + x for a, x in zip(lo, t)))
    return out


RB = {("5", 2): STAR[2], ("9", 2): NINE, ("7", 3): STAR[3]}


def red_black(S, d, n, which, even, color):
    n, even = n[:d], even[:d]
    fixed = (which, d) in RB
    off = RB[which, d] if fixed else OFFS[which][d]
    lo, hi, m, sb, fb, ub, st, f, u = smoother_setup(S, d, n, off, even)
    name = f"cells{which}rbgs{d}d" if fixed else f"cellrbgs{d}d"
    S.f(f"cellsmooth{d}d", name, *lohi(lo, hi), color, *([] if fixed else [m, flatten(off)]), *flat_box(sb), st, *flat_box(fb), f, *flat_box(ub), u)
    S.final(u, seidel(S, u, st, f, off, colored(lo, n, even, color)))
    S.unchanged(st, f)


def block_jacobi(S, d, n, size):
    n = n[:d]
    lo, hi = box(S, n)
    fg, ug = S.int("fg", 0, 4), S.int("ug", 0, 4)
    w = damping(S, d, lo)
    m4 = f"cellblocksmooth{d}d"
    z, one = (0,) * d, [0, 0] * d
    t1, f1, u1 = (S.arr(q, *[(0, 0)] * d) for q in ("t1", "f1", "u1"))
    for a, v in ((t1, 1), (f1, 1), (u1, 0)):
        S.put(a, z, v)
    S.f(m4, f"cellblock1x1jacobi{d}d", *one, t1, 0, f1, 0, u1)
    w1 = u1.new(*z)
    S.near_const(w1, w, "damping factor")
    if size == 1:
        t = S.arr("t", *grow(lo, hi, 0))
        f, u = S.arr("f", *grow(lo, hi, fg)), S.arr("u", *grow(lo, hi, ug))
        S.f(m4, f"cellblock1x1jacobi{d}d", *lohi(lo, hi), t, fg, f, ug, u)
        S.final(u, {c: u.old(*c) + w1 * (f.old(*c) / t.old(*c)) for c in cells(lo, n)})
        S.unchanged(t, f)
    else:
        t = S.arr("t", (0, 3), *grow(lo, hi, 0))
        fs = [S.arr(f"f{k}x", *grow(lo, hi, fg)) for k in (0, 1)]
        us = [S.arr(f"u{k}x", *grow(lo, hi, ug)) for k in (0, 1)]
        S.f(m4, f"cellblock2x2jacobi{d}d", *lohi(lo, hi), t, fg, *fs, ug, *us)
        w0, w_ = {}, {}
        for c in cells(lo, n):
            a, b, e, g = (t.old(q, *c) for q in range(4))
            det = a * g - b * e
            x, y = (q.old(*c) for q in fs)
            w0[c] = us[0].old(*c) + w1 * (g * x - b * y) / det
            w_[c] = us[1].old(*c) + w1 * (a * y - e * x) / det
        S.final(us[0], w0)
        S.final(us[1], w_)
        S.unchanged(t, *fs)
