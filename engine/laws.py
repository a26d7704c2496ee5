"""Laws that tie several kernels together (scenarios, see sspec.py).

Each is stated on the kernels' results, independently of the reference text:
the assembled matrix against the matrix-free operator, conservation, the
boundary formulas and their elimination from the matrix, node against cell
kernels, behaviour under reflections and exchanges of axes."""
from fractions import Fraction
from itertools import product

import kernels
from scen import B, STAR, box, cells, grow, lohi, shift

AX = kernels.AX


def unit(d, k, s=1):
    return tuple(s if a == k else 0 for a in range(d))


def cyc(k, d):
    """index order of the faces normal to axis k"""
    return [(k + a) % d for a in range(d)]


def face(c, k, up=0):
    """coordinates, in array order, of the face of cell c normal to k"""
    d = len(c)
    return tuple(c[a] + (up if a == k else 0) for a in cyc(k, d))


def cellarr(S, name, lo, hi, g):
    return S.arr(name, *grow(lo, hi, g))


def facearr(S, name, k, lo, hi, g=0):
    return S.arr(name, *[(lo[a] - g, hi[a] + g + (1 if a == k else 0)) for a in cyc(k, len(lo))])


def starr(S, name, lo, hi, g):
    return S.arr(name, (0, 2 * len(lo)), *grow(lo, hi, g))


def named(d, lo, hi, extra=None, **kw):
    """arguments of a kernel by parameter name"""
    v = {}
    for a in range(d):
        v[AX[a] + "0"], v[AX[a] + "1"] = lo[a], hi[a]
    for p, (l, h) in (extra or {}).items():
        for a in range(d):
            v[p + AX[a] + "0"], v[p + AX[a] + "1"] = l[a], h[a]
    v.update(kw)
    return v


def go(S, kid, impl, v):
    k = S.spec.K[kid]
    if impl == "n":                                  # node-centred counterpart
        name = k.fname.replace("cell", "node")
        return S.f(k.m4.replace("cell", "node"), name, *NODE(k, v))
    S.kernel(kid, impl, *[v[p.lstrip("*#")] for p in k.params])


def NODE(k, v):
    return [v[p.lstrip("*#")] for p in k.params if p != "sgcw"]


class Op:
    """coefficients and fields of one patch"""

    def __init__(self, S, d, n, ug=(1, 4), sg=(0, 3), tag=""):
        self.S, self.d, self.n = S, d, n
        self.lo, self.hi = box(S, n)
        self.dx = S.arr("dx", (0, d - 1))
        self.b = [facearr(S, f"b{k}", k, self.lo, self.hi) for k in range(d)]
        self.ugcw, self.sgcw, self.agcw, self.rgcw = S.int("ugcw", *ug), S.int("sgcw", *sg), S.int("agcw", 0, 3), S.int("rgcw", 0, 3)
        self.u = cellarr(S, "u", self.lo, self.hi, self.ugcw)
        self.a = cellarr(S, "a", self.lo, self.hi, self.agcw)
        self.res = cellarr(S, "res", self.lo, self.hi, self.rgcw)
        self.f = [facearr(S, f"f{k}", k, self.lo, self.hi) for k in range(d)]
        self.st = starr(S, "st", self.lo, self.hi, self.sgcw)
        self.alpha, self.beta = S.real("alpha"), S.real("beta")
        for k in range(d):
            S.nonzero(self.dx.old(k))

    def args(self, **kw):
        d = self.d
        v = named(d, self.lo, self.hi, {"b": (self.lo, self.hi), "a": ([x - self.agcw for x in self.lo], [x + self.agcw for x in self.hi])},
                  dx=self.dx, ugcw=self.ugcw, u=self.u, sgcw=self.sgcw, st=self.st, alpha=self.alpha, beta=self.beta, agcw=self.agcw, a=self.a,
                  rgcw=self.rgcw, res=self.res)
        for k in range(d):
            v[f"b{k}"], v[f"f{k}"] = self.b[k], self.f[k]
        v.update(kw)
        return v

    def cells(self):
        return list(cells(self.lo, self.n))

    def st_row(self, c):
        return [self.st.new(s, *c) for s in range(2 * self.d + 1)]


# --------------------------------------------------------------- C27, C28
FORMS = {"v1": ("flux", "diffusion_v1_apply", "offdiag", "v1diag"),
         "v2": ("flux", "diffusion_v2_apply", "offdiag", "v2diag"),
         "poisson": ("poisson_flux", "poisson_v2_apply", "poisson_offdiag", "poisson_diag")}


def assemble(S, o, form, impl):
    _, _, off, diag = FORMS[form]
    go(S, f"{off}{o.d}d", impl, o.args())
    go(S, f"{diag}{o.d}d", impl, o.args())


def apply(S, o, form, impl):
    fl, ap, _, _ = FORMS[form]
    go(S, f"{fl}{o.d}d", impl, o.args())
    go(S, f"{ap}{o.d}d", impl, o.args())


def matrix_action(S, d, n, form, impl):
    """the assembled matrix does to u what the matrix-free operator does"""
    n = n[:d]
    o = Op(S, d, n)
    assemble(S, o, form, impl)
    apply(S, o, form, impl)
    for c in o.cells():
        row = o.st_row(c)
        S.same(o.res.new(*c), sum((w * o.u.old(*shift(c, e)) for w, e in zip(row, STAR[d])), 0), "matrix row times u")
    S.unchanged(o.u, o.a, *o.b)


def residual(S, d, n, form, impl):
    """residual = right-hand side minus operator"""
    n = n[:d]
    o = Op(S, d, n)
    fg = S.int("fgcw", 0, 3)
    f, r2 = cellarr(S, "f", o.lo, o.hi, fg), cellarr(S, "r2", o.lo, o.hi, o.rgcw)
    apply(S, o, form, impl)
    res = {"v1": "diffusion_v1_res", "v2": "diffusion_v2_res", "poisson": "poisson_v1_res"}[form]
    go(S, f"{res}{d}d", impl, o.args(fgcw=fg, f=f, res=r2))
    for c in o.cells():
        S.same(r2.new(*c), f.old(*c) - o.res.new(*c), "residual")


def matrix_shape(S, d, n, form, impl):
    """symmetric off-diagonals, row sums equal to the absorption term, conservation"""
    n = n[:d]
    o = Op(S, d, n)
    assemble(S, o, form, impl)
    apply(S, o, form, impl)
    inside = set(product(*[range(m) for m in n]))
    tot = 0
    for t in product(*[range(m) for m in n]):
        c = tuple(a + x for a, x in zip(o.lo, t))
        row = o.st_row(c)
        absorb = o.alpha.v * o.a.old(*c) if form == "v1" else o.alpha.v if form == "v2" else 0
        S.same(sum(row[1:], row[0]), absorb, "row sum")
        for k in range(d):
            if shift(t, unit(d, k)) in inside:
                S.same(row[2 + 2 * k], o.st.new(1 + 2 * k, *shift(c, unit(d, k))), "symmetric entries")
        v = o.res.new(*c)
        tot = tot + (v if form == "poisson" else v - absorb * o.u.old(*c))
    for k in range(d):
        for t in product(*[range(m) for m in n]):
            c = tuple(x + y for x, y in zip(o.lo, t))
            if t[k] == n[k] - 1:
                tot = tot + o.beta.v * o.f[k].new(*face(c, k, 1)) / o.dx.old(k)
            if t[k] == 0:
                tot = tot - o.beta.v * o.f[k].new(*face(c, k)) / o.dx.old(k)
    S.same(tot, 0, "sum over the patch against the fluxes through its boundary")




# --------------------------------------------------------------- C29
class Bc:
    """a boundary segment: the ghost cells of one face, edge or corner"""

    def __init__(self, S, d, n, fixed, seg, depth, ug=(1, 4)):
        self.S, self.d, self.n = S, d, n
        self.lo, self.hi = box(S, n)
        self.dx = S.arr("dx", (0, d - 1))
        self.ugcw, self.dgcw = S.int("ugcw", *ug), S.int("dgcw", 0, 2)
        self.u = cellarr(S, "u", self.lo, self.hi, self.ugcw)
        self.dc = [facearr(S, f"d{k}", k, self.lo, self.hi, self.dgcw) for k in range(d)]
        self.p0, self.p1, self.w = [], [], []
        for k in range(d):
            if k in fixed:
                q = S.int(f"q{k}", 0, max(0, n[k] - depth))
                x = self.lo[k] - 1 + q if fixed[k] == 0 else self.hi[k] + 1 - q
                self.p0.append(x)
                self.p1.append(x)
                self.w.append(1)
            else:
                w = min(seg, n[k])
                x = self.lo[k] + S.int(f"q{k}", 0, n[k] - w)
                self.p0.append(x)
                self.p1.append(x + w - 1)
                self.w.append(w)

    def cells(self):
        return list(cells(self.p0, self.w))

    def args(self, **kw):
        v = named(self.d, self.lo, self.hi, dx=self.dx, dgcw=self.dgcw, ugcw=self.ugcw, gcw=self.ugcw, u=self.u, bLo=self.p0, bHi=self.p1)
        for k in range(self.d):
            v[f"d{k}"] = self.dc[k]
        v.update(kw)
        return v


def edge_faces(d):
    """(type, face) -> {axis: side} of edges and corners"""
    if d == 2:
        return {(2, f): {0: f & 1, 1: f >> 1} for f in range(4)}
    if d == 3:
        e = {(2, 4 * i + q): {a: q & 1, b: q >> 1} for i, (a, b) in enumerate(((0, 1), (0, 2), (1, 2))) for q in range(4)}
        e.update({(3, f): {0: f & 1, 1: (f >> 1) & 1, 2: f >> 2} for f in range(8)})
        return e
    return {}


def ghost_law(S, g, u1, u2, btype, order, alpha, b, beta, h):
    """what holds for the ghost value g of a boundary condition"""
    if btype == 0:
        S.same(g, {0: 0, 1: -u1, 2: -2 * u1 + u2 * Fraction(1, 3)}[order] if S.symbolic else {0: 0, 1: -u1, 2: -2 * u1 + u2 / 3}[order], "Dirichlet ghost value")
    elif btype == 1:
        S.same(g, u1, "Neumann ghost value")
    elif order == 1:
        S.same(2 * alpha * b * (g - u1) + beta * h * (g + u1), 0, "Robin condition at the boundary face")
    else:
        S.same(8 * alpha * b * (g - u1) + beta * h * (3 * g + 6 * u1 - u2), 0, "Robin condition at the boundary face")


def ghosts(S, d, n, fc, btype, order, seg, form, impl):
    """ghost values of a face satisfy the discretised boundary condition"""
    n = n[:d]
    k, side = fc // 2, fc % 2
    B_ = Bc(S, d, n, {k: side}, seg, 2)
    al, be = S.real("alpha"), S.real("beta")
    h = B_.dx.old(k)
    alpha, beta = al.v, be.v
    if d == 1 and form == "poisson" and btype == 4:      # 1D constant coefficient: fixed condition 2 u' + u
        alpha, beta = 2, 1
    bval = {c: 1 if form == "poisson" else B_.dc[k].old(*face(c, k, 1 - side)) for c in B_.cells()}
    if btype == 4:
        for b in bval.values():
            S.nonzero((2 if order == 1 else 8) * alpha * b + (1 if order == 1 else 3) * beta * h)
    go(S, f"{'set_poisson_bc' if form == 'poisson' else 'set_bc'}{d}d", impl, B_.args(exOrder=order, face=fc, type=1, btype=btype, alpha=al, beta=be))
    for c in B_.cells():
        e = unit(d, k, 1 - 2 * side)
        c1 = shift(c, e)
        ghost_law(S, B_.u.new(*c), B_.u.old(*c1), B_.u.old(*shift(c1, e)), btype, order, alpha, bval[c], beta, h)
    S.final(B_.u, {c: None for c in B_.cells()})
    S.unchanged(*B_.dc)


def corners(S, d, n, type_, fc, seg, form, impl):
    """edge and corner ghost values continue the neighbours bilinearly"""
    n = n[:d]
    fixed = edge_faces(d)[type_, fc]
    B_ = Bc(S, d, n, fixed, seg, 1)
    al, be = S.real("alpha"), S.real("beta")
    go(S, f"{'set_poisson_bc' if form == 'poisson' else 'set_bc'}{d}d", impl, B_.args(exOrder=1, face=fc, type=type_, btype=0, alpha=al, beta=be))
    ax = sorted(fixed)[:2]
    e = [unit(d, k, 1 - 2 * fixed[k]) for k in ax]
    S.final(B_.u, {c: B_.u.old(*shift(c, e[0])) + B_.u.old(*shift(c, e[1])) - B_.u.old(*shift(shift(c, e[0]), e[1])) for c in B_.cells()})


def extrapolated(S, n, type_, fc, seg):
    """C33: ghost cells continue the interior linearly (faces) or bilinearly (edges, corners)"""
    fixed = {fc // 2: fc % 2} if type_ == 1 else edge_faces(3)[type_, fc]
    B_ = Bc(S, 3, n, fixed, seg, 2 if type_ == 1 else 1)
    S.f("copycoarsetofine", "linearextrap", *lohi(B_.lo, B_.hi), B_.ugcw, B_.u, B_.p0, B_.p1, fc, type_)
    old = B_.u.old
    if type_ == 1:
        (k, side), = fixed.items()
        e = unit(3, k, 1 - 2 * side)
        S.final(B_.u, {c: 2 * old(*shift(c, e)) - old(*shift(shift(c, e), e)) for c in B_.cells()})
    else:
        e = [unit(3, k, 1 - 2 * fixed[k]) for k in sorted(fixed)[:2]]
        S.final(B_.u, {c: old(*shift(c, e[0])) + old(*shift(c, e[1])) - old(*shift(shift(c, e[0]), e[1])) for c in B_.cells()})


def interior_corner(S, n, fc, impl):
    fixed = edge_faces(2)[2, fc]
    B_ = Bc(S, 2, n[:2], fixed, 1, 1)
    dc = [facearr(S, f"e{k}", k, B_.lo, B_.hi) for k in range(2)]
    go(S, "set_corner_bc2d", impl, B_.args(d0=dc[0], d1=dc[1], exOrder=2, face=fc, type=2, btype=0))
    e = (1 - 2 * fixed[0], 1 - 2 * fixed[1])
    S.final(B_.u, {c: -5 * B_.u.old(*shift(c, e)) for c in B_.cells()})


HOM = {1: (-1,), 2: (-2, Fraction(1, 3)), 3: (-3, 1, Fraction(-1, 5)), 4: (-4, 2, Fraction(-4, 5), Fraction(1, 7))}


def homogeneous(S, n, fc, order, e0, e1, impl):
    """extrapolation through zero at the boundary face, of any order; corners copy the corner cell"""
    n = n[:2]
    lo, hi = box(S, n)
    k, side = fc // 2, fc % 2
    t = 1 - k
    u = cellarr(S, "u", lo, hi, 1)
    p0, p1 = list(lo), list(hi)
    p0[k] = p1[k] = lo[k] - 1 if side == 0 else hi[k] + 1
    p0[t], p1[t] = lo[t] + e0, hi[t] + e1
    go(S, "set_homogenous_bc2d", impl, named(2, lo, hi, face=fc, bLo=p0, bHi=p1, exOrder=order, u=u))
    want = {}

    def at(i, q):                                        # i cells inwards from the ghost line, q along it
        c = [0, 0]
        c[k] = p0[k] + (i if side == 0 else -i)
        c[t] = lo[t] + q
        return tuple(c)
    for q in range(max(0, e0), n[t] + min(0, e1)):
        want[at(0, q)] = sum(((float(w) if not S.symbolic else w) * u.old(*at(i + 1, q)) for i, w in enumerate(HOM[order])), 0)
    for q in (0, n[t] - 1):
        want[at(0, -1 if q == 0 else n[t])] = u.old(*at(1, q))
    if n[t] == 1:
        want[at(0, -1)] = want[at(0, 1)] = u.old(*at(1, 0))
    S.final(u, want)


# --------------------------------------------------------------- C30
def eliminated(S, d, n, dr, side, btype, order, seg, form, impl):
    """the matrix with the boundary condition eliminated does what the operator does to data with boundary ghosts filled"""
    n = n[:d]
    o = Op(S, d, n, ug=(1, 3))
    p = "poisson_" if form == "poisson" else ""
    p0, p1, w = [], [], []
    for k in range(d):
        if k == dr:
            x = o.lo[k] - 1 if side == 0 else o.hi[k] + 1
            p0.append(x)
            p1.append(x)
            w.append(1)
        else:
            m = min(seg, n[k])
            x = o.lo[k] + S.pick(f"q{k}", 0, n[k] - m)
            p0.append(x)
            p1.append(x + m - 1)
            w.append(m)
    ra, rb, df, nf = S.num("ra", 2), S.num("rb", 1), S.num("dirf", 2), S.real("neuf")
    two = S.int("dgcw", 0, 0)
    h = o.dx.old(dr)
    ghost = list(cells(p0, w))
    if btype == 4:
        for c in ghost:
            b = 1 if form == "poisson" else o.b[dr].old(*face(c, dr, 1 - side))
            S.nonzero((4 if order == 1 else 16) * b + (1 if order == 1 else 3) * h)
    adj = o.args(dir=dr, side=side, btype=btype, exOrder=order, dirf=df, neuf=nf)
    for a in range(d):
        adj["p" + AX[a] + "0"], adj["p" + AX[a] + "1"] = p0[a], p1[a]
    _, _, off, diag = FORMS[form]
    go(S, f"{off}{d}d", impl, o.args())
    go(S, f"adj_{p}offdiag{d}d", impl, adj)
    go(S, f"{diag}{d}d", impl, o.args())
    if btype == 4 and order == 2:
        go(S, f"adj_{p}diag{d}d", impl, adj)
    go(S, f"readj_offdiag{d}d", impl, adj)
    u = o.u
    v = o.args(bLo=p0, bHi=p1, exOrder=order, face=2 * dr + side, type=1, btype=btype, alpha=ra, beta=rb, dgcw=two)
    for k in range(d):
        v[f"d{k}"] = o.b[k]
    go(S, f"set_{p}bc{d}d", impl, v)
    apply(S, o, form, impl)
    e = unit(d, dr, 1 - 2 * side)
    for c in ghost:
        c = shift(c, e)
        row = o.st_row(c)
        S.same(row[1 + 2 * dr + side], 0, "entry of the eliminated ghost cell")
        S.same(o.res.new(*c), sum((x * u.old(*shift(c, q)) for x, q in zip(row, STAR[d])), 0), "boundary row times u")


def coarse_fine(S, d, n, dr, side, order, r, seg, form, impl):
    """at a coarse-fine interface the matrix row, with the coarse value in the ghost cell, does what the operator does with the interpolated ghost value"""
    n = n[:d]
    o = Op(S, d, n, ug=(1, 3))
    p = "poisson_" if form == "poisson" else ""
    p0, p1, w = [], [], []
    for k in range(d):
        if k == dr:
            x = o.lo[k] - 1 if side == 0 else o.hi[k] + 1
            p0.append(x)
            p1.append(x)
            w.append(1)
        else:
            m = min(seg, n[k])
            x = o.lo[k] + S.pick(f"q{k}", 0, n[k] - m)
            p0.append(x)
            p1.append(x + m - 1)
            w.append(m)
    adj = o.args(dir=dr, side=side, intOrder=order, r=r)
    for a in range(d):
        for q in "pc":
            adj[q + AX[a] + "0"], adj[q + AX[a] + "1"] = p0[a], p1[a]
    rhs = cellarr(S, "rhs", o.lo, o.hi, 0)
    adj["rhs"] = rhs
    assemble(S, o, form, impl)
    go(S, f"adj_{p}cf_diag{d}d", impl, adj)
    go(S, f"adj_cf_offdiag{d}d", impl, adj)
    go(S, f"adj_cf_bdryrhs{d}d", impl, adj)
    e = unit(d, dr, 1 - 2 * side)
    u = o.u
    F = Fraction if S.symbolic else lambda a, b: a / b
    for c in cells(p0, w):
        c1 = shift(c, e)
        uc, u1, u2 = u.old(*c), u.old(*c1), u.old(*shift(c1, e))
        g = F(1, 3) * u1 + F(2, 3) * uc if order == 1 else F(8, (r + 1) * (r + 3)) * uc + F(2 * (r - 1), r + 1) * u1 - F(r - 1, r + 3) * u2
        S.put(u, c, g)
    apply(S, o, form, impl)
    for c in cells(p0, w):
        c1 = shift(c, e)
        row = o.st_row(c1)
        S.same(o.res.new(*c1), sum((x * u.old(*shift(c1, q)) for x, q in zip(row, STAR[d])), 0), "interface row times u")
    S.final(rhs, {shift(c, e): rhs.old(*shift(c, e)) - o.st.new(1 + 2 * dr + side, *shift(c, e)) * u.old(*c) for c in cells(p0, w)})


def segment(S, lo, hi, n, dr, side, seg):
    """ghost cells along a part of a patch side"""
    p0, p1, w = [], [], []
    for k in range(len(n)):
        if k == dr:
            x = lo[k] - 1 if side == 0 else hi[k] + 1
            p0.append(x)
            p1.append(x)
            w.append(1)
        else:
            m = min(seg, n[k])
            x = lo[k] + S.pick(f"q{k}", 0, n[k] - m)
            p0.append(x)
            p1.append(x + m - 1)
            w.append(m)
    return p0, p1, w


def boxcells(lo, hi, n, g=0):
    return list(cells([x - g for x in lo], [m + 2 * g for m in n]))


# --------------------------------------------------------------- C31
APPLY = {"diffusion_v1_apply": ("nodediffusionv1apply", "alpha beta dx agcw a ugcw u fgcw f {F} wa wb rgcw res2"),
         "diffusion_v2_apply": ("nodediffusionv2apply", "alpha beta dx ugcw u fgcw f {F} wa wb rgcw res2"),
         "poisson_v2_apply": ("nodepoissonapply", "beta dx fgcw f {F} wa wb rgcw res2")}


def node_twin(S, kid, n, flags, seg):
    """a node-centred routine does what its cell-centred counterpart does"""
    k = S.spec.K[kid]
    d = k.d
    n = n[:d]
    m = k.cname[1]
    o = Op(S, d, n, ug=(1, 3), sg=(0, 0))
    v = o.args(**dict(flags))
    if k.group == "apply":
        name, ps = APPLY[m]
        fg = S.int("fgcw", 0, 2)
        w2 = dict(v, fgcw=fg, f=cellarr(S, "f", o.lo, o.hi, fg), wa=S.real("wa"), wb=S.real("wb"), res2=cellarr(S, "res2", o.lo, o.hi, o.rgcw))
        go(S, kid, "f", v)
        ps = ps.format(F=" ".join(f"f{a}" for a in range(d))).split()
        S.f(f"nodediffusionapply{d}d", f"{name}{d}d", *[v[p] for p in kernels.lohi(d)], *[w2[p] for p in ps])
        S.final(w2["res2"], {c: w2["wb"].v * w2["f"].old(*c) + w2["wa"].v * o.res.new(*c) for c in o.cells()})
        S.unchanged(w2["f"], o.u, o.a, *o.f)
        return
    if "dir" in flags or "side" in flags:
        p0, p1, _ = segment(S, o.lo, o.hi, n, flags.get("dir", 0), flags["side"], seg)
        for a in range(d):
            for q in "pc":
                v[q + AX[a] + "0"], v[q + AX[a] + "1"] = p0[a], p1[a]
    v.update(dirf=S.real("dirf"), neuf=S.real("neuf"), rhs=cellarr(S, "rhs", o.lo, o.hi, 0))
    w = dict(v)
    pairs = []
    if k.group == "flux":
        for a in range(d):
            w[f"f{a}"] = facearr(S, f"g{a}", a, o.lo, o.hi)
            for c in o.cells():
                pairs += [(o.f[a], w[f"f{a}"], face(c, a)), (o.f[a], w[f"f{a}"], face(c, a, 1))]
    else:
        w["st"], w["rhs"] = starr(S, "st2", o.lo, o.hi, 0), cellarr(S, "rhs2", o.lo, o.hi, 0)
        pairs = [(o.st, w["st"], (s,) + c) for c in o.cells() for s in range(2 * d + 1)] + [(v["rhs"], w["rhs"], c) for c in o.cells()]
    for x, y, c in pairs:
        S.image(y, c, x, c)
    go(S, kid, "f", v)
    go(S, kid, "n", w)
    for x, y, c in pairs:
        S.same(y.new(*c), x.new(*c), f"node result {x.name}")


# --------------------------------------------------------------- C32
class Turn:
    """a reflection and exchange of axes: axis k becomes perm[k], mirrored if flip[k]"""

    def __init__(self, perm, flip):
        self.perm, self.flip, self.d = perm, flip, len(perm)

    def cell(self, c):
        r = [0] * self.d
        for k in range(self.d):
            r[self.perm[k]] = -c[k] if self.flip[k] else c[k]
        return tuple(r)

    def box(self, lo, hi):
        l, h = [0] * self.d, [0] * self.d
        for k in range(self.d):
            p = self.perm[k]
            l[p], h[p] = (-hi[k], -lo[k]) if self.flip[k] else (lo[k], hi[k])
        return l, h

    def entry(self, s):
        if s == 0:
            return 0
        k, t = (s - 1) // 2, (s - 1) % 2
        return 1 + 2 * self.perm[k] + (t ^ self.flip[k])

    def sides(self, fixed):
        return {self.perm[k]: s ^ self.flip[k] for k, s in fixed.items()}

    def face_pairs(self, c, k):
        """faces of cell c normal to k and where they go: (old coordinates, new axis, new coordinates, sign)"""
        g = self.cell(c)
        for up in (0, 1):
            yield face(c, k, up), face(g, self.perm[k], up ^ self.flip[k]), -1 if self.flip[k] else 1


def turned(S, kid, impl, n, perm, flip, flags, seg):
    """running a routine on reflected, axis-exchanged data gives the reflected, axis-exchanged result"""
    k = S.spec.K[kid]
    d, m = k.d, k.cname[1]
    n = n[:d]
    T = Turn(perm[:d], flip[:d])
    G = 2
    lo, hi = box(S, n)
    lo2, hi2 = T.box(lo, hi)
    n2 = [0] * d
    for a in range(d):
        n2[T.perm[a]] = n[a]
    gw = {q: S.int(q, G, G + 2) for q in ("ugcw", "agcw", "fgcw", "rgcw")}
    gw["sgcw"], gw["dgcw"] = S.int("sgcw", 0, 2), S.int("dgcw", 0, 2)
    gw["gcw"] = gw["ugcw"]
    sc = {q: S.real(q) for q in ("alpha", "beta", "dirf", "neuf")}
    pairs, outs = [], []
    V = []
    for tag, l, h in (("", lo, hi), ("m", lo2, hi2)):
        v = named(d, l, h, {"b": (l, h), "a": ([x - gw["agcw"] for x in l], [x + gw["agcw"] for x in h])}, **gw, **sc)
        v["dx"] = S.arr(tag + "dx", (0, d - 1))
        for q in ("u", "a", "f", "res"):
            v[q] = cellarr(S, tag + q, l, h, gw[q[0] + "gcw"])
        v["rhs"] = cellarr(S, tag + "rhs", l, h, 0)
        v["st"] = starr(S, tag + "st", l, h, gw["sgcw"])
        for a in range(d):
            v[f"b{a}"] = facearr(S, f"{tag}b{a}", a, l, h)
            v[f"f{a}"] = facearr(S, f"{tag}f{a}", a, l, h)
            v[f"d{a}"] = facearr(S, f"{tag}d{a}", a, l, h, 0 if m == "set_corner_bc" else gw["dgcw"])
        v.update(flags)
        V.append(v)
    v, w = V
    for a in range(d):
        pairs.append((v["dx"], (a,), w["dx"], (T.perm[a],), 1))
    for c in boxcells(lo, hi, n, G):
        g = T.cell(c)
        for q in ("u", "a", "f", "res"):
            pairs.append((v[q], c, w[q], g, 1))
    for c in boxcells(lo, hi, n):
        g = T.cell(c)
        pairs.append((v["rhs"], c, w["rhs"], g, 1))
        for s in range(2 * d + 1):
            pairs.append((v["st"], (s,) + c, w["st"], (T.entry(s),) + g, 1))
        for a in range(d):
            for x, y, sg in T.face_pairs(c, a):
                p = T.perm[a]
                pairs += [(v[f"b{a}"], x, w[f"b{p}"], y, 1), (v[f"d{a}"], x, w[f"d{p}"], y, 1), (v[f"f{a}"], x, w[f"f{p}"], y, sg)]
    used = {p.lstrip("*#") for p in k.params}
    pairs = [p for p in pairs if p[0].name in used]
    for x, c, y, g, sg in pairs:
        S.image(y, g, x, c, sg)
    if k.group == "adj":
        dr, side = flags.get("dir", 0), flags["side"]
        p0, p1, _ = segment(S, lo, hi, n, dr, side, seg)
        P = [(p0, p1), T.box(p0, p1)]
        for x, (l, h) in zip(V, P):
            for a in range(d):
                for q in "pc":
                    x[q + AX[a] + "0"], x[q + AX[a] + "1"] = l[a], h[a]
        w["dir"], w["side"] = T.perm[dr], side ^ T.flip[dr]
    if k.group == "bc":
        t, fc = flags.get("type", 1), flags["face"]
        fixed = edge_faces(d)[t, fc] if t > 1 else {fc // 2: fc % 2}
        p0, p1 = [], []
        for a in range(d):
            if a in fixed:
                p0.append(lo[a] - 1 if fixed[a] == 0 else hi[a] + 1)
                p1.append(p0[-1])
            else:
                x = min(seg, n[a])
                p0.append(lo[a] + S.pick(f"q{a}", 0, n[a] - x))
                p1.append(p0[-1] + x - 1)
        v["bLo"], v["bHi"] = p0, p1
        w["bLo"], w["bHi"] = T.box(p0, p1)
        to = T.sides(fixed)
        w["face"] = next(f for (t2, f), x in edge_faces(d).items() if t2 == t and x == to) if t > 1 else 2 * next(iter(to)) + next(iter(to.values()))
    go(S, kid, impl, v)
    go(S, kid, impl, w)
    for x, c, y, g, sg in pairs:
        if {"flux": x.name[0] == "f" and len(x.name) == 2, "apply": x.name == "res", "stencil": x.name == "st", "adj": x.name in ("st", "rhs"), "bc": x.name == "u"}[k.group]:
            S.same(y.new(*g), sg * x.new(*c), f"turned {x.name}")


# --------------------------------------------------------------- C34
def moved(S, kid, impl, n, sub, off, flags, seg):
    """a routine gives a cell the same result whichever patch holds the cell, wherever that patch lies, however wide its ghost layers"""
    k = S.spec.K[kid]
    d, m = k.d, k.cname[1]
    n, sub, off = n[:d], list(sub[:d]), list(off[:d])
    if impl == "n" and k.group == "apply":
        return
    fixed = {}
    if k.group == "adj":
        fixed = {flags.get("dir", 0): flags["side"]}
    if k.group == "bc":
        t, fc = flags.get("type", 1), flags["face"]
        fixed = edge_faces(d)[t, fc] if t > 1 else {fc // 2: fc % 2}
    for a in range(d):
        sub[a] = min(sub[a], n[a])
        off[a] = min(off[a], n[a] - sub[a])
        if a in fixed:                                   # the sub-box reaches the side in question
            off[a] = 0 if fixed[a] == 0 else n[a] - sub[a]
    G = 2
    lo, hi = box(S, n)
    lo2, hi2 = box(S, sub, "mo")
    V = []
    for tag, l, h in (("", lo, hi), ("m", lo2, hi2)):
        gw = {q: S.int(tag + q, G, G + 2) for q in ("ugcw", "agcw", "fgcw", "rgcw")}
        gw["sgcw"], gw["dgcw"] = 0 if impl == "n" else S.int(tag + "sgcw", 0, 2), S.int(tag + "dgcw", 0, 2)
        gw["gcw"] = gw["ugcw"]
        x = S.int(tag + "bw", 0, 1)
        v = named(d, l, h, {"b": ([y - x for y in l], [y + x for y in h]), "a": ([y - gw["agcw"] for y in l], [y + gw["agcw"] for y in h])}, **gw)
        v["dx"] = S.arr(tag + "dx", (0, d - 1))
        for q in ("u", "a", "f", "res"):
            v[q] = cellarr(S, tag + q, l, h, gw[q[0] + "gcw"])
        v["rhs"] = cellarr(S, tag + "rhs", l, h, 0)
        v["st"] = starr(S, tag + "st", l, h, gw["sgcw"])
        for a in range(d):
            v[f"b{a}"] = facearr(S, f"{tag}b{a}", a, l, h, x if m == "offdiag" else 0)
            v[f"f{a}"] = facearr(S, f"{tag}f{a}", a, l, h)
            v[f"d{a}"] = facearr(S, f"{tag}d{a}", a, l, h, 0 if m == "set_corner_bc" else gw["dgcw"])
        v.update(flags)
        V.append(v)
    v, w = V
    for q in ("alpha", "beta", "dirf", "neuf"):
        v[q] = w[q] = S.real(q)
    at = [lo[a] + off[a] for a in range(d)]              # where the sub-box begins in the first patch
    back = lambda c: tuple(c[a] - lo2[a] + at[a] for a in range(d))
    pairs = [(v["dx"], (a,), w["dx"], (a,)) for a in range(d)]
    for c in boxcells(lo2, hi2, sub, G):
        pairs += [(v[q], back(c), w[q], c) for q in "uaf"]
    for c in boxcells(lo2, hi2, sub):
        o = back(c)
        pairs += [(v[q], o, w[q], c) for q in ("rhs", "res")]
        pairs += [(v["st"], (s,) + o, w["st"], (s,) + c) for s in range(2 * d + 1)]
        for a in range(d):
            for up in (0, 1):
                pairs += [(v[f"{q}{a}"], face(o, a, up), w[f"{q}{a}"], face(c, a, up)) for q in "bdf"]
    used = {p.lstrip("*#") for p in k.params}
    pairs = [p for p in pairs if p[0].name in used]
    for x, o, y, c in pairs:
        S.image(y, c, x, o)
    if fixed:
        p0, p1 = [], []
        for a in range(d):
            if a in fixed:
                p0.append(lo2[a] - 1 if fixed[a] == 0 else hi2[a] + 1)
                p1.append(p0[-1])
            else:
                x = min(seg, sub[a])
                p0.append(lo2[a] + S.pick(f"q{a}", 0, sub[a] - x))
                p1.append(p0[-1] + x - 1)
        for x, l, h in ((v, back(p0), back(p1)), (w, p0, p1)):
            x["bLo"], x["bHi"] = list(l), list(h)
            for a in range(d):
                for q in "pc":
                    x[q + AX[a] + "0"], x[q + AX[a] + "1"] = l[a], h[a]
    go(S, kid, impl, v)
    go(S, kid, impl, w)
    out = {"flux": [f"f{a}" for a in range(d)], "apply": ["res"], "stencil": ["st"], "adj": ["st", "rhs"], "bc": ["u"]}[k.group]
    for x, o, y, c in pairs:
        if x.name in out:
            S.same(y.new(*c), x.new(*o), f"{x.name} in another patch")


def smoothed_elsewhere(S, d, n, which, kind, even=None, color=0):
    """a relaxation sweep does the same wherever the patch lies (for coloured sweeps: an even number of rows away)"""
    from scen import OFFS, RB, flatten, flat_box, wide_enough
    n = n[:d]
    fixed = kind == "rb" and (which, d) in RB
    off = RB[which, d] if fixed else OFFS[which][d]
    m = len(off)
    lo = [S.int(f"lo{k}", -B, B) if kind != "rb" or k == 0 else 2 * S.int(f"h{k}", -B, B) + even[k] for k in range(d)]
    odd = [0, 1, 1][:d] if d == 3 and kind == "rb" and even[1] == color else [0] * d
    by = [S.int(f"t{k}", -500, 500) if kind != "rb" or k == 0 else 2 * S.int(f"t{k}", -300, 300) + odd[k] for k in range(d)]
    V = []
    for tag, l in (("", lo), ("m", [x + t for x, t in zip(lo, by)])):
        h = [x + e - 1 for x, e in zip(l, n)]
        sb, fb, ub = ([(x - S.int(f"{tag}{q}l{k}", 0, 2), y + S.int(f"{tag}{q}h{k}", 0, 2)) for k, (x, y) in enumerate(zip(l, h))] for q in "sfu")
        ub = wide_enough(S, ub, l, h, off)
        V.append((l, h, sb, S.arr(tag + "st", (0, m - 1), *sb), fb, S.arr(tag + "f", *fb), ub, S.arr(tag + "u", *ub)))
    v, w = V
    u, um = v[7], w[7]
    cs = list(cells(lo, n))
    mv = lambda c: shift(c, by)
    seen = set()
    for c in cs:
        S.image(w[5], mv(c), v[5], c)
        for s in range(m):
            S.image(w[3], (s,) + mv(c), v[3], (s,) + c)
        for o in off:
            q = shift(c, o)
            if tuple(str(x) for x in q) not in seen:
                seen.add(tuple(str(x) for x in q))
                S.image(um, mv(q), u, q)
    name = {"jacobi": f"celljacobi{d}d", "gs": f"cellgs{d}d", "rb": f"cells{which}rbgs{d}d" if fixed else f"cellrbgs{d}d"}[kind]
    for l, h, sb, st, fb, f, ub, x in V:
        S.f(f"cellsmooth{d}d", name, *[y for p in zip(l, h) for y in p], *([color] if kind == "rb" else []), *([] if fixed else [m, flatten(off)]),
            *flat_box(sb), st, *flat_box(fb), f, *flat_box(ub), x)
    for c in cs:
        S.same(um.new(*mv(c)), u.new(*c), "relaxed value elsewhere")
