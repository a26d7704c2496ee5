"""Argument tables of every kernel that exists both as C++ and as Fortran
reference.  Roles (positional, identical on both sides):

  i0 i1 j0 ...   patch box            ai0 bi0 pi0 ci0 ...  further boxes
  alpha beta dirf neuf r ...          scalars / flags
  *name          real array           #name   integer array
"""
AX = "ijk"


def lohi(d, p=""):          # i0 i1 j0 j1
    return [f"{p}{a}{s}" for a in AX[:d] for s in (0, 1)]


def lowhigh(d, p=""):       # i0 j0 i1 j1
    return [f"{p}{a}{s}" for s in (0, 1) for a in AX[:d]]


class K:
    def __init__(s, group, d, cfile, cname, m4, fname, params):
        s.group, s.d, s.cfile, s.m4, s.fname = group, d, cfile, m4, fname
        s.cname = cname                     # (class, method)
        s.params = params
        s.id = f"{cname[1]}{d}d"

    def cmangled(s, t="d"):
        c, m = s.cname
        return f"{len(c)}{c}I{t}E{len(m)}{m}E"


def table():
    out = []

    def add(group, d, cfile, cls, m, m4, f, params):
        out.append(K(group, d, cfile, (cls, m), m4, f, params.split() if isinstance(params, str) else params))

    for d in (1, 2, 3):
        B, LH = lohi(d), lowhigh(d)
        F = [f"*f{k}" for k in range(d)]
        Bc = [f"*b{k}" for k in range(d)]
        # ---- flux
        c, cls, m4 = f"cdf_{d}d_cuda.cpp", f"cdf_{d}d_cuda", f"celldiffusionflux{d}d"
        add("flux", d, c, cls, "flux", m4, f"celldiffusionflux{d}d", LH + ["*dx"] + Bc + ["ugcw", "*u"] + F)
        add("flux", d, c, cls, "poisson_flux", m4, f"cellpoissonflux{d}d", LH + ["*dx", "ugcw", "*u"] + F)
        # ---- apply
        c, cls, m4 = f"cd_apply_{d}d_cuda.cpp", f"cd_apply_{d}d_cuda", f"celldiffusionapply{d}d"
        A = ["agcw", "*a"]
        U = ["ugcw", "*u"]
        R = ["fgcw", "*f"]
        T = ["rgcw", "*res"]
        for m, f, ps in (("diffusion_v1_res", "celldiffusionv1res", ["alpha", "beta", "*dx"] + A + U + R + F + T),
                         ("diffusion_v2_res", "celldiffusionv2res", ["alpha", "beta", "*dx"] + U + R + F + T),
                         ("poisson_v1_res", "cellpoissonv1res", ["beta", "*dx"] + R + F + T),
                         ("diffusion_v1_apply", "celldiffusionv1apply", ["alpha", "beta", "*dx"] + A + U + F + T),
                         ("diffusion_v2_apply", "celldiffusionv2apply", ["alpha", "beta", "*dx"] + U + F + T),
                         ("poisson_v2_apply", "cellpoissonv2apply", ["beta", "*dx"] + F + T)):
            add("apply", d, c, cls, m, m4, f + f"{d}d", B + ps)
        # ---- stencil
        c, cls, m4 = f"cd_stencil_{d}d_cuda.cpp", f"cd_stencil_{d}d_cuda", f"celldiffusionstencilcoeffs{d}d"
        S = ["sgcw", "*st"]
        P = lowhigh(d, "p")
        D = ["dir"] if d > 1 else []
        for m, f, ps in (
                ("offdiag", "celldiffusionoffdiag", lowhigh(d, "b") + ["*dx", "beta"] + Bc + S),
                ("poisson_offdiag", "cellpoissonoffdiag", ["*dx", "beta"] + S),
                ("v1diag", "celldiffusionv1diag", lowhigh(d, "a") + ["alpha", "*a"] + S),
                ("v2diag", "celldiffusionv2diag", ["alpha"] + S),
                ("poisson_diag", "cellpoissondiag", S)):
            add("stencil", d, c, cls, m, m4, f + f"{d}d", LH + ps)
        for m, f, ps in (
                ("adj_diag", "adjcelldiffusiondiag", P + D + ["side", "btype", "exOrder", "*dx", "beta"] + Bc + S),
                ("adj_poisson_diag", "adjcellpoissondiag", P + D + ["side", "btype", "exOrder", "*dx", "beta"] + S),
                ("adj_cf_diag", "adjcelldiffusioncfdiag", P + ["r"] + D + ["side", "intOrder", "*dx", "beta"] + Bc + S),
                ("adj_poisson_cf_diag", "adjcellpoissoncfdiag", P + ["r"] + D + ["side", "intOrder", "*dx", "beta"] + S),
                ("adj_offdiag", "adjcelldiffusionoffdiag",
                 P + D + ["side", "btype", "exOrder", "*dx", "dirf", "neuf", "beta"] + Bc + S),
                ("adj_poisson_offdiag", "adjcellpoissonoffdiag",
                 P + D + ["side", "btype", "exOrder", "*dx", "dirf", "neuf", "beta"] + S),
                ("adj_cf_offdiag", "adjcelldiffusioncfoffdiag", lowhigh(d, "c") + ["r"] + D + ["side", "intOrder"] + S),
                ("readj_offdiag", "readjcelldiffusionoffdiag", P + D + ["side"] + S),
                ("adj_cf_bdryrhs", "adjcelldiffusioncfbdryrhs", P + D + ["side"] + S + ["ugcw", "*u", "*rhs"])):
            add("adj", d, c, cls, m, m4, f + f"{d}d", LH + ps)
        # ---- boundary corrections
        c, cls, m4 = f"cd_correct_bc_{d}d_cuda.cpp", f"cd_correct_bc_{d}d_cuda", f"cellsetcorrectionbc{d}d"
        T = ["type"] if d > 1 else []
        Dn = ["dgcw"] + [f"*d{k}" for k in range(d)]
        add("bc", d, c, cls, "set_bc", m4, f"cellsetcorrectionbc{d}d",
            B + ["*dx"] + Dn + ["ugcw", "*u", "#bLo", "#bHi", "exOrder", "face"] + T + ["btype", "alpha", "beta"])
        add("bc", d, c, cls, "set_poisson_bc", m4, f"cellsetpoissoncorrectionbc{d}d",
            B + ["*dx", "ugcw", "*u", "#bLo", "#bHi", "exOrder", "face"] + T + ["btype", "alpha", "beta"])
        if d == 2:
            add("bc", d, c, cls, "set_corner_bc", m4, "cellsetinteriorcornerbc2d",
                B + "ugcw *dx *d0 *d1 *u #bLo #bHi exOrder face type btype".split())
            add("bc", d, c, cls, "set_homogenous_bc", m4, "cellsethomogenousbc2d",
                LH + "face #bLo #bHi exOrder *u".split())
    c, cls, m4 = "coarse_to_fine_cuda.cpp", "coarse_to_fine", "copycoarsetofine"
    bx = lohi(3, "c") + lohi(3, "f")
    bb = lohi(3, "cb") + lohi(3, "fb")
    add("c2f", 3, c, cls, "copy", m4, "copycoarsetofine3d", bx + ["axis"] + bb + ["gcw", "#ratio", "*cdata", "*fdata"])
    add("c2f", 3, c, cls, "copy_corner", m4, "copycoarsetofinecorner3d", bx + bb + ["gcw", "*cdata", "*fdata"])
    return out
