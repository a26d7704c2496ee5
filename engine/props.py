"""property -> what its check runs"""
from hspec import HarnessSpec
from kspec import KernelSpec
from sspec import ScenSpec
import kernels
import laws
import scen

ALLK = ("flux", "apply", "stencil", "adj", "bc", "c2f")
IT = "iterators.cpp"


def T(quick, thorough):
    """parameter tuples per tier (thorough includes quick)"""
    return lambda tier: quick + ([x for x in thorough if x not in quick] if tier == "thorough" else [])


Z = {n: [(0,) * n] for n in range(1, 6)}
FIX3 = [(2, 3, 3), (3, 2, 2), (1, 4, 3), (4, 2, 2), (2, 0, 3), (0, 3, 2), (3, 2, 0)]
FIX4 = [(2, 3, 2, 3), (0, 2, 3, 2), (2, 0, 2, 3), (2, 3, 0, 2), (2, 2, 3, 0), (0, 2, 0, 3), (1, 1, 4, 0), (0, 1, 1, 3)]


def trav():
    e = []
    for f in ("trav_access", "trav_start", "trav_step", "trav_end"):
        for n in (1, 2, 3):
            e.append((IT, f"{f}_{n}", Z[n]))
    e += [(IT, "trav_step_4", T(FIX4[:4], Z[4])), (IT, "trav_end_4", FIX4), (IT, "trav_start_4", FIX4), (IT, "trav_access_4", T(FIX4[:5], FIX4))]
    for f in ("trav_walk", "trav_back"):
        e += [(IT, f + "_1", Z[1]), (IT, f + "_2", Z[2]), (IT, f + "_3", T(FIX3, Z[3])), (IT, f + "_4", [FIX4[0], FIX4[2]])]
    return HarnessSpec(e, bounds="dimensions 1-3 with every extent symbolic in [1,40], 4 dimensions with one or two symbolic extents; strides [0,500]; "
                       "every start position, every jump inside the range and to its end, sequences of up to six moves (3 dimensions: one or two symbolic extents)")


def views():
    e = []
    for p in ("01", "10", "012", "021", "102", "120", "201", "210"):
        e.append((IT, f"transpose_view_{p}", Z[len(p)]))
    e += [(IT, "transpose_view_3120", T(FIX4[:4], FIX4)), (IT, "transpose_view_1032", T(FIX4[:4], FIX4))]
    e.append((IT, "submatrix_view_1", [(0, s) for s in (1, 2, 3, 4, 5)]))
    e.append((IT, "submatrix_view_2", [(0, 0, a, b) for a, b in ((1, 1), (1, 2), (2, 1), (2, 3), (3, 2))]))
    e.append((IT, "submatrix_view_3", T([(0, 0, 0, 1, 1, 1), (0, 2, 3, 2, 1, 3), (2, 0, 3, 1, 2, 2), (3, 2, 0, 3, 3, 1)],
                                        [(0, 0, 0, 2, 1, 2), (0, 0, 0, 1, 2, 1)])))
    e.append((IT, "submatrix_view_4", T([(0, 2, 2, 3, 1, 2, 1, 1), (2, 2, 0, 2, 1, 1, 1, 2)], [(2, 0, 2, 3, 2, 1, 1, 1), (2, 3, 2, 0, 1, 1, 3, 1)])))
    return HarnessSpec(e, bounds="2-4 dimensions, extents symbolic in [1,40] (sub-boxes [1,12] of arrays up to ~100 per side), strides 1-5, partial last stride included")


def sten():
    e = []
    for f in ("sten_access", "sten_dynamic", "sten_step", "sten_end"):
        for ni in ("10", "20", "21", "30"):
            e.append((IT, f"{f}_{ni}", Z[int(ni[0])]))
        for ni in ("31", "32"):
            e.append((IT, f"{f}_{ni}", T(FIX3[:4] + [(2, 0, 3)], FIX3)))
    for f in ("sten_walk", "sten_back"):
        e += [(IT, f + "_10", Z[1]), (IT, f + "_20", T([(3, 0), (0, 2), (3, 4)], Z[2])), (IT, f + "_21", T([(3, 0), (0, 2), (0, 3)], Z[2]))]
        for ni in ("30", "31", "32"):
            e.append((IT, f"{f}_{ni}", T([(2, 3, 3), (2, 0, 3), (3, 2, 2)] + [(0, 3, 2)] * (ni != "31"), FIX3)))
    return HarnessSpec(e, bounds="dimensions 1-3, every direction; sequences of up to six moves; extents symbolic in [1,40] (for the inner directions in 3D one symbolic extent, the others up to 4)")


def ctf():
    return HarnessSpec([(IT, "ctf_access", T([(r,) for r in (1, 2, 3, 4)], [(r,) for r in (5, 6, 7, 8, 16)]))],
                       bounds="ratios 1-4 (thorough to 16), coarse indices in [-200,200], every phase, any stride")


def offs():
    e = [(IT, f"offset_access_{n}", T([(1,), (2,), (3,)], [(4,), (5,), (7,)])) for n in (1, 2, 3, 4)]
    return HarnessSpec(e, bounds="1-4 dimensions, up to 7 offsets, every offset component in [-50,50], any strides")


def rav():
    e = [(IT, f"ravel_inverse_{n}", Z[n]) for n in (1, 2, 3)]
    e += [(IT, "ravel_inverse_4", T(FIX4[:5], FIX4)), (IT, "ravel_inverse_5", T([(0, 2, 1, 3, 2), (2, 2, 0, 2, 2)], [(2, 0, 2, 3, 1), (1, 2, 2, 2, 0)]))]
    e += [(IT, f"strides_{n}", Z[n]) for n in (1, 2, 3, 4)]
    return HarnessSpec(e, bounds="1-5 dimensions, extents symbolic in [1,40] (4 and 5 dimensions: one or two symbolic extents)")


E3 = [(1, 1, 1), (1, 2, 3), (3, 2, 1), (2, 1, 4), (2, 3, 2), (4, 3, 5)]
E3T = E3 + [(5, 1, 1), (1, 5, 1), (1, 1, 9), (3, 3, 3), (5, 4, 3), (6, 7, 2), (2, 9, 8)]
E2 = [(0, 1, 1), (0, 1, 3), (0, 3, 1), (0, 2, 4), (0, 5, 3)]
E2T = E2 + [(0, 1, 17), (0, 17, 1), (0, 7, 8), (0, 12, 11)]
E1 = [(0, 0, 1), (0, 0, 2), (0, 0, 5), (0, 0, 41)]
BIG2, BIG3 = [(0, 3, 37), (0, 35, 2)], [(2, 3, 19), (2, 18, 3), (17, 2, 3)]
E1T = E1 + [(0, 0, 33), (0, 0, 130)]
ST3 = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 2), (3, 2, 4)]
ST2 = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 5)]
BOTH = ("serial", "each")


def cross(*ls):
    out = [()]
    for l in ls:
        out = [a + (b if isinstance(b, tuple) else (b,)) for a in out for b in l]
    return out


def spread(ls, every):
    """a fixed selection of a long list (all of it in the thorough tier)"""
    return T([x for i, x in enumerate(ls) if i % every == 0], ls)


def boundsp():
    f = "spans_misc.cpp"
    st = T([(s,) for s in (1, 2, 3, 5)], [(s,) for s in range(1, 13)])
    return HarnessSpec([(f, "bounds_dir", st), (f, "bounds_plain", st), (f, "bounds_count", st),
                        (f, "bounds_span", [x + y for x in E3 for y in ST3[:3]]),
                        (f, "bounds_domain", spread(cross(E3 + [(5, 7, 9), (8, 6, 4)], ST3 + [(5, 7, 3)]), 2))],
                       bounds="bounds in [-500,500] with up to 300 elements, changes up to 50, strides 1-12; ghost widths 0-6")


def mathp():
    f = "spans_math.cpp"
    q = {1: [(0, 0, 1), (0, 0, 3), (0, 0, 40)], 2: [(0, 1, 2), (0, 3, 2), (0, 5, 7)], 3: [(1, 2, 3), (2, 2, 2), (3, 2, 7)]}
    t = {1: E1T[:4], 2: E2T[:8], 3: E3T[:9]}
    return HarnessSpec([(f, f"math_{n}", T(cross(q[n], range(m)), cross(t[n], range(m)))) for n, m in ((1, 36), (2, 36), (3, 21))]
                       + [(f, "math_int", T(cross([(0, 2, 3)], range(13)), cross([(0, 1, 1), (0, 2, 3), (0, 4, 3)], range(13))))],
                       bounds="36 expression shapes (every operator with span/number operands on either side, nesting, repeated and updated operands), 1-3 dimensions, "
                       "mixed dimension orders and ghost widths; 13 shapes with integer arrays; any contents and numbers")


def assignp():
    f = "spans_domain.cpp"
    e = []
    for n in ("kji_kji", "kji_jik", "ikj_kji", "ijk_ikj", "jik_ijk"):
        e.append((f, f"assign_{n}", spread(cross(E3, range(6), ST3, range(4)), 17), BOTH))
        e.append((f, f"assign_{n}", spread(cross([(2, 3, 4)], range(6), [(1, 1, 1), (2, 1, 3)], range(4)), 1)))
        e.append((f, f"assign_{n}", spread(cross(BIG3, range(6), [(1, 1, 1), (1, 2, 3)], range(4)), 13), BOTH))
    for n in ("ji_ji", "ji_ij", "ij_ji"):
        e.append((f, f"assign_{n}", spread(cross(BIG2, range(2), [(1, 1), (2, 3)], range(4)), 5), BOTH))
        e.append((f, f"assign_{n}", spread(cross(E2, range(2), ST2, range(4)), 4), BOTH))
    e.append((f, "assign_seq", T(E2, E2T), BOTH))
    e.append((f, "assign_1", cross([(0, 0, 1), (0, 0, 2), (0, 0, 5), (0, 0, 12)], range(2), (1, 2, 3, 4)), BOTH))
    e.append((f, "assign_lhs", cross(E3, range(3)), BOTH))
    return HarnessSpec(e, bounds="1-3 dimensions, extents up to 37, strides up to 4 (partial last steps included), all dimension orders of arrays and domains, ghost widths 0-2, any box position")


SH2 = (0, 1, 2, 3, 10, 11, 12, 13, 14)
SH3 = SH2 + (20, 21, 22, 23, 24)


def gradp():
    f = "spans_domain.cpp"
    e = [(f, "grad_1", cross(T(E1, E1T)("quick"), range(3)), BOTH)]
    for n in ("ji", "ij", "jiT"):
        e.append((f, f"grad_{n}", T(cross(E2, range(2), range(4), [(1, 1, 1)]), cross(E2T, range(2), range(4), [(1, 1, 1)]))))
        e.append((f, f"grad_{n}", cross([(0, 4, 3)], (0,), range(4), [(1, 2, 1), (1, 3, 1)]) + cross([(0, 3, 4)], (1,), range(4), [(1, 1, 2), (1, 1, 3)])))
        e.append((f, f"grad_{n}", spread(cross(BIG2, range(2), range(4), [(1, 1, 1)]), 3)))
        e.append((f, f"shift_{n}", spread(cross(BIG2, SH2, [(1, 1, 1)]), 7)))
        e.append((f, f"shift_{n}", T(cross(E2[:4], SH2, [(1, 1, 1)]), cross(E2T, SH2, [(1, 1, 1)]))))
        e.append((f, f"shift_{n}", spread(cross([(0, 3, 4), (0, 5, 3)], SH2, [(1, 1, 2), (1, 2, 1), (1, 3, 2)]), 5)))
    for n in ("kji", "ikj", "jik", "kjiT"):
        e.append((f, f"grad_{n}", T(cross(E3[1:5], range(3), (0, 1, 3), [(1, 1, 1)]), cross(E3T, range(3), range(4), [(1, 1, 1)]))))
        e.append((f, f"grad_{n}", spread(cross([(3, 4, 2)], (0,), (0, 1, 3), [(1, 2, 1), (2, 1, 1), (2, 3, 1)]) + cross([(3, 2, 4)], (1,), (0, 1, 3), [(1, 1, 2), (2, 1, 1), (2, 1, 3)])
                                           + cross([(2, 3, 4)], (2,), (0, 1, 3), [(1, 1, 2), (1, 2, 1), (1, 2, 3)]), 4)))
        e.append((f, f"grad_{n}", spread(cross(BIG3, range(3), (0, 1, 3), [(1, 1, 1)]), 5)))
        e.append((f, f"shift_{n}", spread(cross(BIG3, SH3, [(1, 1, 1)]), 11)))
        e.append((f, f"shift_{n}", T(cross(E3[1:4], SH3, [(1, 1, 1)]), cross(E3T[:9], SH3, [(1, 1, 1)]))))
        e.append((f, f"shift_{n}", spread(cross([(2, 3, 4), (3, 4, 3)], SH3, [(1, 1, 2), (1, 2, 1), (2, 1, 1), (2, 1, 3)]), 9)))
    e.append((f, "shift_1", cross(E1 + [(0, 0, 4)], range(4), [(1, 1, 1), (1, 1, 2), (1, 1, 3)])))
    return HarnessSpec(e, bounds="1-3 dimensions, extents up to 37, every direction, every shift in [-2,2], strides up to 3 (gradients: 1 along their direction), mixed dimension orders; any mesh width and contents")


WEXP = (0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 34, 35, 36, 37, 38)
WUNIT = (3, 4, 5, 28, 29, 31, 34, 35, 36, 37, 38)     # expressions with neighbour pairs: unit stride domains


def windowp():
    f = "spans_window.cpp"
    e = [(f, "win_1", cross([(0, 0, 1), (0, 0, 4)], [(1, 1, 1)], WEXP) + cross([(0, 0, 21)], [(1, 1, 1)], WEXP[::5]), BOTH),
         (f, "win_1", cross([(0, 0, 5), (0, 0, 6)], [(1, 1, 2), (1, 1, 3)], [x for x in WEXP if x not in WUNIT]))]
    for n in ("ji", "ij"):
        e.append((f, f"win_{n}", T(cross([(0, 2, 3)], [(1, 1, 1)], WEXP + (4, 31, 32)), cross(E2T[:7], [(1, 1, 1)], WEXP + (4, 31, 32))), BOTH))
        e.append((f, f"win_{n}", spread(cross([(0, 2, 17), (0, 12, 3)], [(1, 1, 1)], WEXP), 9)))
        e.append((f, f"win_{n}", spread(cross([(0, 3, 3), (0, 4, 5), (0, 5, 2)], [(1, 2, 1), (1, 1, 2), (1, 2, 3)], [x for x in WEXP if x not in WUNIT]), 4)))
    for n in ("kji", "ikj"):
        e.append((f, f"win_{n}", T(cross([(2, 1, 2)], [(1, 1, 1)], WEXP + (4, 5, 31, 32, 33)), cross(E3T[:6], [(1, 1, 1)], WEXP + (4, 5, 31, 32, 33)))))
        e.append((f, f"win_{n}", spread(cross([(1, 2, 3), (3, 2, 2)], [(1, 1, 1)], WEXP + (4, 5, 31, 32, 33)), 7), BOTH))
        e.append((f, f"win_{n}", spread(cross([(2, 3, 9), (2, 8, 3), (8, 3, 2)], [(1, 1, 1)], WEXP), 29)))
        e.append((f, f"win_{n}", spread(cross([(2, 3, 3), (3, 3, 4)], [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 2)], [x for x in WEXP if x not in WUNIT]), 11)))
    return HarnessSpec(e, bounds="windows of 7 entries per cell in 1-3 dimensions, 39 assignment shapes (single entries, neighbour pairs, updates, sequences, right-hand-side updates), "
                       "domains of up to 21 cells per side, strides up to 3 for assignments without neighbour pairs")


def accessp():
    f, g = "spans_domain.cpp", "vectors.cpp"
    e = [(f, "at_1", E1T), (f, "at_ji", E2T), (f, "at_ij", E2T), (f, "at_kji", E3T), (f, "at_ikj", E3T)]
    for n in ("vec_index_3", "vec_index_t", "vec_index_w"):
        e.append((g, n, cross(E3, range(3))))
    e += [(g, "vec_host", [(0, 1, 1), (0, 2, 3), (0, 1, 7)]), (g, "vec_offset", [(1,), (2,), (5,)]), (g, "vec_offset_after_write", [(1,), (2,), (5,)])]
    return HarnessSpec(e, bounds="1-3 dimensions, extents up to 130 / 17 / 9, any box position, every element")


def dotp():
    f = "spans_misc.cpp"
    one = [(1, 1, 1)]
    return HarnessSpec([(f, "dot_1", cross(E1[1:3], (1, 2, 3, 4, 5, 6, 8), range(3), one + [(1, 1, 2)]) + cross(E1[3:], (2, 9), range(3), one), BOTH), (f, "dot_2", cross(E2[1:4], (1, 3, 5), range(3), one), BOTH),
                        (f, "dot_2", spread(cross([(0, 3, 4), (0, 4, 3)], (1, 5), range(3), [(1, 1, 2), (1, 2, 1), (1, 2, 3)]), 5), BOTH),
                        (f, "dot_2", spread(cross(BIG2, (1, 4), range(3), one), 4), BOTH), (f, "dot_3", spread(cross(BIG3, (2, 5), range(3), one), 5), BOTH),
                        (f, "dot_3", T(cross(E3[1:4], (1, 4, 7), range(3), one), cross(E3, (1, 4, 7, 9), range(3), one)), BOTH),
                        (f, "dot_3", spread(cross([(2, 3, 4), (3, 3, 3)], (1, 4, 7), range(3), [(1, 1, 2), (1, 2, 1), (2, 1, 1), (2, 3, 2)]), 23), BOTH)],
                       bounds="1-3 dimensions, up to 9 stencil entries, every offset component in [-2,2], domain strides up to 3, window numbering starting anywhere in [-3,3], any box position and contents")


def finep():
    f = "spans_misc.cpp"
    q = [(1, 2, 2), (2, 3, 4), (3, 3, 6), (2, 2, 1), (4, 3, 7), (3, 9, 21)]
    t = q + [(4, 3, 5), (2, 4, 7), (4, 2, 8), (5, 3, 9), (8, 2, 11), (3, 4, 1)]
    e = [(f, n, T(q, t), BOTH) for n in ("fine_1", "fine_2_i", "fine_2_j", "fine_2t_i", "fine_2t_j", "fine_3_i", "fine_3_j", "fine_3_k", "fine_3y_j", "fine_3z_k", "fine_3z_i")]
    return HarnessSpec(e, bounds="1-3 dimensions, ratios 1-9, up to 21 fine cells starting anywhere in the coarse range (negative indices too), any contents")


N3 = [(1, 1, 1), (2, 3, 2), (3, 1, 4), (1, 4, 2), (4, 2, 1)]
N3T = N3 + [(3, 3, 3), (5, 4, 3), (7, 2, 3), (2, 9, 2)]
N3C = N3 + [(6, 2, 2), (2, 7, 1), (1, 2, 6), (17, 1, 3)]      # where a case costs little
D3 = (1, 2, 3)


def at(ns, d):
    """the distinct leading d extents"""
    out = []
    for n in ns:
        n = n[:d]
        if n not in out:
            out.append(n)
    return out


def over(*gens, quick=N3):
    """parameter tuples (d, n, ...) for every dimension, quick and thorough boxes"""
    def f(tier):
        return [(d, n) + x for d in D3 for n in at(quick + [m for m in N3T if m not in quick] if tier == "thorough" else quick, d) for x in cross(*[g(d) if callable(g) else g for g in gens])]
    return f


def applyp():
    return ScenSpec([(scen.apply_stencil, over((1, 2, 3, 4, 5, 7, 9), (0, 1), quick=N3C))], m4=[f"applystencil{d}d" for d in D3],
                    bounds="1-3 dimensions, extents up to 7, lines of 17, up to 9 stencil entries with any offsets in [-3,3], any box position, ghost widths 0-6 of each array")


def rhsp():
    return ScenSpec([(scen.system_rhs, lambda t: [j for j in over((1, 2, 3, 5), (0, 2), quick=N3C)(t) if j[0] < 3]), (scen.side_rhs, over(lambda d: range(d), (0, 1), (1, 2), ("star", "full"), quick=N3C))],
                    m4=[f"celladjustrhs{d}d" for d in D3],
                    bounds="1-3 dimensions, extents up to 7, lines of 17, any box position, ghost widths to 6; compact stencils of 3/5/7 and 3/9/27 entries for sides, any offsets in [-3,3] for systems")


def smoothp():
    W = ("star", "full", "wide")
    ev = lambda d: [((0,) + e,) for e in ((0, 1) if d == 1 else (0, 0), (0, 1), (1, 0), (1, 1))] if d == 3 else [((0, e),) for e in (0, 1)] if d == 2 else [((0,),)]
    rb = lambda d: [("star",), ("full",)] + ([("5",), ("9",)] if d == 2 else [("7",)] if d == 3 else [])
    return ScenSpec([(scen.jacobi, over(W, quick=N3C)), (scen.gauss_seidel, over(W)), (scen.red_black, over(rb, ev, (0, 1), quick=N3 + [(6, 5, 1), (1, 6, 2)])),
                     (scen.block_jacobi, lambda t: [(d, n, s) for d in (1, 2) for n in at(N3T if t == "thorough" else N3, d) for s in (1, 2)])],
                    m4=[f"cellsmooth{d}d" for d in D3] + [f"cellblocksmooth{d}d" for d in (1, 2)],
                    bounds="1-3 dimensions, extents up to 7, lines of 17, any box position (even and odd, negative too), array boxes up to 3 cells larger on every side, stencils of 3 to 27 entries")


def kids(*names):
    return [f"{n}{d}d" for n in names for d in D3]


OPK = kids("flux", "poisson_flux", "diffusion_v1_apply", "diffusion_v2_apply", "poisson_v2_apply", "diffusion_v1_res", "diffusion_v2_res", "poisson_v1_res",
           "offdiag", "poisson_offdiag", "v1diag", "v2diag", "poisson_diag")


def matrixp():
    return ScenSpec([(laws.matrix_action, over(laws.FORMS, "cf", quick=N3C)), (laws.residual, over(laws.FORMS, "cf", quick=N3C))], kids=OPK, impls="cf",
                    bounds="1-3 dimensions, extents up to 7, lines of 17, any box position, ghost widths 0-4")


def conserve():
    return ScenSpec([(laws.matrix_shape, over(laws.FORMS, "cf", quick=N3C))], kids=OPK, impls="cf",
                    bounds="1-3 dimensions, extents up to 7, lines of 17, any box position, ghost widths 0-4")


BCK = kids("set_bc", "set_poisson_bc")


def ghostp():
    faces = lambda d: range(2 * d)
    def bcs(t):
        return [j for j in over(faces, (0, 1, 4), (0, 1, 2), (1, 9), ("set", "poisson"), "cf")(t)
                if (j[4] > 0 or (j[0] == 2 and j[3] == 0 and j[6] == "set")) and not (j[0] == 2 and j[3] == 4 and j[6] == "poisson" and j[2] > 1)]
    def corn(t):
        return [j for d in (2, 3) for n in at(N3T if t == "thorough" else N3, d) for j in cross([(d, n) + tf for tf in laws.edge_faces(d)], (1, 9), ("set", "poisson"), "cf")]
    n2 = lambda t: at(N3T if t == "thorough" else N3, 2)
    hom = lambda t: [j for j in cross([(n,) for n in n2(t) + [(3, 4), (4, 3)]], range(4), (1, 2, 3, 4), (-2, 0, 1), (-1, 0, 2), "cf")
                     if j[2] <= j[0][j[1] // 2] + 1 and j[3] - j[4] < j[0][1 - j[1] // 2]]
    return ScenSpec([(laws.ghosts, bcs), (laws.corners, corn), (laws.interior_corner, lambda t: cross([(n,) for n in n2(t)], range(4), "cf")), (laws.homogeneous, hom)],
                    kids=BCK + ["set_corner_bc2d", "set_homogenous_bc2d"], impls="cf",
                    bounds="1-3 dimensions, extents up to 4 (thorough 9), any box and segment position, ghost widths 1-4, extrapolation orders 0-4")


def elimp():
    def bcs(t):
        return [j for j in over(lambda d: range(d), (0, 1), (0, 1, 4), (1, 2), (1, 9), ("v1", "v2", "poisson"), "cf")(t)
                if not (j[0] == 2 and j[4] == 4 and j[2] == 1) and not (j[7] == "v2" and j[1] != (2, 3, 2)[:j[0]]) and (j[1][j[2]] > 1 or j[5] == 1)]
    def cf(t):
        return [j for j in over(lambda d: range(d), (0, 1), (1, 2), (1, 2, 4) if t == "quick" else (1, 2, 3, 4, 8), (1, 9), ("v1", "poisson"), "cf")(t)]
    ks = kids("adj_diag", "adj_poisson_diag", "adj_offdiag", "adj_poisson_offdiag", "readj_offdiag", "adj_cf_diag", "adj_poisson_cf_diag", "adj_cf_offdiag", "adj_cf_bdryrhs")
    return ScenSpec([(laws.eliminated, bcs), (laws.coarse_fine, cf)], kids=OPK + BCK + ks, impls="cf",
                    bounds="1-3 dimensions, extents up to 4 (thorough 9), any box and segment position, ghost widths 0-4, every direction and side, orders 1 and 2, ratios up to 8")


def frozen(**kw):
    return tuple(sorted(kw.items()))


def flag_sets(k, d):
    """flag combinations of a boundary or interface adjustment"""
    dom = {"dir": range(d), "side": (0, 1), "btype": (0, 1, 4), "exOrder": (1, 2), "intOrder": (1, 2), "r": (2, 4)}
    names = [p for p in k.params if p in dom]
    return [dict(zip(names, x)) for x in cross(*[dom[q] for q in names])] if names else [{}]


def nodep():
    K = {k.id: k for k in kernels.table()}
    ids = [k for k in K if K[k].group in ("flux", "stencil", "adj") or K[k].cname[1] in laws.APPLY]

    def jobs(t):
        out = []
        for k in ids:
            for n in at(N3T if t == "thorough" else N3, K[k].d):
                for f in flag_sets(K[k], K[k].d):
                    for seg in (1, 9) if K[k].group == "adj" else (9,):
                        out.append((k, n, frozen(**f), seg))
        return out
    return ScenSpec([(node_twin, jobs)], m4=[f"nodediffusion{x}{d}d" for x in ("flux", "apply", "stencilcoeffs") for d in D3], kids=ids, impls="f",
                    bounds="1-3 dimensions, extents up to 4 (thorough 9), any box and segment position, ghost widths 0-3 (1-3 where neighbours are read), every direction, side, boundary type, order")


def node_twin(S, kid, n, flags, seg):
    laws.node_twin(S, kid, n, dict(flags), seg)


def turned(S, kid, impl, n, perm, flip, flags, seg):
    laws.turned(S, kid, impl, n, perm, flip, dict(flags), seg)


TURNS = {1: [((0,), (1,))], 2: [((0, 1), (1, 0)), ((1, 0), (0, 0)), ((1, 0), (0, 1))],
         3: [((0, 1, 2), (1, 0, 0)), ((0, 1, 2), (0, 1, 0)), ((0, 1, 2), (0, 0, 1)), ((1, 0, 2), (0, 0, 0)), ((1, 2, 0), (0, 1, 0)), ((0, 2, 1), (0, 0, 0))]}


def turnp():
    K = {k.id: k for k in kernels.table()}
    ids = [k for k in K if K[k].group != "c2f" and K[k].cname[1] != "set_homogenous_bc"]

    def jobs(t):
        out = []
        for kid in ids:
            k = K[kid]
            d, m = k.d, k.cname[1]
            ns = at(N3T if t == "thorough" else N3, d)
            if k.group == "bc":
                fl = []
                for f in range(2 * d):
                    fl += [dict(face=f, type=1, btype=b, exOrder=o) for b in (0, 1, 4) for o in (1, 2)]
                fl += [dict(face=f, type=ty, btype=0, exOrder=1) for ty, f in laws.edge_faces(d)]
                if m == "set_corner_bc":
                    fl = [dict(face=f, type=2, btype=0, exOrder=2) for f in range(4)]
                if m == "set_poisson_bc" and d == 2:         # Robin along y is not implemented
                    fl = [f for f in fl if f["btype"] != 4]
            elif k.group == "adj":
                fl = flag_sets(k, d)
                if d == 2:
                    fl = [f for f in fl if f.get("btype") != 4]
            else:
                fl = [{}]
            for f in fl:
                for i, (perm, flip) in enumerate(TURNS[d]):
                    for n in [ns[(len(out) + i) % 3]] if t == "quick" and k.group in ("adj", "bc") else ns:
                        if f.get("type") == 3 and perm[2] != 2:
                            continue                         # 3D corners only continue the x-y plane
                        for seg in (1, 9) if k.group in ("adj", "bc") else (9,):
                            for impl in "cf":
                                if t == "quick" and (impl == "f") != (len(out) % 3 == 0):
                                    continue
                                out.append((kid, impl, n, perm, flip, frozen(**f), seg))
        return out
    return ScenSpec([(turned, jobs)], kids=ids, impls="cf",
                    bounds="1-3 dimensions, extents up to 4 (thorough 9), reflections of each axis and exchanges of axes, any box and segment position, every flag combination")


def extrapp():
    return ScenSpec([(laws.extrapolated, lambda t: cross([(n,) for n in N3T[:3 if t == "quick" else 9] + [(2, 2, 2), (3, 5, 4)]], [(1, f) for f in range(6)] + [(2, f) for f in range(12)] + [(3, f) for f in range(8)], (1, 2, 9)))],
                    m4=["copycoarsetofine"], bounds="3 dimensions, extents up to 5 (thorough 9), any box and segment position, ghost widths 1-4, every face, edge and corner")


def bc_flags(k):
    d, m = k.d, k.cname[1]
    if m == "set_corner_bc":
        return [dict(face=f, type=2, btype=0, exOrder=2) for f in range(4)]
    fl = [dict(face=f, type=1, btype=b, exOrder=o) for f in range(2 * d) for b in (0, 1, 4) for o in (1, 2)]
    return fl + [dict(face=f, type=ty, btype=0, exOrder=1) for ty, f in laws.edge_faces(d)]


SUBS = [((1, 2, 2), (1, 1, 0)), ((2, 1, 1), (0, 0, 1)), ((2, 2, 1), (1, 0, 1)), ((3, 2, 2), (1, 1, 1))]


def movedp():
    K = {k.id: k for k in kernels.table()}
    ids = [k for k in K if K[k].group != "c2f" and K[k].cname[1] != "set_homogenous_bc"]

    def jobs(t):
        out = []
        for kid in ids:
            k = K[kid]
            d = k.d
            ns = at(N3T if t == "thorough" else N3, d)
            fl = bc_flags(k) if k.group == "bc" else flag_sets(k, d) if k.group == "adj" else [{}]
            impls = "cfn" if k.group in ("flux", "stencil", "adj") else "cf"
            for f in fl:
                if k.group in ("adj", "bc") and t == "quick":
                    todo = [(ns[(len(out) + i) % len(ns)], *SUBS[(len(out) + i) % len(SUBS)]) for i in (0, 1)]
                else:
                    todo = [(n, *s) for n in ns for s in SUBS]
                for n, s, o in todo:
                    for seg in (1, 9) if k.group in ("adj", "bc") else (9,):
                        for i, impl in enumerate(impls):
                            if t == "quick" and k.group in ("adj", "bc") and i and len(out) % 3:
                                continue
                            out.append((kid, impl, n, s, o, frozen(**f), seg))
        return out

    def sweeps(t):
        out = []
        for d in D3:
            for n in at(N3T[:5] if t == "thorough" else N3, d):
                for w in ("star", "full", "wide"):
                    out += [(d, n, w, q) for q in ("jacobi", "gs")]
                for w in {1: ("star", "wide"), 2: ("star", "wide", "5", "9"), 3: ("star", "wide", "7")}[d]:
                    out += [(d, n, w, "rb", (0,) + e, c) for c in (0, 1) for e in cross(*[(0, 1)] * (d - 1))]
        return out
    return ScenSpec([(moved, jobs), (laws.smoothed_elsewhere, sweeps)], kids=ids, impls="cf",
                    m4=[f"nodediffusion{x}{d}d" for x in ("flux", "stencilcoeffs") for d in D3] + [f"cellsmooth{d}d" for d in D3],
                    bounds="1-3 dimensions, extents up to 4 (thorough 9), sub-boxes of up to 3 cells per side at any of four relative places, both patches anywhere, independent ghost widths 0-4, every flag combination; relaxation sweeps: whole patch, any translation (coloured sweeps: even)")


def moved(S, kid, impl, n, sub, off, flags, seg):
    laws.moved(S, kid, impl, n, sub, off, dict(flags), seg)


PROPS = {
    "C01": lambda: KernelSpec(("flux",), ("eq",)),
    "C02": lambda: KernelSpec(("apply",), ("eq",)),
    "C03": lambda: KernelSpec(("stencil",), ("eq",)),
    "C04": lambda: KernelSpec(("adj",), ("eq",)),
    "C05": lambda: KernelSpec(("bc",), ("eq",)),
    "C06": lambda: KernelSpec(("c2f",), ("eq",)),
    "C07": lambda: KernelSpec(ALLK, ("safe",)),
    "C08": lambda: KernelSpec(ALLK, ("sched",)),
    "C09": lambda: KernelSpec(ALLK, ("eq",), T="f"),
    "C10": trav,
    "C11": views,
    "C12": sten,
    "C13": ctf,
    "C14": offs,
    "C15": rav,
    "C16": boundsp,
    "C17": mathp,
    "C18": assignp,
    "C19": gradp,
    "C20": windowp,
    "C21": accessp,
    "C22": dotp,
    "C23": finep,
    "C24": applyp,
    "C25": rhsp,
    "C26": smoothp,
    "C27": matrixp,
    "C28": conserve,
    "C29": ghostp,
    "C30": elimp,
    "C31": nodep,
    "C32": turnp,
    "C33": extrapp,
    "C34": movedp,
}
