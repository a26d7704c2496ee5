// assignments over domains: dimension orders, strides, fills, gradients, shifts
#include "span.h"

static Ib ib(const Cells& b, int s = 1) { return Ib{b.lo[DI], b.hi[DI], s}; }
static Jb jb(const Cells& b, int s = 1) { return Jb{b.lo[DJ], b.hi[DJ], s}; }
static Kb kb(const Cells& b, int s = 1) { return Kb{b.lo[DK], b.hi[DK], s}; }
static int below(int n) { return vp_below(n); }

// ---------------------------------------------------------------- assignment
// parameters: extents, order of the domain dimensions, strides k j i, form
template <typename RA, typename AA>
void assign3(RA R, AA A, const Cells& b)
{
    const int st[4] = {vp_param(4), vp_param(5), vp_param(6), 1};
    const double s = vp_real(0);
    const auto k = kb(b, st[DK]);
    const auto j = jb(b, st[DJ]);
    const auto i = ib(b, st[DI]);
    auto go = [&](auto&& e) {
        switch (vp_param(3)) {
        case 0: with_domain(k, j, i)(FWD(e)); break;
        case 1: with_domain(k, i, j)(FWD(e)); break;
        case 2: with_domain(j, k, i)(FWD(e)); break;
        case 3: with_domain(j, i, k)(FWD(e)); break;
        case 4: with_domain(i, k, j)(FWD(e)); break;
        case 5: with_domain(i, j, k)(FWD(e)); break;
        }
    };
    switch (vp_param(7)) {
    case 0:
        go(R.s = A.s * 1.0);
        R.expect(b, st, [&](const int(&x)[4]) { return A.init(x); });
        break;
    case 1:
        go(R.s = s);
        R.expect(b, st, [&](const int(&x)[4]) { return s; });
        break;
    case 2:
        go(R.s = A.s - s * R.s);
        R.expect(b, st, [&](const int(&x)[4]) { return A.init(x) - s * R.init(x); });
        break;
    case 3:
        go(R.s = A.s);
        R.expect(b, st, [&](const int(&x)[4]) { return A.init(x); });
        break;
    }
}
extern "C" void assign_kji_kji()
{
    const Cells b = box(0);
    assign3(A3(0, 1, b), A3(1, b), b);
}
extern "C" void assign_kji_jik()
{
    const Cells b = box(0);
    assign3(A3(0, b.grow(DK, 0, 1)), A3z(1, 1, b), b);
}
extern "C" void assign_ikj_kji()
{
    const Cells b = box(0);
    assign3(A3y(0, 1, b), A3(1, b.grow(DJ, 1, 0)), b);
}
extern "C" void assign_ijk_ikj()
{
    const Cells b = box(0);
    assign3(A3r(0, b.grow(DI, 1, 2)), A3y(1, b), b);
}
extern "C" void assign_jik_ijk()
{
    const Cells b = box(0);
    assign3(A3z(0, b.grow(DI, 2, 1)), A3r(1, b), b);
}

template <typename RA, typename AA>
void assign2(RA R, AA A, const Cells& b)
{
    const int st[4] = {1, vp_param(4), vp_param(5), 1};
    const double s = vp_real(0);
    const auto j = jb(b, st[DJ]);
    const auto i = ib(b, st[DI]);
    auto go = [&](auto&& e) {
        if (vp_param(3))
            with_domain(i, j)(FWD(e));
        else
            with_domain(j, i)(FWD(e));
    };
    switch (vp_param(6)) {
    case 0:
        go(R.s = A.s * 1.0);
        R.expect(b, st, [&](const int(&x)[4]) { return A.init(x); });
        break;
    case 1:
        go(R.s = s);
        R.expect(b, st, [&](const int(&x)[4]) { return s; });
        break;
    case 2:
        go(R.s = A.s - s * R.s);
        R.expect(b, st, [&](const int(&x)[4]) { return A.init(x) - s * R.init(x); });
        break;
    case 3:
        go(R.s = 7);
        R.expect(b, st, [&](const int(&x)[4]) { return 7.0; });
        break;
    }
}
extern "C" void assign_ji_ji()
{
    const Cells b = box(0);
    assign2(A2(0, 2, b), A2(1, b), b);
}
extern "C" void assign_ji_ij()
{
    const Cells b = box(0);
    assign2(A2(0, b), A2t(1, 1, b), b);
}
extern "C" void assign_ij_ji()
{
    const Cells b = box(0);
    assign2(A2t(0, b.grow(DJ, 1, 2)), A2(1, b.grow(DI, 2, 0)), b);
}
// several assignments over one domain run in order
extern "C" void assign_seq()
{
    const Cells b = box(0);
    A2 R(0, 1, b), A(1, b);
    A2t Q(2, b);
    const double s = vp_real(0);
    with_domain(jb(b), ib(b))(R.s = A.s + s, Q.s = R.s * A.s, R.s = R.s - Q.s);
    R.expect(b, [&](const int(&x)[4]) { return (A.init(x) + s) - (A.init(x) + s) * A.init(x); });
    Q.expect(b, [&](const int(&x)[4]) { return (A.init(x) + s) * A.init(x); });
}
extern "C" void assign_1()
{
    const Cells b = box(0);
    A1 R(0, 1, b), A(1, b.grow(DI, 1, 0));
    const int st[4] = {1, 1, vp_param(4), 1};
    const auto i = ib(b, st[DI]);
    const double s = vp_real(0);
    switch (vp_param(3)) {
    case 0:
        with_domain(i)(R.s = A.s + s);
        R.expect(b, st, [&](const int(&x)[4]) { return A.init(x) + s; });
        break;
    case 1:
        with_domain(i)(R.s = s);
        R.expect(b, st, [&](const int(&x)[4]) { return s; });
        break;
    }
}
// the domain taken from the left-hand side: all of its cells
extern "C" void assign_lhs()
{
    const Cells b = box(0);
    const double s = vp_real(0);
    A3 A(1, 1, b);
    if (vp_param(3) == 0) {
        A3y R(0, b);
        with_lhs_domain(R.s = A.s * s);
        R.expect(b, [&](const int(&x)[4]) { return A.init(x) * s; });
    } else if (vp_param(3) == 1) {
        A3 R(0, b);
        with_lhs_domain(R.s = s);
        R.expect(b, [&](const int(&x)[4]) { return s; });
    } else {
        A3z R(0, b);
        A3r B(2, b);
        with_lhs_domain(R.s = A.s - B.s / s);
        R.expect(b, [&](const int(&x)[4]) { return A.init(x) - B.init(x) / s; });
    }
}

// ---------------------------------------------------------- gradients, shifts
// parameters: extents, direction (0 x, 1 y, 2 z), form, strides (1 along the direction)
template <typename RA, typename AA, typename D>
void grad(RA R, AA A, const Cells& b, D dom)
{
    const double h = vp_real(0), s = vp_real(1);
    const int d = DI - vp_param(3);
    const int st[4] = {vp_param(5), vp_param(6), vp_param(7), 1};
    auto want = [&](int l, int u) {
        R.expect(b, st, [&](const int(&x)[4]) { return (A.init(x, d, u) - A.init(x, d, l)) / h; });
    };
    switch (vp_param(3) * 10 + vp_param(4)) {
    case 0: dom(R.s = A.s.grad_x(h)); want(0, 1); break;
    case 1: dom(R.s = A.s.grad_x(h, down)); want(-1, 0); break;
    case 2: dom(R.s = A.s.grad_x(h, up)); want(0, 1); break;
    case 10: dom(R.s = A.s.grad_y(h)); want(0, 1); break;
    case 11: dom(R.s = A.s.grad_y(h, down)); want(-1, 0); break;
    case 12: dom(R.s = A.s.grad_y(h, up)); want(0, 1); break;
    case 20:
        if constexpr (AA::N == 3) { dom(R.s = A.s.grad_z(h)); want(0, 1); }
        break;
    case 21:
        if constexpr (AA::N == 3) { dom(R.s = A.s.grad_z(h, down)); want(-1, 0); }
        break;
    case 23:
        if constexpr (AA::N == 3) {
            dom(R.s = A.s.grad_z(h, down) * s - A.s / A.s.grad_z(h));
            R.expect(b, st, [&](const int(&x)[4]) {
                return (A.init(x) - A.init(x, d, -1)) / h * s - A.init(x) / ((A.init(x, d, 1) - A.init(x)) / h);
            });
        }
        break;
    case 3:
    case 13:
        // in an expression
        if (d == DI)
            dom(R.s = s * A.s.grad_x(h) + A.s.grad_x(h, down) * A.s);
        else
            dom(R.s = s * A.s.grad_y(h) + A.s.grad_y(h, down) * A.s);
        R.expect(b, st, [&](const int(&x)[4]) {
            return s * (A.init(x, d, 1) - A.init(x)) / h + (A.init(x) - A.init(x, d, -1)) / h * A.init(x);
        });
        break;
    }
}
// parameters: extents, form, strides k j i
// any shift that stays inside the array (ghost width 2, shift symbolic)
template <typename RA, typename AA, typename D>
void shift(RA R, AA A, const Cells& b, D dom)
{
    const int st[4] = {vp_param(4), vp_param(5), vp_param(6), 1};
    const int s = vp_int(-2, 2), t = vp_int(-2, 2), f = vp_param(3);
    const double q = vp_real(0);
    auto at = [&](const int(&x)[4], int d, int s, int e, int t) {
        int y[4] = {x[0], x[1], x[2], x[3]};
        y[d] += s;
        y[e] += t;
        return A.init(y);
    };
#define FORM(n, e, d1, s1, d2, s2)                                                        \
    case n:                                                                               \
        dom(R.s = e);                                                                     \
        R.expect(b, st, [&](const int(&x)[4]) { return at(x, d1, s1, d2, s2); });             \
        break;
    switch (f) {
        FORM(0, A.s.shift_x(s) * 1.0, DI, s, DI, 0)
        FORM(1, A.s.shift_x() * 1.0, DI, 1, DI, 0)
        FORM(2, A.s.shift_x(s), DI, s, DI, 0)
    case 3:
        dom(R.s = A.s.shift_x(s) - q * A.s.shift_x(t));
        R.expect(b, st, [&](const int(&x)[4]) { return at(x, DI, s, DI, 0) - q * at(x, DI, t, DI, 0); });
        break;
    }
    if constexpr (AA::N >= 2) {
        switch (f) {
            FORM(10, A.s.shift_y(s) * 1.0, DJ, s, DI, 0)
            FORM(11, A.s.shift_y() * 1.0, DJ, 1, DI, 0)
            FORM(12, A.s.shift_xy(s, t) * 1.0, DI, s, DJ, t)
            FORM(13, A.s.shift_xy() * 1.0, DI, 1, DJ, 1)
            FORM(14, A.s.shift_xy(s, t), DI, s, DJ, t)
        }
    }
    if constexpr (AA::N >= 3) {
        switch (f) {
            FORM(20, A.s.shift_z(s) * 1.0, DK, s, DI, 0)
            FORM(21, A.s.shift_xz(s, t) * 1.0, DI, s, DK, t)
            FORM(22, A.s.shift_yz(s, t) * 1.0, DJ, s, DK, t)
            FORM(23, A.s.shift_yz() * 1.0, DJ, 1, DK, 1)
            FORM(24, A.s.shift_xz() * 1.0, DI, 1, DK, 1)
        }
    }
}
#define STG const int sk = vp_param(5), sj = vp_param(6), si = vp_param(7); (void)sk, (void)sj, (void)si;
#define STR const int sk = vp_param(4), sj = vp_param(5), si = vp_param(6); (void)sk, (void)sj, (void)si;
#define SDOM1 [&](auto&& e) { with_domain(ib(b, si))(FWD(e)); }
#define SDOMJI [&](auto&& e) { with_domain(jb(b, sj), ib(b, si))(FWD(e)); }
#define SDOMIJ [&](auto&& e) { with_domain(ib(b, si), jb(b, sj))(FWD(e)); }
#define SDOMKJI [&](auto&& e) { with_domain(kb(b, sk), jb(b, sj), ib(b, si))(FWD(e)); }
#define SDOMJIK [&](auto&& e) { with_domain(jb(b, sj), ib(b, si), kb(b, sk))(FWD(e)); }
#define GS(n, RR, AA, D)                                                                  \
    extern "C" void grad_##n()                                                            \
    {                                                                                     \
        const Cells b = box(0);                                                           \
        STG                                                                               \
        grad(RR, AA(1, 1, b), b, S##D);                                                     \
    }                                                                                     \
    extern "C" void shift_##n()                                                           \
    {                                                                                     \
        const Cells b = box(0);                                                           \
        STR                                                                               \
        shift(RR, AA(1, 2, b), b, S##D);                                                     \
    }
extern "C" void grad_1()
{
    const Cells b = box(0);
    A1 R(0, 1, b), A(1, 1, b);
    const double h = vp_real(0), s = vp_real(1);
    switch (vp_param(3)) {
    case 0:
        with_domain(ib(b))(R.s = A.s.grad_x(h));
        R.expect(b, [&](const int(&x)[4]) { return (A.init(x, DI, 1) - A.init(x)) / h; });
        break;
    case 1:
        with_domain(ib(b))(R.s = A.s.grad_x(h, down));
        R.expect(b, [&](const int(&x)[4]) { return (A.init(x) - A.init(x, DI, -1)) / h; });
        break;
    case 2:
        with_domain(ib(b))(R.s = s - A.s * A.s.grad_x(h));
        R.expect(b, [&](const int(&x)[4]) { return s - A.init(x) * (A.init(x, DI, 1) - A.init(x)) / h; });
        break;
    }
}
extern "C" void shift_1()
{
    const Cells b = box(0);
    STR
    shift(A1(0, 1, b), A1(1, 2, b), b, SDOM1);
}
GS(ji, A2(0, 1, b), A2, DOMJI)
GS(ij, A2(0, b), A2t, DOMJI)
GS(jiT, A2t(0, 1, b), A2, DOMIJ)
GS(kji, A3(0, b), A3, DOMKJI)
GS(ikj, A3(0, b), A3y, DOMKJI)
GS(jik, A3(0, b), A3z, DOMKJI)
GS(kjiT, A3z(0, b), A3, DOMJIK)

// ------------------------------------------------------------- element access
// parameters: extents
template <typename AA, typename F>
void at_(AA A, F f)
{
    int x[4];
    for (int d = 0; d < 4; d++) x[d] = A.has(d) ? A.c.lo[d] + below(A.c.n(d)) : 0;
    double& r = f(A.s, x);
    SAME(r, A.init(x));
    const double v = vp_real(0);
    r = v;
    SAME(*A.ptr(x), v);
}
extern "C" void at_1() { at_(A1(0, 1, box(0)), [](auto& s, auto& x) -> double& { return *thrust::raw_pointer_cast(&s.at(x[DI])); }); }
extern "C" void at_ji() { at_(A2(0, 1, box(0)), [](auto& s, auto& x) -> double& { return *thrust::raw_pointer_cast(&s.at(x[DJ], x[DI])); }); }
extern "C" void at_ij() { at_(A2t(0, box(0)), [](auto& s, auto& x) -> double& { return *thrust::raw_pointer_cast(&s.at(x[DI], x[DJ])); }); }
extern "C" void at_kji() { at_(A3(0, 1, box(0)), [](auto& s, auto& x) -> double& { return *thrust::raw_pointer_cast(&s.at(x[DK], x[DJ], x[DI])); }); }
extern "C" void at_ikj() { at_(A3y(0, 1, box(0)), [](auto& s, auto& x) -> double& { return *thrust::raw_pointer_cast(&s.at(x[DI], x[DK], x[DJ])); }); }
