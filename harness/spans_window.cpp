// assignments to the window (stencil entries) of each cell
// parameters: extents k j i, strides k j i, expression
#include "span.h"

static constexpr int NW = 7;
static Ib ib(const Cells& b, int s = 1) { return Ib{b.lo[DI], b.hi[DI], s}; }
static Jb jb(const Cells& b, int s = 1) { return Jb{b.lo[DJ], b.hi[DJ], s}; }
static Kb kb(const Cells& b, int s = 1) { return Kb{b.lo[DK], b.hi[DK], s}; }
static Cells wide(Cells b)
{
    b.lo[DW] = 0;
    b.hi[DW] = NW - 1;
    return b;
}

// the entries of one cell before and after
template <typename SS>
struct Entries {
    double v[NW];
    Entries(const SS& S, const int (&x)[4])
    {
        for (int w = 0; w < NW; w++) {
            int y[4] = {x[0], x[1], x[2], w};
            v[w] = S.init(y);
        }
    }
    double& operator[](int i) { return v[i]; }
};

#define EX(n, code, oracle)                                                              \
    case n:                                                                               \
        dom code;                                                                         \
        S.expect(wide(b), stp, [&](const int(&x)[4]) {                                          \
            Entries<SS> w(S, x);                                                          \
            const double u = U.init(x), q = Q.init(x);                                    \
            (void)u, (void)q;                                                             \
            oracle;                                                                       \
            return w[x[DW]];                                                              \
        });                                                                               \
        break;
#define RX_(n, code, val)                                                                \
    case n:                                                                               \
        dom code;                                                                         \
        R.expect(b, stp, [&](const int(&x)[4]) {                                          \
            Entries<SS> w(S, x);                                                          \
            const double u = U.init(x), q = Q.init(x), rhs = R.init(x);                   \
            (void)u, (void)q;                                                             \
            return val;                                                                   \
        });                                                                               \
        break;

template <typename SS, typename UU, typename QQ, typename RR, typename D>
void win(const Cells& b, SS S, UU U, QQ Q, RR R, D dom)
{
    const int stp[4] = {vp_param(3), vp_param(4), vp_param(5), 1};
    const double s = vp_real(0), t = vp_real(1);
    auto& st = S.s;
    auto& u = U.s;
    auto& q = Q.s;
    auto& rhs = R.s;
    auto nx = [&](auto& A, const int(&x)[4], int d, int o) { return A.init(x, d, o); };
    switch (vp_param(6)) {
        EX(0, (st(0) = s), w[0] = s)
        EX(1, (st(0) = 3, st(4) = s), w[0] = 3.0; w[4] = s)
        EX(2, (st(1, 2) = s, st(3, 4) = t), w[1] = w[2] = s; w[3] = w[4] = t)
        EX(3, (st(1, 2) = s * u.stencil_x()), w[1] = s * u; w[2] = s * nx(U, x, DI, 1))
        EX(6, (st(0) = -(st(1) + st(2)) + s * u), w[0] = -(w[1] + w[2]) + s * u)
        EX(7, (st(0) = -(st(1) + st(2) + st(3) + st(4) + st(5) + st(6)) + s),
           w[0] = s - w[1] - w[2] - w[3] - w[4] - w[5] - w[6])
        EX(8, (st(0) = st(0) - s * u), w[0] = w[0] - s * u)
        EX(9, (st(4) = st(4) + st(3) / 3, st(3) = st(3) * (8.0 / 3.0)),
           w[4] = w[4] + w[3] / 3; w[3] = w[3] * (8.0 / 3.0))
        EX(10, (st(5) = -9 * s, st(6) = st(6) - s), w[5] = -9 * s; w[6] = w[6] - s)
        EX(11, (st(5) = -9 * (s * q), st(6) = st(6) - s * q), w[5] = -9 * (s * q); w[6] = w[6] - s * q)
        EX(15, (st(0) = s * u + t * q, st(1) = u), w[0] = s * u + t * q; w[1] = u)
        EX(18, (st(3) = s / st(1), st(4) = st(1) / t, st(5) = s - st(1)), w[3] = s / w[1]; w[4] = w[1] / t; w[5] = s - w[1])
        EX(20, (st(0) = (-st(1)) * u), w[0] = -w[1] * u)
        EX(21, (st(0) = s, st(1) = u, st(2) = st(0) + st(1)), w[0] = s; w[1] = u; w[2] = w[0] + w[1])
        EX(23, (st(2) = 0.0), w[2] = 0)
        EX(24, (st(6) = st(6) * (2 * s / (4 * t + s))), w[6] = w[6] * (2 * s / (4 * t + s)))
        EX(25, (st(1) = st(2) * 1, st(2) = st(1) * st(1)), w[1] = w[2]; w[2] = w[1] * w[1])
        EX(26, (st(0) = u - st(0), st(1) = s * u / st(1)), w[0] = u - w[0]; w[1] = s * u / w[1])
        EX(27, (st(2) = st(3) - st(4) - st(5)), w[2] = w[3] - w[4] - w[5])
        EX(28, (st(1, 2) = s * u.stencil_x(down)), w[1] = s * nx(U, x, DI, -1); w[2] = s * u)
        EX(29, (st(3, 4) = u.stencil_x()), w[3] = u; w[4] = nx(U, x, DI, 1))
        EX(30, (st(0) = u.shift_x(1) - st(1) * 2), w[0] = nx(U, x, DI, 1) - w[1] * 2)
        EX(34, (st(1, 2) = s - u.stencil_x()), w[1] = s - u; w[2] = s - nx(U, x, DI, 1))
        EX(35, (st(5, 3) = s / u.stencil_x(down)), w[5] = s / nx(U, x, DI, -1); w[3] = s / u)
        EX(36, (st(2, 1) = u.stencil_x() - s), w[2] = u - s; w[1] = nx(U, x, DI, 1) - s)
        EX(37, (st(1, 2) = 1.0 + u.stencil_x() / s), w[1] = 1.0 + u / s; w[2] = 1.0 + nx(U, x, DI, 1) / s)
        EX(38, (st(1, 2) = t - s * (2 - u.stencil_x(up)), st(0) = -st(1)),
           w[1] = t - s * (2 - u); w[2] = t - s * (2 - nx(U, x, DI, 1)); w[0] = -w[1])
        EX(16, (st(0) = st(1) * u + q), w[0] = w[1] * u + q)
        EX(17, (st(0) = q - st(1) * u), w[0] = q - w[1] * u)
        EX(19, (st(0) = (st(1) + st(2)) / s - (u * st(3) - q), st(1) = u / q), w[0] = (w[1] + w[2]) / s - (u * w[3] - q); w[1] = u / q)
        EX(22, (st(0) = s * (u / (st(1) * q + t)) - st(2)), w[0] = s * (u / (w[1] * q + t)) - w[2])
        RX_(12, (rhs -= st(2) * u), rhs - w[2] * u)
        RX_(13, (rhs -= st(1) * u.shift_x(-1)), rhs - w[1] * nx(U, x, DI, -1))
        RX_(14, (rhs -= st(1) * u, rhs -= st(2) * q), rhs - w[1] * u - w[2] * q)
    }
    if constexpr (SS::N >= 3)
        switch (vp_param(6)) {
            EX(4, (st(1, 2) = s * u.stencil_x(), st(3, 4) = t * q.stencil_y()),
               w[1] = s * u; w[2] = s * nx(U, x, DI, 1); w[3] = t * q; w[4] = t * nx(Q, x, DJ, 1))
            EX(31, (st(3, 4) = s * u.stencil_y(down), st(1) = t),
               w[3] = s * nx(U, x, DJ, -1); w[4] = s * u; w[1] = t)
            RX_(32, (rhs -= st(3) * u.shift_y(1)), rhs - w[3] * nx(U, x, DJ, 1))
        }
    if constexpr (SS::N >= 4)
        switch (vp_param(6)) {
            EX(5, (st(1, 2) = s * u.stencil_x(), st(3, 4) = t * q.stencil_y(), st(5, 6) = s * u.stencil_z()),
               w[1] = s * u; w[2] = s * nx(U, x, DI, 1); w[3] = t * q; w[4] = t * nx(Q, x, DJ, 1); w[5] = s * u;
               w[6] = s * nx(U, x, DK, 1))
            RX_(33, (rhs -= st(5) * u.shift_z(1)), rhs - w[5] * nx(U, x, DK, 1))
        }
    if (vp_param(6) >= 12 && vp_param(6) <= 14) {
        // the stencil itself is only read
        S.expect(wide(b), [&](const int(&x)[4]) { return S.init(x); });
    }
}

#define STR const int sk = vp_param(3), sj = vp_param(4), si = vp_param(5); (void)sk, (void)sj, (void)si;
#define DOM(...) [&](auto&&... e) { with_domain(S.s.window(), __VA_ARGS__)(FWD(e)...); }
extern "C" void win_1()
{
    STR
    const Cells b = box(0);
    S1 S(0, 1, wide(b));
    win(b, S, A1(1, 1, b), A1(2, 2, b), A1(3, b), DOM(ib(b, si)));
}
extern "C" void win_ji()
{
    STR
    const Cells b = box(0);
    S2 S(0, 1, wide(b));
    win(b, S, A2(1, 1, b), A2t(2, 1, b), A2(3, 1, b), DOM(jb(b, sj), ib(b, si)));
}
extern "C" void win_ij()
{
    STR
    const Cells b = box(0);
    S2 S(0, wide(b));
    win(b, S, A2t(1, 1, b), A2(2, 1, b), A2t(3, b), DOM(ib(b, si), jb(b, sj)));
}
extern "C" void win_kji()
{
    STR
    const Cells b = box(0);
    S3 S(0, 1, wide(b));
    win(b, S, A3(1, 1, b), A3z(2, 1, b), A3(3, b), DOM(kb(b, sk), jb(b, sj), ib(b, si)));
}
extern "C" void win_ikj()
{
    STR
    const Cells b = box(0);
    S3 S(0, wide(b));
    win(b, S, A3y(1, 1, b), A3(2, 1, b), A3(3, b), DOM(ib(b, si), kb(b, sk), jb(b, sj)));
}
