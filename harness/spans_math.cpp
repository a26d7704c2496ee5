// lazy arithmetic on spans: every combination of operands, evaluated over a domain
// parameters: extents k j i of the domain, expression
#include "span.h"

static Ib ib(const Cells& b) { return Ib{b.lo[DI], b.hi[DI]}; }
static Jb jb(const Cells& b) { return Jb{b.lo[DJ], b.hi[DJ]}; }
static Kb kb(const Cells& b) { return Kb{b.lo[DK], b.hi[DK]}; }

// an expression is written once: over spans, and over the values of one cell
#define E(n, e)                                                                          \
    case n: {                                                                             \
        {                                                                                 \
            auto& a = A.s; auto& b = B.s; auto& c = C.s; auto& r = R.s;                         \
            (void)a, (void)b, (void)c;                                                    \
            dom(r = e);                                                                   \
        }                                                                                 \
        R.expect(box, [&](const int(&x)[4]) -> double {                                   \
            const double a = A.init(x), b = B.init(x), c = C.init(x), r = R.init(x);      \
            (void)a, (void)b, (void)c, (void)r;                                           \
            return e;                                                                     \
        });                                                                               \
    } break;

#define EXPRS_A                                                                          \
    E(0, a + b)                                                                           \
    E(1, a - b)                                                                           \
    E(2, a* b)                                                                            \
    E(3, a / b)                                                                           \
    E(4, s + a)                                                                           \
    E(5, s - a)                                                                           \
    E(6, s* a)                                                                            \
    E(7, s / a)                                                                           \
    E(8, a + s)                                                                           \
    E(9, a - s)                                                                           \
    E(10, a* s)                                                                           \
    E(11, a / s)                                                                          \
    E(12, a + b - c)                                                                      \
    E(13, a - (b - c))                                                                    \
    E(14, a / (b / c))                                                                    \
    E(15, (a + b) * (c - s))                                                              \
    E(16, s * (a + t * b) - c / t)                                                        \
    E(17, (a - b) / (c + s))                                                              \
    E(18, r + a)                                                                          \
    E(19, s - r * r)                                                                      \
    E(20, c + s * (a + b + c) - t * a * b)

#define EXPRS_B                                                                          \
    E(21, 1 - a)                                                                          \
    E(22, 2 * a - b / 3)                                                                  \
    E(23, a* a)                                                                           \
    E(24, (a - b) - (b - a))                                                              \
    E(25, (s - a) - (t - b))                                                              \
    E(26, (a / s) / (b / t))                                                              \
    E(27, ((a + s) - b) * t)                                                              \
    E(28, (a * b) / (c * c + s))                                                          \
    E(29, r - r / (a + 2))                                                                \
    E(30, s * t * a)                                                                      \
    E(31, a - b - c - s)                                                                  \
    E(32, a / b / c)                                                                      \
    E(33, 4 * (a + b) + 3 * s)                                                            \
    E(34, (a + 1) * (b - 1) * (c / 2))                                                    \
    E(35, (r + (a + (b + (c + s)))))

template <typename D, typename RA, typename AA, typename BA, typename CA>
void some(const Cells& box, D dom, RA& R, AA& A, BA& B, CA& C)
{
    double s = vp_real(0), t = vp_real(1);
    switch (vp_param(3)) {
        EXPRS_A
    }
}

template <typename D, typename RA, typename AA, typename BA, typename CA>
void all(const Cells& box, D dom, RA& R, AA& A, BA& B, CA& C)
{
    double s = vp_real(0), t = vp_real(1);
    switch (vp_param(3)) {
        EXPRS_A
        EXPRS_B
    }
}

extern "C" void math_1()
{
    const Cells b = box(0);
    A1 R(0, 1, b), A(1, b), B(2, b.grow(DI, 0, 2)), C(3, 2, b);
    all(b, [&](auto&& e) { with_domain(ib(b))(FWD(e)); }, R, A, B, C);
}

extern "C" void math_2()
{
    const Cells b = box(0);
    A2 R(0, 1, b), A(1, b.grow(DJ, 1, 0));
    A2t B(2, 1, b);
    A2 C(3, b);
    all(b, [&](auto&& e) { with_domain(jb(b), ib(b))(FWD(e)); }, R, A, B, C);
}

extern "C" void math_3()
{
    const Cells b = box(0);
    A3 R(0, b), A(1, 1, b);
    A3y B(2, b.grow(DJ, 0, 1));
    A3z C(3, b.grow(DK, 0, 1));
    some(b, [&](auto&& e) { with_domain(kb(b), jb(b), ib(b))(FWD(e)); }, R, A, B, C);
}

// integer arrays: operands keep their own type, numbers theirs
// parameters: extents, expression
template <typename D>
void ints(const Cells& b, D dom)
{
    const double s = vp_real(0), t = vp_real(1);
    const int ni = b.n(DI), nj = b.n(DJ), n = ni * nj;
    const int* v0 = vp_iarray(0, 2 * n, -9, 9);
    const int* v1 = v0 + n;
    int x[64], y[64], z[64];
    for (int q = 0; q < n; q++) x[q] = v0[q], y[q] = v1[q], z[q] = 77;
    A2 R(0, 1, b);
    const Ib i{b.lo[DI], b.hi[DI]};
    const Jb j{b.lo[DJ], b.hi[DJ]};
    auto a = make_md_span((const int*)x, j, i);
    auto c = make_md_span((const int*)y, i, j);
    auto r = make_md_span((int*)z, j, i);
    auto A = [&](const int(&p)[4]) { return v0[(p[DJ] - b.lo[DJ]) * ni + p[DI] - b.lo[DI]]; };
    auto C = [&](const int(&p)[4]) { return v1[(p[DI] - b.lo[DI]) * nj + p[DJ] - b.lo[DJ]]; };
#define RE(n, e, o)                                                                      \
    case n:                                                                               \
        dom(R.s = e);                                                                     \
        R.expect(b, [&](const int(&p)[4]) -> double { return o; });                       \
        return;
#define IE(n, e, o)                                                                      \
    case n:                                                                               \
        dom(r = e);                                                                       \
        for (int q = 0; q < nj; q++)                                                      \
            for (int w = 0; w < ni; w++) {                                                \
                const int p[4] = {0, b.lo[DJ] + q, b.lo[DI] + w, 0};                      \
                CHECK(z[q * ni + w] == (o));                                              \
            }                                                                             \
        return;
    switch (vp_param(3)) {
        RE(0, s * a, s * A(p))
        RE(1, a * s, A(p) * s)
        RE(2, a + s, A(p) + s)
        RE(3, s - a, s - A(p))
        RE(4, (a - c) * s + t, (A(p) - C(p)) * s + t)
        RE(5, a * 0.5, A(p) * 0.5)
        RE(6, 0.25 * (a + c) - a, 0.25 * (A(p) + C(p)) - A(p))
        RE(7, a / 8.0, A(p) / 8.0)
        RE(8, R.s * a + c, R.init(p) * A(p) + C(p))
        RE(9, c - R.s, C(p) - R.init(p))
        IE(10, 2 * a - c, 2 * A(p) - C(p))
        IE(11, 7 - a * c, 7 - A(p) * C(p))
        IE(12, r + a, 77 + A(p))
    }
}
extern "C" void math_int()
{
    const Cells b = box(0);
    ints(b, [&](auto&& e) { with_domain(Jb{b.lo[DJ], b.hi[DJ]}, Ib{b.lo[DI], b.hi[DI]})(FWD(e)); });
}
