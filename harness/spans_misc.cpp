// bounds arithmetic, coarse-to-fine assignment, stencil dot products
#include "span.h"
#include <tuple>

static Ib ib(const Cells& b, int s = 1) { return Ib{b.lo[DI], b.hi[DI], s}; }
static Jb jb(const Cells& b, int s = 1) { return Jb{b.lo[DJ], b.hi[DJ], s}; }
static Kb kb(const Cells& b, int s = 1) { return Kb{b.lo[DK], b.hi[DK], s}; }

// ------------------------------------------------------------------- bounds
// parameter: stride
template <typename B>
void is(const B& b, int lo, int hi, int st)
{
    CHECK(b.lb() == lo);
    CHECK(b.ub() == hi);
    CHECK(b.stride == st);
}
extern "C" void bounds_dir()
{
    const int st = vp_param(0);
    const int lo = vp_int(-500, 500), hi = lo + vp_int(-1, 300), n = vp_int(0, 50), m = vp_int(0, 50);
    const Jb b{lo, hi, st};
    is(b, lo, hi, st);
    is(Jb(lo, hi + 1, st, false), lo, hi, st);
    is(b + n, lo, hi + n, st);
    is(b + (-m), lo - m, hi, st);
    is(b - n, lo - n, hi, st);
    is(b.expand(n), lo - n, hi + n, st);
    is((b + n) - m, lo - m, hi + n, st);
    is((b + n) + (-m), lo - m, hi + n, st);
    is(b.shift(n - m), lo + n - m, hi + n - m, st);
    is(b.shift(n).shift(-n), lo, hi, st);
    is(b.unit_stride(), lo, hi, 1);
    is(b.expand(n).expand(m), lo - n - m, hi + n + m, st);
    is(b, lo, hi, st); // none of the above changes its operand
    const bounds& base = b;
    is(Jb(base), lo, hi, st);
}
extern "C" void bounds_plain()
{
    const int st = vp_param(0);
    const int lo = vp_int(-500, 500), hi = lo + vp_int(-1, 300), n = vp_int(0, 50), m = vp_int(0, 50);
    const bounds b{lo, hi, st};
    is(b, lo, hi, st);
    is(bounds(lo, hi + 1, st, false), lo, hi, st);
    is(b + n, lo, hi + n, st);
    is(b - n, lo - n, hi, st);
    is(b.expand(m), lo - m, hi + m, st);
    bounds c{lo, hi, st};
    c += n;
    c -= m;
    is(c, lo - m, hi + n, st);
    is(b, lo, hi, st);
    is(bounds(lo, hi), lo, hi, 1);
}
// the number of elements lo, lo + stride, ... up to hi
extern "C" void bounds_count()
{
    const int st = vp_param(0);
    const int lo = vp_int(-500, 500), len = vp_int(0, 300);
    const Ib b{lo, lo + len - 1, st};
    const int s = b.size();
    CHECK(s * st >= len);
    CHECK((s - 1) * st < len);
    CHECK(Ib(lo, lo + len - 1).size() == len);
    CHECK((b + st).size() == s + 1);
    CHECK(b.shift(-3).size() == s);
    CHECK(b.unit_stride().size() == len);
}
// spans remember the box they are made for; factories expand it by the ghost width,
// except for the window dimension; strides belong to domains, not to arrays
extern "C" void bounds_span()
{
    const Cells b = box(0);
    Cells w = b;
    w.hi[DW] = 4;
    const int g = vp_int(0, 6);
    double* p = vp_array(0, 1);
    auto s = make_md_span(p, g, kb(b, 2), jb(b, 3), ib(b), Wb{0, 4});
    auto t = s.dir_bounds();
    is(std::get<0>(t), b.lo[DK] - g, b.hi[DK] + g, 1);
    is(std::get<1>(t), b.lo[DJ] - g, b.hi[DJ] + g, 1);
    is(std::get<2>(t), b.lo[DI] - g, b.hi[DI] + g, 1);
    is(std::get<3>(t), 0, 4, 1);
    auto u = make_md_span(p, ib(b, 4), kb(b), jb(b));
    auto v = u.dir_bounds();
    is(std::get<0>(v), b.lo[DI], b.hi[DI], 1);
    is(std::get<1>(v), b.lo[DK], b.hi[DK], 1);
    is(std::get<2>(v), b.lo[DJ], b.hi[DJ], 1);
    const double* q = p;
    auto c = make_md_span(q, g, jb(b), ib(b, 2));
    auto d = c.dir_bounds();
    is(std::get<0>(d), b.lo[DJ] - g, b.hi[DJ] + g, 1);
    is(std::get<1>(d), b.lo[DI] - g, b.hi[DI] + g, 1);
    CHECK(detail::bounds_sz(kb(b), jb(b), ib(b)) == b.n(DK) * b.n(DJ) * b.n(DI));
}
// the elements a span yields over a domain are as many as the domain has
// parameters: extents, strides
extern "C" void bounds_domain()
{
    const Cells b = box(0);
    const int sk = vp_param(3), sj = vp_param(4), si = vp_param(5);
    A3 A(0, 1, b);
    auto cnt = [](int n, int s) { return (n + s - 1) / s; };
    const int nk = cnt(b.n(DK), sk), nj = cnt(b.n(DJ), sj), ni = cnt(b.n(DI), si);
    CHECK(A.s(kb(b, sk), jb(b, sj), ib(b, si)).size() == nk * nj * ni);
    CHECK(A.s(ib(b, si), kb(b, sk), jb(b, sj)).size() == nk * nj * ni);
    CHECK(kb(b, sk).size() * jb(b, sj).size() * ib(b, si).size() == nk * nj * ni);
}

// ----------------------------------------------------------- coarse to fine
// parameters: ratio, coarse extent along the line, number of fine cells
static int fl(int a, int r) { return a >= 0 ? a / r : -((-a + r - 1) / r); }
struct Line {
    Cells c, f;
    int at[3];  // coarse position across the line
    int r;
    Line(int d, int dims)
    {
        r = vp_param(0);
        const int nc = vp_param(1), nf = vp_param(2);
        for (int q = 0; q < 4; q++) c.lo[q] = c.hi[q] = f.lo[q] = f.hi[q] = 0;
        for (int q = 0; q < 3; q++) {
            if (q != d && q < 3 - dims) continue;
            c.lo[q] = vp_int(-20, 20);
            c.hi[q] = c.lo[q] + (q == d ? nc - 1 : 2);
        }
        for (int q = 0; q < 3; q++)
            if (q != d && q >= 3 - dims) {
                at[q] = c.lo[q] + vp_int(0, 2);
                f.lo[q] = f.hi[q] = vp_int(-30, 30);
            }
        f.lo[d] = c.lo[d] * r + vp_int(0, nc * r - nf);
        f.hi[d] = f.lo[d] + nf - 1;
    }
    template <typename CC>
    double want(const CC& C, const int (&x)[4], int d) const
    {
        int y[4] = {0, 0, 0, 0};
        for (int q = 0; q < 3; q++) y[q] = q == d ? fl(x[q], r) : at[q];
        return C.init(y);
    }
};
extern "C" void fine_1()
{
    Line l(DI, 1);
    A1 F(0, 2, l.f), C(1, l.c);
    with_domain(ib(l.f))(F.s = C.s.fine(l.r));
    F.expect(l.f, [&](const int(&x)[4]) { return l.want(C, x, DI); });
}
template <typename CC, typename FF>
void fine2(int d)
{
    Line l(d, 2);
    FF F(0, 1, l.f);
    CC C(1, 1, l.c);
    if (d == DI)
        with_domain(jb(l.f), ib(l.f))(F.s = C.s.fine(l.r, Jb{l.at[DJ], l.at[DJ]}));
    else
        with_domain(jb(l.f), ib(l.f))(F.s = C.s.fine(l.r, Ib{l.at[DI], l.at[DI]}));
    F.expect(l.f, [&](const int(&x)[4]) { return l.want(C, x, d); });
}
extern "C" void fine_2_i() { fine2<A2, A2>(DI); }
extern "C" void fine_2_j() { fine2<A2, A2>(DJ); }
extern "C" void fine_2t_i() { fine2<A2t, A2>(DI); }
extern "C" void fine_2t_j() { fine2<A2t, A2>(DJ); }
template <typename CC, typename FF>
void fine3(int d, bool swap)
{
    Line l(d, 3);
    FF F(0, 1, l.f);
    CC C(1, l.c);
    const Kb k{l.at[DK], l.at[DK]};
    const Jb j{l.at[DJ], l.at[DJ]};
    const Ib i{l.at[DI], l.at[DI]};
    auto dom = [&](auto&& e) { with_domain(kb(l.f), jb(l.f), ib(l.f))(FWD(e)); };
    switch (d * 2 + swap) {
    case 0: dom(F.s = C.s.fine(l.r, j, i)); break;
    case 1: dom(F.s = C.s.fine(l.r, i, j)); break;
    case 2: dom(F.s = C.s.fine(l.r, k, i)); break;
    case 3: dom(F.s = C.s.fine(l.r, i, k)); break;
    case 4: dom(F.s = C.s.fine(l.r, k, j)); break;
    case 5: dom(F.s = C.s.fine(l.r, j, k)); break;
    }
    F.expect(l.f, [&](const int(&x)[4]) { return l.want(C, x, d); });
}
extern "C" void fine_3_i() { fine3<A3, A3>(DI, false); }
extern "C" void fine_3_j() { fine3<A3, A3>(DJ, true); }
extern "C" void fine_3_k() { fine3<A3, A3>(DK, false); }
extern "C" void fine_3y_j() { fine3<A3y, A3>(DJ, false); }
extern "C" void fine_3z_k() { fine3<A3z, A3>(DK, true); }
extern "C" void fine_3z_i() { fine3<A3z, A3y>(DI, false); }

// ------------------------------------------------------- dot with an offset list
// parameters: extents, number of stencil entries, form, strides
template <typename SS, typename UU, typename VV, typename D>
void dot(const Cells& b, SS S, UU U, VV V, D dom)
{
    constexpr int N = UU::N;
    const int nw = vp_param(3);
    const int stp[4] = {vp_param(5), vp_param(6), vp_param(7), 1};
    const int* o = vp_iarray(0, nw * N, -2, 2);
    const thrust::device_ptr<int> dp(const_cast<int*>(o));
    const double s = vp_real(0);
    auto& st = S.s;
    auto& u = U.s;
    auto& v = V.s;
    auto sum = [&](const int(&x)[4]) {
        double r = 0;
        for (int w = 0; w < nw; w++) {
            int y[4] = {x[0], x[1], x[2], 0}, z[4] = {x[0], x[1], x[2], S.c.lo[DW] + w};
            for (int d = 0; d < N; d++) y[DI - d] += o[w * N + d];
            r += S.init(z) * U.init(y);
        }
        return r;
    };
    switch (vp_param(4)) {
    case 0:
        dom(v = st.dot(u.offset(dp)));
        V.expect(b, stp, [&](const int(&x)[4]) { return sum(x); });
        break;
    case 1:
        dom(v = s * v + st.dot(u.offset(dp)) * s);
        V.expect(b, stp, [&](const int(&x)[4]) { return s * V.init(x) + s * sum(x); });
        break;
    case 2:
        dom(v = v - st.dot(u.offset(dp)));
        V.expect(b, stp, [&](const int(&x)[4]) { return V.init(x) - sum(x); });
        break;
    }
}
static Cells wide(Cells b)
{
    b.lo[DW] = vp_int(-3, 3);
    b.hi[DW] = b.lo[DW] + vp_param(3) - 1;
    return b;
}
extern "C" void dot_1()
{
    const Cells b = box(0);
    dot(b, S1(0, 1, wide(b)), A1(1, 2, b), A1(2, 1, b), [&](auto&& e) { with_domain(ib(b, vp_param(7)))(FWD(e)); });
}
extern "C" void dot_2()
{
    const Cells b = box(0);
    dot(b, S2(0, 1, wide(b)), A2(1, 2, b), A2(2, b), [&](auto&& e) { with_domain(jb(b, vp_param(6)), ib(b, vp_param(7)))(FWD(e)); });
}
extern "C" void dot_3()
{
    const Cells b = box(0);
    dot(b, S3(0, wide(b)), A3(1, 2, b), A3(2, 1, b), [&](auto&& e) { with_domain(kb(b, vp_param(5)), jb(b, vp_param(6)), ib(b, vp_param(7)))(FWD(e)); });
}
