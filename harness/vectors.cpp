// the owning array used with the kernels: indexing, size, transfer to the host
// parameters: extents k j i, ghost width
#include "vp.h"
#include "traits.hpp"
#include "md_device_vector.hpp"

struct Box {
    int lo[3], n[3];
    Box()
    {
        for (int d = 0; d < 3; d++) {
            n[d] = vp_param(d);
            lo[d] = vp_int(-60, 60);
        }
    }
    Kb k() const { return {lo[0], lo[0] + n[0] - 1}; }
    Jb j() const { return {lo[1], lo[1] + n[1] - 1}; }
    Ib i() const { return {lo[2], lo[2] + n[2] - 1}; }
};

// index is the row-major position in the grown box, for every element
extern "C" void vec_index_3()
{
    const Box b;
    const int g = vp_param(3);
    auto v = make_md_vec<double>(g, b.k(), b.j(), b.i());
    const int nk = b.n[0] + 2 * g, nj = b.n[1] + 2 * g, ni = b.n[2] + 2 * g;
    CHECK(v.size() == nk * nj * ni);
    CHECK(v.dim(0) == nk && v.dim(1) == nj && v.dim(2) == ni);
    const int k = vp_below(nk), j = vp_below(nj), i = vp_below(ni);
    CHECK(v.index(b.lo[0] - g + k, b.lo[1] - g + j, b.lo[2] - g + i) == (k * nj + j) * ni + i);
}
extern "C" void vec_index_t()
{
    const Box b;
    auto v = make_md_vec<double>(b.i(), b.k(), b.j());
    CHECK(v.size() == b.n[0] * b.n[1] * b.n[2]);
    const int k = vp_below(b.n[0]), j = vp_below(b.n[1]), i = vp_below(b.n[2]);
    CHECK(v.index(b.lo[2] + i, b.lo[0] + k, b.lo[1] + j) == (i * b.n[0] + k) * b.n[1] + j);
}
extern "C" void vec_index_w()
{
    const Box b;
    const int g = vp_param(3);
    auto v = make_md_vec<double>(g, b.j(), b.i(), Wb{0, 4});
    const int nj = b.n[1] + 2 * g, ni = b.n[2] + 2 * g;
    CHECK(v.size() == nj * ni * 5);
    CHECK(v.dim(2) == 5);
    const int j = vp_below(nj), i = vp_below(ni), w = vp_below(5);
    CHECK(v.index(b.lo[1] - g + j, b.lo[2] - g + i, w) == (j * ni + i) * 5 + w);
}
// what is written through the data pointer is what the host sees
extern "C" void vec_host()
{
    const Box b;
    auto v = make_md_vec<double>(b.j(), b.i());
    const int n = b.n[1] * b.n[2];
    double* p = v.data();
    for (int q = 0; q < n; q++) p[q] = vp_real(q);
    const auto& h = v.host();
    for (int q = 0; q < n; q++) SAME(h[q], vp_real(q));
    p = v.data();
    p[0] = vp_real(n);
    std::vector<double> u = v;
    CHECK((int)u.size() == n);
    SAME(u[0], vp_real(n));
    for (int q = 1; q < n; q++) SAME(u[q], vp_real(q));
    p = v.data();
    p[n - 1] = vp_real(n + 1);
    SAME(v.host()[n - 1], vp_real(n + 1));
    // converted once, then read on the host: still the same values
    p = v.data();
    p[n / 2] = vp_real(n + 2);
    std::vector<double> w = v;
    const auto& g = v.host();
    for (int q = 0; q < n; q++) SAME(g[q], w[q]);
    SAME(g[n / 2], vp_real(n + 2));
}
extern "C" void vec_offset()
{
    const int n = vp_param(0);
    auto o = make_offset_vec(n, 3);
    CHECK(o.size() == 3 * n);
    const int* v = vp_iarray(0, 3 * n, -9, 9);
    for (int q = 0; q < n; q++) o.set_offset(q, v[3 * q], v[3 * q + 1], v[3 * q + 2]);
    const int* d = o.data();
    for (int q = 0; q < n; q++)
        for (int c = 0; c < 3; c++) CHECK(d[o.index(q, c)] == v[3 * q + c]);
    std::vector<int> u = o;
    for (int q = 0; q < n; q++)
        for (int c = 0; c < 3; c++) CHECK(u[o.index(q, c)] == v[3 * q + c]);
}
// an offset set later leaves what was written through the data pointer alone
extern "C" void vec_offset_after_write()
{
    const int n = vp_param(0);
    auto o = make_offset_vec(n, 3);
    const int* v = vp_iarray(0, 3 * n, -9, 9);
    int* p = o.data();
    for (int q = 0; q < 3 * n; q++) p[q] = v[q];
    const int r = vp_below(n);
    const int a = vp_int(-9, 9), b = vp_int(-9, 9), c = vp_int(-9, 9);
    o.set_offset(r, a, b, c);
    const int w[] = {a, b, c};
    const auto& h = o.host();
    for (int q = 0; q < n; q++)
        for (int e = 0; e < 3; e++) CHECK(h[3 * q + e] == (q == r ? w[e] : v[3 * q + e]));
    const int* d = o.data();
    for (int q = 0; q < n; q++)
        for (int e = 0; e < 3; e++) CHECK(d[3 * q + e] == (q == r ? w[e] : v[3 * q + e]));
}
