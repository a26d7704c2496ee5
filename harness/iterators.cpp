// traversal, stencil, coarse-to-fine and offset iterators over an index sequence
#include "vp.h"
#include <thrust/iterator/counting_iterator.h>

#include "coarse_to_fine_iterator.hpp"
#include "forward_stencil_iterator.hpp"
#include "matrix_traversal_iterator.hpp"
#include "matrix_utils.hpp"
#include "md_device_span.hpp"
#include "offset_iterator.hpp"
#include "submatrix_iterator.hpp"
#include "transpose_iterator.hpp"

using C = thrust::counting_iterator<int>;

// extents: the k-th case parameter, 0 = any extent in [1, max]
template <int N>
struct Box {
    int n[N], c[N];
    void extents(int first, int max)
    {
        for (int d = 0; d < N; d++) {
            int q = vp_param(first + d);
            n[d] = q ? q : vp_int(1, max);
        }
    }
    void coord(int (&x)[N])
    {
        for (int d = 0; d < N; d++) x[d] = vp_below(n[d]);
    }
    int pos(const int (&x)[N]) const
    {
        int t = 0;
        for (int d = 0; d < N; d++) t = t * n[d] + x[d];
        return t;
    }
    int size() const
    {
        int t = 1;
        for (int d = 0; d < N; d++) t *= n[d];
        return t;
    }
};

// ------------------------------------------------ matrix_traversal_iterator
template <int N>
struct Trav : Box<N> {
    int stride[N], base;
    using It = matrix_traversal_iterator<C, N>;

    Trav()
    {
        this->extents(0, 40);
        for (int d = 0; d < N; d++) stride[d] = vp_int(0, 500);
        base = vp_int(-1000, 1000);
    }
    It begin() const
    {
        int z[N] = {};
        return It{C{base}, stride, z, this->n};
    }
    int value(const int (&x)[N]) const
    {
        int v = base;
        for (int d = 0; d < N; d++) v += stride[d] * x[d];
        return v;
    }
};

template <int N>
void trav_access()
{
    Trav<N> t;
    int a[N], b[N];
    auto it = t.begin();
    CHECK(it.size() == t.size());
    for (int d = 0; d < N; d++) CHECK(it.stride_dim(d) == t.stride[d]);
    t.coord(a);
    const int pa = t.pos(a);
    CHECK(*(it + pa) == t.value(a));
    CHECK(it[pa] == t.value(a));
    auto p = it;
    p += pa;
    t.coord(b);
    const int pb = t.pos(b);
    auto q = p;
    q += pb - pa;
    CHECK(*q == t.value(b));
    CHECK(q - it == pb);
    CHECK(q - p == pb - pa);
    auto r = q - (pb - pa);
    CHECK(*r == t.value(a));
    CHECK(r == p);
    CHECK((p == q) == (pa == pb));
}

// construction at an arbitrary start coordinate behaves like stepping there
template <int N>
void trav_start()
{
    Trav<N> t;
    int a[N];
    t.coord(a);
    const int pa = t.pos(a);
    typename Trav<N>::It p{C{t.base}, t.stride, a, t.n};
    CHECK(*p == t.value(a));
    CHECK(p == t.begin() + pa);
    CHECK(p - t.begin() == pa);
}

template <int N>
void trav_step()
{
    Trav<N> t;
    int a[N];
    t.coord(a);
    const int pa = t.pos(a), sz = t.size();
    auto it = t.begin(), end = it + sz;
    auto p = it + pa;
    auto q = p;
    ++q;
    CHECK(q - it == pa + 1);
    CHECK(q == it + (pa + 1));
    CHECK((q == end) == (pa + 1 == sz));
    CHECK(end - q == sz - pa - 1);
    auto r = q;
    --r;
    CHECK(r == p);
    CHECK(*r == t.value(a));
    if (pa + 1 < sz) CHECK(*q == *(it + (pa + 1)));
    if (pa > 0) {
        auto s = p;
        --s;
        CHECK(s == it + (pa - 1));
        CHECK(*s == *(it + (pa - 1)));
        ++s;
        CHECK(s == p);
    }
}

template <int N>
void trav_end()
{
    Trav<N> t;
    int a[N];
    t.coord(a);
    const int pa = t.pos(a), sz = t.size();
    auto it = t.begin(), end = it + sz;
    CHECK(end - it == sz);
    CHECK(it + 0 == it);
    auto p = end;
    p += pa - sz;
    CHECK(p == it + pa);
    CHECK(*p == t.value(a));
    auto q = end;
    --q;
    CHECK(q - it == sz - 1);
    CHECK(q == it + (sz - 1));
    int z[N];
    for (int d = 0; d < N; d++) z[d] = t.n[d] - 1;
    CHECK(*q == t.value(z));
    CHECK(p + (sz - pa) == end);
    CHECK(!(p == end));
    CHECK(p < end);
    CHECK(it <= p);
}

// a sequence of moves: whatever was done before, the next move behaves the same
template <typename It, typename Box, typename See>
void walk(It it, Box& t, int sz, See see)
{
    constexpr int N = sizeof(t.n) / sizeof(int);
    int a[N], b[N], c[N];
    t.coord(a);
    t.coord(b);
    t.coord(c);
    const int pa = t.pos(a), pb = t.pos(b), pc = t.pos(c);
    const It end = it + sz;
    It p = it;
    p += pa;
    ++p; // may be the end
    CHECK(p - it == pa + 1);
    p += pb - pa - 1;
    see(*p, b);
    CHECK(p - it == pb);
    CHECK(end - p == sz - pb);
    if (pb > 0) {
        --p;
        CHECK(p - it == pb - 1);
        CHECK(p == it + (pb - 1));
        p += pc - pb + 1;
        see(*p, c);
        CHECK(p - it == pc);
    }
}

// the same starting from the end
template <typename It, typename Box, typename See>
void walk_back(It it, Box& t, int sz, See see)
{
    constexpr int N = sizeof(t.n) / sizeof(int);
    int a[N], b[N];
    t.coord(a);
    t.coord(b);
    const int pa = t.pos(a), pb = t.pos(b);
    It q = it + sz;
    --q;
    q += pb - (sz - 1);
    see(*q, b);
    ++q;
    q -= pb + 1;
    CHECK(q == it);
    q += pa;
    q++;
    q--;
    see(*q, a);
    see(*(pb + it), b);
    CHECK((q < it + pb) == (pa < pb));
}

template <int N>
void trav_walk()
{
    Trav<N> t;
    walk(t.begin(), t, t.size(), [&](int v, const int (&x)[N]) { CHECK(v == t.value(x)); });
}
template <int N>
void trav_back()
{
    Trav<N> t;
    walk_back(t.begin(), t, t.size(), [&](int v, const int (&x)[N]) { CHECK(v == t.value(x)); });
}

// ------------------------------------------- transposed / submatrix factories
template <int N, int... I>
void transpose_view()
{
    Box<N> t;
    t.extents(0, 40);
    const int perm[] = {I...};
    int src[N], base = vp_int(-1000, 1000);
    t.coord(src);
    int pos = 0, ofs = 0;
    for (int d = 0; d < N; d++) ofs = ofs * t.n[d] + src[d];
    for (int d = 0; d < N; d++) pos = pos * t.n[perm[d]] + src[perm[d]];
    auto it = make_transpose<I...>(C{base}, t.n);
    CHECK(*(it + pos) == base + ofs);
    CHECK(it.size() == t.size());
}

template <int N>
void submatrix_view()
{
    Box<N> t; // t: the submatrix, strided
    t.extents(0, 12);
    int sz[N], lb[N], ub[N], stm[N], a[N];
    for (int d = 0; d < N; d++) {
        stm[d] = vp_param(N + d);
        lb[d] = vp_int(0, 20);
        const int slack = vp_int(0, stm[d] - 1); // the last stride may not be full
        ub[d] = lb[d] + (t.n[d] - 1) * stm[d] + slack;
        sz[d] = ub[d] + 1 + vp_int(0, 20);
    }
    const int base = vp_int(-1000, 1000);
    auto it = make_submatrix(C{base}, sz, lb, ub, stm);
    CHECK(it.size() == t.size());
    t.coord(a);
    int ofs = 0;
    for (int d = 0; d < N; d++) ofs = ofs * sz[d] + lb[d] + a[d] * stm[d];
    CHECK(*(it + t.pos(a)) == base + ofs);
}

// ------------------------------------------------------ forward_stencil_iterator
template <int N, int I>
struct Sten : Trav<N> {
    Box<N> s; // positions of the stencil: one fewer along I
    Sten()
    {
        for (int d = 0; d < N; d++) s.n[d] = this->n[d] - (d == I ? 1 : 0);
        vp_assume(s.n[I] >= 1);
    }
    void see(const stencil_t<int>& v, const int (&x)[N])
    {
        CHECK(v.a == this->value(x));
        CHECK(v.b == this->value(x) + this->stride[I]);
    }
};

template <int N, int I>
void sten_access()
{
    Sten<N, I> t;
    int a[N], b[N];
    auto it = t.begin().template stencil<I>();
    CHECK(it.size() == t.s.size());
    t.s.coord(a);
    t.s.coord(b);
    const int pa = t.s.pos(a), pb = t.s.pos(b);
    auto p = it + pa;
    t.see(*p, a);
    auto q = p + (pb - pa);
    t.see(*q, b);
    CHECK(q - p == pb - pa);
    CHECK(q - it == pb);
    CHECK((q == p) == (pa == pb));
}

// same through the run-time direction
template <int N, int I>
void sten_dynamic()
{
    Sten<N, I> t;
    int a[N];
    auto it = t.begin().stencil(I);
    CHECK(it.size() == t.s.size());
    t.s.coord(a);
    t.see(*(it + t.s.pos(a)), a);
}

template <int N, int I>
void sten_step()
{
    Sten<N, I> t;
    int a[N], b[N];
    auto it = t.begin().template stencil<I>();
    t.s.coord(a);
    const int pa = t.s.pos(a), sz = t.s.size();
    auto p = it + pa;
    if (pa + 1 < sz) {
        auto q = p;
        ++q;
        CHECK(q == it + (pa + 1));
        CHECK(q - it == pa + 1);
        auto v = *q, w = *(it + (pa + 1));
        CHECK(v.a == w.a);
        CHECK(v.b == w.b);
        --q;
        CHECK(q == p);
        t.see(*q, a);
    }
    if (pa > 0) {
        auto q = p;
        --q;
        CHECK(q == it + (pa - 1));
        auto v = *q, w = *(it + (pa - 1));
        CHECK(v.a == w.a);
        CHECK(v.b == w.b);
        ++q;
        CHECK(q == p);
        t.see(*q, a);
    }
    // a step followed by a jump
    t.s.coord(b);
    const int pb = t.s.pos(b);
    if (pa + 1 < sz) {
        auto q = p;
        ++q;
        t.see(*(q + (pb - pa - 1)), b);
    }
    if (pa > 0) {
        auto q = p;
        --q;
        t.see(*(q + (pb - pa + 1)), b);
    }
}

template <int N, int I>
void sten_end()
{
    Sten<N, I> t;
    int a[N];
    auto it = t.begin().template stencil<I>();
    const int sz = t.s.size();
    auto end = it + sz;
    CHECK(end - it == sz);
    for (int d = 0; d < N; d++) a[d] = t.s.n[d] - 1;
    // the last position, stepped or jumped to, meets the same end
    auto p = it + (sz - 1);
    t.see(*p, a);
    ++p;
    CHECK(p == end);
    CHECK(p - it == sz);
    --p;
    t.see(*p, a);
    --end;
    t.see(*end, a);
    int b[N];
    t.s.coord(b);
    const int pb = t.s.pos(b);
    auto q = (it + sz) + (pb - sz);
    t.see(*q, b);
    CHECK(q + (sz - pb) == it + sz);
    CHECK(!(q == it + sz));
}

template <int N, int I>
void sten_walk()
{
    Sten<N, I> t;
    walk(t.begin().template stencil<I>(), t.s, t.s.size(), [&](const stencil_t<int>& v, const int (&x)[N]) { t.see(v, x); });
}
template <int N, int I>
void sten_back()
{
    Sten<N, I> t;
    walk_back(t.begin().template stencil<I>(), t.s, t.s.size(), [&](const stencil_t<int>& v, const int (&x)[N]) { t.see(v, x); });
}

// ------------------------------------------------------- coarse_to_fine_iterator
extern "C" void ctf_access()
{
    const int r = vp_param(0), s = vp_int(0, 300), base = vp_int(-1000, 1000);
    // fine indices by (coarse index, phase)
    const int c0 = vp_int(-200, 200), p0 = vp_below(r);
    const int c1 = vp_int(-200, 200), p1 = vp_below(r);
    const int c2 = vp_int(-200, 200), p2 = vp_below(r);
    const int f0 = c0 * r + p0, f1 = c1 * r + p1, f2 = c2 * r + p2;
    coarse_to_fine_iterator<C> it{C{base}, r, s, f0};
    CHECK(*it == base);
    auto a = it + (f1 - f0);
    CHECK(*a == base + (c1 - c0) * s);
    CHECK(it[f1 - f0] == base + (c1 - c0) * s);
    auto b = a + (f2 - f1);
    CHECK(*b == base + (c2 - c0) * s);
    CHECK(b - a == f2 - f1);
    CHECK((b == a) == (f1 == f2));
    CHECK((a < b) == (f1 < f2));
    auto u = a;
    ++u;
    CHECK(u == it + (f1 + 1 - f0));
    CHECK(*u == base + (c1 + (p1 + 1 == r ? 1 : 0) - c0) * s);
    --u;
    CHECK(u == a);
    --u;
    CHECK(*u == base + (c1 - (p1 == 0 ? 1 : 0) - c0) * s);
    CHECK(detail::coarse_index(r, f1) == c1);
}

// ------------------------------------------------------------- offset_iterator
template <int N>
void offset_access()
{
    const int n = vp_param(0);
    const int* o = vp_iarray(0, n * N, -50, 50);
    int stride[N];
    for (int d = 0; d < N; d++) stride[d] = vp_int(0, 400);
    const int base = vp_int(-1000, 1000);
    auto it = make_offset_iterator(C{base}, stride, thrust::device_ptr<int>(const_cast<int*>(o)));
    for (int k = 0; k < n; k++) {
        int v = base;
        for (int d = 0; d < N; d++) v += stride[d] * o[k * N + d];
        CHECK(it[k] == v);
        auto p = it;
        p += k;
        CHECK(*p == v);
        CHECK(p - it == k);
        CHECK((p == it) == (k == 0));
        for (int j = 0; j < n; j++) {
            auto q = p + (j - k);
            CHECK(q == it + j);
            CHECK(q - p == j - k);
        }
        if (k > 0) {
            --p;
            CHECK(*p == it[k - 1]);
            ++p;
            CHECK(*p == v);
        }
    }
}

// ----------------------------------------------------------------- ravel/unravel
template <int N>
void ravel_inverse()
{
    Box<N> t;
    t.extents(0, 40);
    int a[N], b[N], c[N];
    t.coord(a);
    const int p = ravel<N>(t.n, a);
    CHECK(p == t.pos(a));
    CHECK(p >= 0);
    CHECK(p < t.size());
    unravel<N>(t.n, p, c);
    for (int d = 0; d < N; d++) CHECK(c[d] == a[d]);
    // order preserving and one to one
    t.coord(b);
    const int q = ravel<N>(t.n, b);
    int cmp = 0;
    for (int d = N - 1; d >= 0; d--) cmp = a[d] < b[d] ? -1 : a[d] > b[d] ? 1 : cmp;
    CHECK((p < q) == (cmp < 0));
    CHECK((p == q) == (cmp == 0));
    // the position one past the last element
    unravel<N>(t.n, t.size(), c);
    CHECK(ravel<N>(t.n, c) == t.size());
}

template <int N>
void strides()
{
    Box<N> t;
    t.extents(0, 40);
    int st[N];
    stride_from_size<N>(t.n, st);
    int w[N];
    for (int d = 0; d < N; d++) w[d] = vp_int(1, 9);
    int want = 1;
    for (int d = N - 1; d >= 0; d--) {
        CHECK(st[d] == want);
        CHECK((stride_dim<N>(t.n, d) == want));
        want *= t.n[d];
    }
    CHECK((stride_dim<N>(t.n, -1) == want));
    CHECK((stride_dim<-1, N>(t.n) == want));
    CHECK((stride_dim<0, N>(t.n) == st[0]));
    CHECK((stride_dim<N - 1, N>(t.n) == 1));
    CHECK((stride_dim<0, N>(t.n, w) == st[0] * w[0]));
    CHECK((stride_dim<N - 1, N>(t.n, w) == w[N - 1]));
    if constexpr (N > 1) CHECK((stride_dim<1, N>(t.n, w) == st[1] * w[1]));
}

#define PER_N(f)                                                                         \
    extern "C" void f##_1() { f<1>(); }                                                   \
    extern "C" void f##_2() { f<2>(); }                                                   \
    extern "C" void f##_3() { f<3>(); }                                                   \
    extern "C" void f##_4() { f<4>(); }
#define PER_NI(f)                                                                        \
    extern "C" void f##_10() { f<1, 0>(); }                                               \
    extern "C" void f##_20() { f<2, 0>(); }                                               \
    extern "C" void f##_21() { f<2, 1>(); }                                               \
    extern "C" void f##_30() { f<3, 0>(); }                                               \
    extern "C" void f##_31() { f<3, 1>(); }                                               \
    extern "C" void f##_32() { f<3, 2>(); }

PER_N(trav_access)
PER_N(trav_start)
PER_N(trav_step)
PER_N(trav_end)
PER_N(trav_walk)
PER_N(trav_back)
PER_N(ravel_inverse)
PER_N(strides)
extern "C" void ravel_inverse_5() { ravel_inverse<5>(); }
PER_N(submatrix_view)
PER_N(offset_access)
PER_NI(sten_access)
PER_NI(sten_dynamic)
PER_NI(sten_step)
PER_NI(sten_end)
PER_NI(sten_walk)
PER_NI(sten_back)
extern "C" void transpose_view_01() { transpose_view<2, 0, 1>(); }
extern "C" void transpose_view_10() { transpose_view<2, 1, 0>(); }
extern "C" void transpose_view_012() { transpose_view<3, 0, 1, 2>(); }
extern "C" void transpose_view_021() { transpose_view<3, 0, 2, 1>(); }
extern "C" void transpose_view_102() { transpose_view<3, 1, 0, 2>(); }
extern "C" void transpose_view_120() { transpose_view<3, 1, 2, 0>(); }
extern "C" void transpose_view_201() { transpose_view<3, 2, 0, 1>(); }
extern "C" void transpose_view_210() { transpose_view<3, 2, 1, 0>(); }
extern "C" void transpose_view_3120() { transpose_view<4, 3, 1, 2, 0>(); }
extern "C" void transpose_view_1032() { transpose_view<4, 1, 0, 3, 2>(); }
