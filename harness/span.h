// arrays seen through spans: independent row-major addressing used as oracle
#pragma once
#include "vp.h"
#include "md_device_span.hpp"

enum { DK = 0, DJ = 1, DI = 2, DW = 3 };

// a box of cells: per dimension (K, J, I, W) first and last index
struct Cells {
    int lo[4], hi[4];
    Cells grow(int d, int l, int h) const
    {
        Cells c = *this;
        c.lo[d] -= l;
        c.hi[d] += h;
        return c;
    }
    Cells ghost(int g) const { return grow(DK, g, g).grow(DJ, g, g).grow(DI, g, g); }
    int n(int d) const { return hi[d] - lo[d] + 1; }
};

// box with symbolic position and extents from the case parameters first..first+2
// (an extent of 0: the dimension is not used)
inline Cells box(int first)
{
    Cells c;
    for (int d = 0; d < 3; d++) {
        int m = vp_param(first + d);
        c.lo[d] = vp_int(-60, 60);
        c.hi[d] = c.lo[d] + m - 1;
    }
    c.lo[DW] = 0;
    c.hi[DW] = 0;
    return c;
}

template <int... O>
struct Arr {
    static constexpr int N = sizeof...(O);
    Cells c;
    double* p;
    md_device_span<double, O...> s;

    static long total(const Cells& c)
    {
        long t = 1;
        ((t *= c.n(O)), ...);
        return t;
    }
    Arr(int id, const Cells& c)
        : c(c), p(vp_array(id, total(c))), s(p, lazy::dir_bounds<O>{c.lo[O], c.hi[O]}...)
    {
    }
    // through the factory, with ghost cells g around the box b
    Arr(int id, int g, const Cells& b)
        : c(b.ghost(g)), p(vp_array(id, total(c))), s(make_md_span(p, g, lazy::dir_bounds<O>{b.lo[O], b.hi[O]}...))
    {
    }
    double* ptr(const int (&x)[4]) const
    {
        long t = 0;
        ((t = t * c.n(O) + (x[O] - c.lo[O])), ...);
        return p + t;
    }
    double init(const int (&x)[4]) const { return vp_init(ptr(x)); }
    double init(const int (&x)[4], int d, int s) const
    {
        int y[4] = {x[0], x[1], x[2], x[3]};
        y[d] += s;
        return vp_init(ptr(y));
    }
    static constexpr bool has(int d) { return ((d == O) || ...); }

    // every cell of the array: inside the domain (a box with strides) it must hold
    // f(x), elsewhere its initial value
    template <typename F>
    void expect(const Cells& d, const int (&st)[4], F f) const
    {
        int lo[4], hi[4], x[4];
        for (int q = 0; q < 4; q++) {
            lo[q] = has(q) ? c.lo[q] : 0;
            hi[q] = has(q) ? c.hi[q] : 0;
        }
        // concrete extents, symbolic position
        for (int a = 0; a <= hi[0] - lo[0]; a++)
            for (int b = 0; b <= hi[1] - lo[1]; b++)
                for (int e = 0; e <= hi[2] - lo[2]; e++)
                    for (int w = 0; w <= hi[3] - lo[3]; w++) {
                        x[0] = lo[0] + a, x[1] = lo[1] + b, x[2] = lo[2] + e, x[3] = lo[3] + w;
                        bool in = true;
                        for (int q = 0; q < 4; q++)
                            if (has(q)) {
                                int r = x[q] - d.lo[q];
                                in = in && r >= 0 && x[q] <= d.hi[q] && r % st[q] == 0;
                            }
                        const double* z = ptr(x);
                        if (in)
                            SAME(*z, f(x));
                        else
                            CELL(z);
                    }
    }
    template <typename F>
    void expect(const Cells& d, F f) const
    {
        const int one[4] = {1, 1, 1, 1};
        expect(d, one, f);
    }
};

using A1 = Arr<DI>;
using A2 = Arr<DJ, DI>;
using A2t = Arr<DI, DJ>;
using A3 = Arr<DK, DJ, DI>;
using A3y = Arr<DI, DK, DJ>;
using A3z = Arr<DJ, DI, DK>;
using A3r = Arr<DI, DJ, DK>;
using S1 = Arr<DI, DW>;
using S2 = Arr<DJ, DI, DW>;
using S3 = Arr<DK, DJ, DI, DW>;
