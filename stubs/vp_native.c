/* native side of vp.h: feeds recorded values, collects failures */
#include <math.h>
#include <setjmp.h>
#include <stdio.h>
int vpn_params[64], vpn_ints[4096], vpn_nints, vpn_used;
double *vpn_arr[64], *vpn_init[64];
long vpn_len[64];
int *vpn_iarr[64];
double vpn_reals[64];
int vpn_nfail, vpn_lines[64], vpn_skip;
double vpn_a[64], vpn_b[64], vpn_tol = 1e-7;
static jmp_buf out;
void vpn_run(void (*fn)(void)) { if (!setjmp(out)) fn(); }
static void skip(void) { vpn_skip = 1; longjmp(out, 1); }
int vp_param(int k) { return vpn_params[k]; }
static int next(void)
{
    if (vpn_used >= vpn_nints) skip();
    return vpn_ints[vpn_used++];
}
int vp_int(int lo, int hi) { return next(); }
int vp_below(int n) { return next(); }
double *vp_array(int id, long n) { if (n > vpn_len[id]) skip(); return vpn_arr[id]; }
const int *vp_iarray(int id, int n, int lo, int hi) { return vpn_iarr[id]; }
double vp_real(int id) { return vpn_reals[id]; }
static void fail(int line, double a, double b)
{
    if (vpn_nfail < 64) { vpn_lines[vpn_nfail] = line; vpn_a[vpn_nfail] = a; vpn_b[vpn_nfail] = b; }
    ++vpn_nfail;
    longjmp(out, 1);
}
void vp_check(int c, int line) { if (!vpn_skip && !c) fail(line, c, 1); }
void vp_same(double a, double b, int line)
{
    if (vpn_skip) return;
    double s = fmax(1, fmax(fabs(a), fabs(b)));
    if (isnan(b) && isnan(a)) return;
    if (!(fabs(a - b) <= vpn_tol * s)) fail(line, a, b);
}
double vp_init(const double *p)
{
    for (int i = 0; i < 64; i++)
        if (vpn_arr[i] && p >= vpn_arr[i] && p < vpn_arr[i] + vpn_len[i]) return vpn_init[i][p - vpn_arr[i]];
    return NAN;
}
void vp_cell(const double *p, int line) { vp_same(*p, vp_init(p), line); }
void vp_assume(int c) { if (!c) skip(); }
