// Interface between a harness and the checker.  Symbolically executed, every
// vp_int / vp_below is an unknown and every array an unknown function; natively
// (replay) the values of a counterexample are fed in instead.
#pragma once
extern "C" {
int vp_param(int k);                       // enumerated parameter of this case
int vp_int(int lo, int hi);                // any integer in [lo, hi]
int vp_below(int n);                       // any integer in [0, n), n may be symbolic
double* vp_array(int id, long n);          // n doubles
const int* vp_iarray(int id, int n, int lo, int hi); // n integers in [lo, hi]
void vp_check(int cond, int line);         // property
void vp_same(double a, double b, int line); // property: equal as reals
void vp_cell(const double* p, int line);    // property: *p still holds its initial value
double vp_init(const double* p);           // initial content of *p
void vp_assume(int cond);                  // restrict the inputs
double vp_real(int id);                    // any real number
}
#define CHECK(c) vp_check((c) ? 1 : 0, __LINE__)
#define SAME(a, b) vp_same((a), (b), __LINE__)
#define CELL(p) vp_cell((p), __LINE__)
