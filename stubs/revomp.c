/* OpenMP runtime stand-in used only to replay schedules: a parallel region is
   executed by as many virtual threads as there are iterations, one after the
   other, last one first. */
#include <stdarg.h>
#include <stdint.h>
typedef struct { int a, b, c, d; const char *s; } ident_t;
static long cur = -1, total = -1;
static int inreg = 0;
int __kmpc_global_thread_num(ident_t *l) { return 0; }
int omp_get_thread_num(void) { return 0; }
int omp_get_num_threads(void) { return 1; }
int omp_get_max_threads(void) { return 1; }
int omp_get_num_procs(void) { return 1; }
int omp_in_parallel(void) { return inreg; }
void __kmpc_push_num_threads(ident_t *l, int g, int n) {}
void __kmpc_barrier(ident_t *l, int g) {}
void __kmpc_for_static_fini(ident_t *l, int g) {}
#define INIT(name, T, S)                                                         \
    void name(ident_t *l, int g, int s, int *last, T *lo, T *hi, S *st, S inc, S ch) { \
        if (!inreg) return;                                                       \
        if (cur < 0) { total = (long)*hi - (long)*lo; cur = total; }              \
        if (total < 0) { return; }                                                \
        T v = (T)(*lo + cur);                                                     \
        *lo = v; *hi = v; *last = 0;                                              \
    }
INIT(__kmpc_for_static_init_4, int32_t, int32_t)
INIT(__kmpc_for_static_init_4u, uint32_t, int32_t)
INIT(__kmpc_for_static_init_8, int64_t, int64_t)
INIT(__kmpc_for_static_init_8u, uint64_t, int64_t)
typedef void (*F)(int *, int *, void *, void *, void *, void *, void *, void *, void *, void *,
                  void *, void *, void *, void *, void *, void *, void *, void *);
void __kmpc_fork_call(ident_t *l, int argc, F fn, ...)
{
    void *a[16] = {0};
    va_list ap;
    va_start(ap, fn);
    for (int i = 0; i < argc && i < 16; ++i) a[i] = va_arg(ap, void *);
    va_end(ap);
    int z = 0, z2 = 0;
    cur = -1; total = -1; inreg = 1;
    do {
        z = z2 = 0;
        fn(&z, &z2, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
        if (cur < 0) break;
        --cur;
    } while (cur >= 0);
    inreg = 0;
}
