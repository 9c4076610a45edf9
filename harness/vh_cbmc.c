/* CBMC side of vh.h */
#include <stdarg.h>
#include <stdint.h>
#include "vh.h"

double nondet_double(void);
int nondet_int(void);

double vh_in;
int vh_ini;
int vh_unconstrained = 0;

double vh_double(const char* name)
{
    double v = nondet_double();

    vh_in = v;
    return v;
}

double vh_real(double lo, double hi, const char* name)
{
    double v = nondet_double();

    __CPROVER_assume(v >= lo && v <= hi);
    vh_in = v;
    return v;
}

int vh_anyint(const char* name)
{
    int v = nondet_int();

    vh_ini = v;
    return v;
}

int vh_int(int lo, int hi, const char* name)
{
    int v = nondet_int();

    __CPROVER_assume(v >= lo && v <= hi);
    vh_ini = v;
    return v;
}

double vh_maybe_nan(double x, const char* name)
{
    int b = nondet_int();

    __CPROVER_assume(b == 0 || b == 1);
    vh_ini = b;
    return b ? (double) NAN : x;
}

double vh_tol(double t)
{
    return t;
}

int vh_same(double a, double b)
{
    if (isnan(a) || isnan(b))
        return isnan(a) && isnan(b);
    return a == b;
}

static int quitok = 0;

void vh_quit_ends(void)
{
    quitok = 1;
}

void vh_noquit(void)
{
    quitok = 0;
}

/* every way out of the library's gu_quit() */
void exit(int code)
{
    __CPROVER_assert(quitok, "the code quits only where quitting is specified");
    vh_reach();
    __CPROVER_assume(0);
}

void abort(void)
{
    __CPROVER_assert(0, "abort is never called");
    __CPROVER_assume(0);
}

/*
 * 2-D arrays are modelled as a separate table of row pointers and one block of
 * elements (gu_alloc2d itself is verified separately, property C30).
 */
extern void gu_quit(char* format, ...);

#if !defined(REAL_ALLOC)
void* gu_alloc2d(size_t nj, size_t ni, size_t unitsize)
{
    void** pp;
    char* p;
    size_t j;

    if (nj == 0 || ni == 0) {
        exit(1);
        return NULL;
    }
    if (nj > SIZE_MAX / 16 || ni > SIZE_MAX / unitsize || nj > SIZE_MAX / 2 / (ni * unitsize)) {
        exit(1);                /* refused as too big */
        return NULL;
    }
    __CPROVER_assert(nj <= 64 && ni <= 64, "sizes within the modelled range");
    pp = malloc(nj * sizeof(void*));
    if (unitsize == sizeof(double)) {
#if defined(MAXTOTAL)
        /* blocks of constant size: one object per size */
        double* d = NULL;
        size_t k;

        __CPROVER_assert(nj * ni <= MAXTOTAL, "sizes within the modelled range");
        for (k = 1; k <= MAXTOTAL; ++k)
            if (nj * ni == k)
                d = malloc(k * sizeof(double));
#else
        double* d = malloc(nj * ni * sizeof(double));
#endif

        for (j = 0; j < nj * ni; ++j)
            d[j] = 0.0;
        p = (char*) d;
    } else {
        int* d = malloc(nj * ni * sizeof(int));

        for (j = 0; j < nj * ni; ++j)
            d[j] = 0;
        p = (char*) d;
    }
    for (j = 0; j < nj; ++j)
        pp[j] = p + j * ni * unitsize;
    return pp;
}

void gu_free2d(void* p)
{
    void** pp = p;

    if (pp == NULL)
        return;
    free(pp[0]);
    free(pp);
}
#endif

int __builtin_isfinite(double x)
{
    return __CPROVER_isfinited(x);
}

int __builtin_isnan(double x)
{
    return __CPROVER_isnand(x);
}

int __builtin_isinf_sign(double x)
{
    return __CPROVER_isinfd(x) ? (x > 0 ? 1 : -1) : 0;
}
