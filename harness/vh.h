/* Interface between the harnesses and the two ways of running them: symbolic
 * (gusym: every vh_real/vh_int/vh_maybe_nan is a symbolic input, vh_check an
 * assertion decided by the solver) and native replay (vh_native.c). */
#if !defined(VH_H)
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <limits.h>

double vh_real(double lo, double hi, const char* name);
int vh_int(int lo, int hi, const char* name);   /* inclusive */
double vh_maybe_nan(double x, const char* name);        /* x or NaN */
#if defined(VH_CBMC)
#define vh_assume(c) __CPROVER_assume(c)
#define vh_check(c, name) __CPROVER_assert((c), name)
/* must come back violated: shows the point is reachable (vacuity guard) */
extern int vh_unconstrained;
#define vh_reach() __CPROVER_assert(vh_unconstrained, "REACHABLE")
#else
#define vh_reach() ((void) 0)
void vh_assume(int c);
void vh_check(int c, const char* name);
#endif
double vh_double(const char* name);     /* any double whatever (cbmc harnesses) */
int vh_anyint(const char* name);        /* any int (cbmc harnesses) */
/* for code that must quit / must not quit (cbmc harnesses) */
void vh_quit_ends(void);        /* a quit from now on silently ends the path */
void vh_noquit(void);           /* a quit from now on is a failure */
void vh_note(const char* name, double x);
int vh_live(void);              /* number of live heap blocks */
int vh_files(void);             /* number of open files */
int vh_try(void (*fn) (void*), void* arg);      /* 1 if fn() quit, 0 if it returned */
int vh_main(int (*fn) (int, char**), int argc, char** argv, const char* in, const char* out, const char* err);
void vh_capture_begin(const char* err);
void vh_capture_end(void);
int vh_same(double a, double b);        /* same value; all NaNs alike */
void vh_checkpoint(void);
double vh_tol(double t);        /* comparison tolerance */

static inline int vh_near(double a, double b, double tol)
{
    double d;

    if (isnan(a) || isnan(b))
        return isnan(a) && isnan(b);
    d = a - b;
    return d <= vh_tol(tol) && d >= -vh_tol(tol);
}
#endif
