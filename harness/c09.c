/* C09: point-in-polygon is exact, boundary inclusive */
#include "vh.h"
#include "poly.h"

#if !defined(NV)
#define NV 3
#endif

/* definition: on the outline, or inside by the even-odd rule */
static int inside(int n, const double* x, const double* y, double px, double py)
{
    int i, in = 0;

    for (i = 0; i < n; ++i) {
        int j = (i + 1) % n;
        double cross = (x[j] - x[i]) * (py - y[i]) - (y[j] - y[i]) * (px - x[i]);

        if (cross == 0.0) {
            int bx = x[i] <= x[j] ? (x[i] <= px && px <= x[j]) : (x[j] <= px && px <= x[i]);
            int by = y[i] <= y[j] ? (y[i] <= py && py <= y[j]) : (y[j] <= py && py <= y[i]);

            if (bx && by)
                return 1;
        }
        if ((y[i] <= py) != (y[j] <= py))
            /* half-open rule: edge crosses the ray to the right of p */
            if ((cross > 0.0) == (y[j] > y[i]))
                in = !in;
    }
    return in;
}

static poly* mk(int n, const double* x, const double* y, int first, int step, int close, int dup)
{
    poly* pl = poly_create();
    int k, i = first;

    for (k = 0; k < n; ++k) {
        poly_addpoint(pl, x[i], y[i]);
        if (k == dup)
            poly_addpoint(pl, x[i], y[i]);
        i = (i + step + n) % n;
    }
    if (close)
        poly_addpoint(pl, x[first], y[first]);
    return pl;
}

static void run(int n, const double* x, const double* y)
{
    double px = vh_real(-1, 9, "px");
    double py = vh_real(-1, 9, "py");
    int rep = vh_int(0, 3, "representation");
    int first = 0, step = 1, close = 0, dup = -1;
    poly* pl;

    if (rep == 1) {
        first = n - 1;
        step = -1;
    } else if (rep == 2) {
        close = 1;
        first = 1;
    } else if (rep == 3)
        dup = 1;
    pl = mk(n, x, y, first, step, close, dup);
    vh_check(poly_containspoint(pl, px, py) == inside(n, x, y, px, py), "containment equals the even-odd definition with the outline included");
    poly_destroy(pl);
}

void h_sym(void)
{
    double x[NV], y[NV];
    int i;

    for (i = 0; i < NV; ++i) {
        x[i] = vh_real(0, 8, "x");
        y[i] = vh_real(0, 8, "y");
    }
    run(NV, x, y);
}
