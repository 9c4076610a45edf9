/* C25: cell averages */
#include "toolh.h"
#include "gridmap.h"
#include "nan.h"
#include <nn.h>
#include "gridaverager.h"

#if !defined(NP)
#define NP 3
#endif

static const double gx[3] = { 0, 1, 4 }, gy[3] = { 0, 2, 3 };

/* cell of a point not on a line of the grid, -1 outside or in the invalid cell */
static int cellof(double x, double y)
{
    int i, j;

    if (x < 0 || x > 4 || y < 0 || y > 3)
        return -1;
    i = x > 1;
    j = y > 2;
    return i && j ? -1 : j * 2 + i;
}

static void ask(gridaverager* ga, double x, double y, int c, int n[4], double s[4])
{
    point p;

    p.x = x;
    p.y = y;
    p.z = 5555.0;
    ga_getvalue(ga, &p);
    vh_check(vh_same(p.x, x) && vh_same(p.y, y), "the location is not changed");
    if (c < 0 || n[c] == 0)
        vh_check(isnan(p.z), "NaN where there is nothing");
    else
        vh_check(vh_near(p.z * n[c], s[c], 1.0e-9), "the mean of exactly the points in the cell");
}

void h_avg(void)
{
    int batch = vh_int(0, (1 << (NP - 1)) - 1, "how the points are split into batches"), mt = vh_int(0, 1, "map type");
    point pts[NP];
    int n[4] = { 0, 0, 0, 0 }, where[NP], k, i, j;
    double s[4] = { 0, 0, 0, 0 };
#if defined(QUERY)
    double qx, qy;
#endif
    gridnodes* gn = gridnodes_create(3, 3, NT_COR);
    gridmap* gm;
    gridaverager* ga;

    for (j = 0; j < 3; ++j)
        for (i = 0; i < 3; ++i)
            gridnodes_readnextpoint(gn, i == 2 && j == 2 ? NAN : gx[i], i == 2 && j == 2 ? NAN : gy[j]);
    gridnodes_validate(gn);
    gm = gridmap_build(2, 2, gridnodes_getx(gn), gridnodes_gety(gn), mt);
    ga = ga_create(gm);
    vh_checkpoint();
    for (k = 0; k < NP; ++k) {
        double x, y;

#if defined(LINE)
        /* along a line through all cells and outside */
        x = vh_real(-1, 5, "x");
        y = k % 2 ? 3 - 0.75 * x : 0.5 + 0.5 * x;
#else
        x = vh_real(-1, 5, "x");
        y = vh_real(-1, 4, "y");
#endif
        vh_assume(x != 0 && x != 1 && x != 4 && y != 0 && y != 2 && y != 3);
        where[k] = cellof(x, y);
        pts[k].x = x;
        pts[k].y = y;
        pts[k].z = vh_real(-100, 100, "z");
    }
    for (k = 0, i = 0; k < NP; ++k) {
        if (where[k] >= 0) {
            n[where[k]]++;
            s[where[k]] += pts[k].z;
        }
        if (k == NP - 1 || (batch >> k & 1)) {
            ga_addpoints(ga, k - i + 1, pts + i);
            i = k + 1;
            /* ask in between too */
            ask(ga, 0.5, 1.0, 0, n, s);
        }
    }
    ga_addpoints(ga, 0, pts);
    for (j = 0; j < 3; ++j)
        for (i = 0; i < 3; ++i) {
            double x = i == 0 ? 0.25 : i == 1 ? 3.5 : 4.5, y = j == 0 ? 1.75 : j == 1 ? 2.125 : -0.5;

            ask(ga, x, y, cellof(x, y), n, s);
        }
    ask(ga, NAN, 1.0, -1, n, s);
#if defined(QUERY)
    qx = vh_real(-1, 5, "query x");
    qy = 2.5 - qx * 0.25;
    vh_assume(qx != 0 && qx != 1 && qx != 4 && qy != 0 && qy != 2 && qy != 3);
    ask(ga, qx, qy, cellof(qx, qy), n, s);
#endif
    ga_destroy(ga);
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
    vh_check(vh_live() == 0, "nothing is left allocated");
}
