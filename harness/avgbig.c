/* C25: averages of many points */
#include "toolh.h"
#include "gridmap.h"
#include "nan.h"
#include <nn.h>
#include "gridaverager.h"

#if !defined(SEED)
#define SEED 0
#endif
#define NI 7
#define NJ 9
#if !defined(NP)
#define NP 240
#endif

static unsigned int rnd(unsigned int a, unsigned int b)
{
    unsigned int h = a * 2654435761u ^ b * 2246822519u ^ 0x9e3779b9u;

    h ^= h >> 15;
    h *= 2246822519u;
    h ^= h >> 13;
    h *= 3266489917u;
    return h ^ h >> 16;
}

static double gx[NI + 1], gy[NJ + 1];

/* a slot of invalid cells at one side */
static int valid(int i, int j)
{
    return i >= 0 && j >= 0 && i < NI && j < NJ && !((i == 3 || i == 4) && j >= NJ - 3);
}

/* sheared by half a unit of x for a unit of y */
static int cellof(double x, double y)
{
    int i, j;

    x -= 0.5 * y;
    for (i = -1; i < NI && x > gx[i + 1]; ++i);
    for (j = -1; j < NJ && y > gy[j + 1]; ++j);
    return valid(i, j) ? j * NI + i : -1;
}

void h_avg(void)
{
    int mt = vh_int(0, 1, "map type"), batches = vh_int(0, 2, "batches"), seed = SEED, n[NI * NJ], k, i, j, c;
    double s[NI * NJ], t, z;
    static point pts[NP];
    gridnodes* gn = gridnodes_create(NI + 1, NJ + 1, NT_COR);
    gridmap* gm;
    gridaverager* ga;

    for (i = 1; i <= NI; ++i)
        gx[i] = gx[i - 1] + 3 + i % 3;
    for (j = 1; j <= NJ; ++j)
        gy[j] = gy[j - 1] + 2 + j * 5 % 3;
    for (j = 0; j <= NJ; ++j)
        for (i = 0; i <= NI; ++i) {
            int use = valid(i, j) || valid(i - 1, j) || valid(i, j - 1) || valid(i - 1, j - 1);

            gridnodes_readnextpoint(gn, use ? gx[i] + 0.5 * gy[j] : NAN, use ? gy[j] : NAN);
        }
    gridnodes_validate(gn);
    gm = gridmap_build(NI, NJ, gridnodes_getx(gn), gridnodes_gety(gn), mt);
    ga = ga_create(gm);
    memset(n, 0, sizeof(n));
    for (k = 0; k < NI * NJ; ++k)
        s[k] = 0;
    vh_checkpoint();
    /* one point on a line through the grid, any value */
    t = vh_real(-3, 50, "point");
    z = vh_real(-100, 100, "value");
    for (k = 0; k < NP; ++k) {
        double y = (int) (rnd(k, seed) % 360) * 0.125 - 4.03125, x = (int) (rnd(k + 1, seed) % 380) * 0.125 - 4.0625 + 0.5 * y;

        if (k == NP / 3) {
            y = 0.59375 * t + 0.015625;
            x = t;
            for (i = 0; i <= NI; ++i)
                vh_assume(x - 0.5 * y != gx[i]);
            for (j = 0; j <= NJ; ++j)
                vh_assume(y != gy[j]);
        }
        pts[k].x = x;
        pts[k].y = y;
        pts[k].z = k == NP / 3 ? z : (int) (rnd(k, seed + 7) % 512) - 256;
    }
    for (k = 0; k < NP; k += c) {
        c = batches == 0 ? NP : batches == 1 ? 1 + k % 5 : 130;
        if (c > NP - k)
            c = NP - k;
        ga_addpoints(ga, c, pts + k);
    }
    for (k = 0; k < NP; ++k) {
        c = cellof(pts[k].x, pts[k].y);
        if (c >= 0) {
            n[c]++;
            s[c] += pts[k].z;
        }
    }
    for (j = 0; j < NJ; ++j)
        for (i = 0; i < NI; ++i) {
            point p;

            p.y = (gy[j] + gy[j + 1]) / 2;
            p.x = (gx[i] + gx[i + 1]) / 2 + 0.5 * p.y + 0.25;
            p.z = 1;
            c = j * NI + i;
            ga_getvalue(ga, &p);
            if (!valid(i, j) || n[c] == 0)
                vh_check(isnan(p.z), "NaN where there is nothing");
            else
                vh_check(vh_near(p.z * n[c], s[c], 1.0e-9), "the mean of exactly the points in the cell");
        }
    ga_destroy(ga);
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
    vh_check(vh_live() == 0, "nothing is left allocated");
}
