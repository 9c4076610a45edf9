/* C01, C02, C03, C06: node validation, double-density sampling, masks (bit-precise doubles) */
#include "vh.h"
#include "gridnodes.h"
#include "gucommon.h"

#if !defined(NX)
#define NX 4
#endif
#if !defined(NY)
#define NY 4
#endif

static double sx[NY][NX], sy[NY][NX];
static int ok[NY][NX];          /* node valid before */
static int keep[NY][NX];        /* node expected to survive */

#if defined(BIG)
static unsigned int rnd(unsigned int a, unsigned int b, unsigned int c)
{
    unsigned int h = a * 2654435761u ^ b * 40503u ^ c * 2246822519u ^ 0x9e3779b9u;

    h ^= h >> 15;
    h *= 2246822519u;
    h ^= h >> 13;
    h *= 3266489917u;
    return h ^ h >> 16;
}

static gridnodes* anygrid(NODETYPE t)
{
    gridnodes* gn = gridnodes_create(NX, NY, t);
    int p = vh_int(0, 5, "pattern"), k = vh_int(0, (NX * NY - 1) / 11, "node") * 11 + p, flip = vh_int(0, 1, "flipped");
    int i, j;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            int bad = p == 0 ? 0 : p == 1 ? rnd(p, i, j) % 8 == 0 : p == 2 ? rnd(p, i, j) % 40 == 0 : p == 3 ? abs(2 * i - NX) + abs(2 * j - NY) > NX : p == 4 ? i / 3 % 2 && j / 4 % 2 : 1;
            double x = i - 0.25 * j, y = 0.5 * i + 2 * j - 4;

            if (j * NX + i == k) {
                if (flip)
                    bad = !bad;
                else {
                    bad = 0;
                    x = vh_real(-1000, 1000, "x");
                    y = vh_real(-1000, 1000, "y");
                }
            }
            if (bad)
                x = y = NAN;
            sx[j][i] = x;
            sy[j][i] = y;
            ok[j][i] = !bad;
            gridnodes_readnextpoint(gn, x, y);
        }
    return gn;
}
#define ANYMASK (rnd(7, i, j) % 4 != 0)
#else
#define ANYMASK vh_int(0, 1, "mask")
/* a grid with arbitrary coordinates and an arbitrary pattern of invalid nodes */
static gridnodes* anygrid(NODETYPE t)
{
    gridnodes* gn = gridnodes_create(NX, NY, t);
    int i, j;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            double x = vh_double("x");
            double y = vh_double("y");

            if (isnan(x) || isnan(y))
                x = y = NAN;
            sx[j][i] = x;
            sy[j][i] = y;
            ok[j][i] = !isnan(x);
            gridnodes_readnextpoint(gn, x, y);
        }
    return gn;
}
#endif

static void compare(gridnodes* gn, const char* unused)
{
    double** x = gridnodes_getx(gn);
    double** y = gridnodes_gety(gn);
    int i, j;

    vh_check(gridnodes_getnx(gn) == NX && gridnodes_getny(gn) == NY, "size unchanged");
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            if (keep[j][i]) {
                vh_check(x[j][i] == sx[j][i] && y[j][i] == sy[j][i], "surviving node keeps both coordinates");
            } else {
                vh_check(isnan(x[j][i]), "removed node has NaN x");
                vh_check(isnan(y[j][i]), "removed node has NaN y");
            }
        }
}

static int cellok(int j, int i)
{
    return ok[j][i] && ok[j][i + 1] && ok[j + 1][i] && ok[j + 1][i + 1];
}

void h_c01(void)
{
    gridnodes* gn = anygrid(NT_COR);
    int i, j;

    for (j = 0; j < NY - 1; ++j)
        for (i = 0; i < NX - 1; ++i)
            if (cellok(j, i))
                keep[j][i] = keep[j][i + 1] = keep[j + 1][i] = keep[j + 1][i + 1] = 1;
    gridnodes_validate(gn);
    compare(gn, "");
    gridnodes_validate(gn);
    compare(gn, "");
    gridnodes_destroy(gn);
    vh_reach();
}

#define CELL2(j, i) (ok[j - 1][i - 1] && ok[j - 1][i + 1] && ok[j + 1][i - 1] && ok[j + 1][i + 1])

static void expect_dd(void)
{
    int i, j;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            keep[j][i] = 0;
    for (j = 1; j < NY; j += 2)
        for (i = 1; i < NX; i += 2)
            if (CELL2(j, i)) {
                keep[j - 1][i - 1] = keep[j - 1][i + 1] = keep[j + 1][i - 1] = keep[j + 1][i + 1] = 1;
                if (ok[j][i])
                    keep[j][i] = 1;
            }
    for (j = 0; j < NY; j += 2)
        for (i = 1; i < NX; i += 2)
            keep[j][i] = ok[j][i] && keep[j][i - 1] && keep[j][i + 1];
    for (j = 1; j < NY; j += 2)
        for (i = 0; i < NX; i += 2)
            keep[j][i] = ok[j][i] && keep[j - 1][i] && keep[j + 1][i];
}

void h_c02(void)
{
    gridnodes* gn = anygrid(NT_DD);

    expect_dd();
    gridnodes_validate(gn);
    compare(gn, "");
    gridnodes_validate(gn);
    compare(gn, "");
    gridnodes_destroy(gn);
    vh_reach();
}

/* even dimension: must be refused without an access out of bounds */
void h_c02_even(void)
{
    gridnodes* gn = anygrid(NT_DD);

    vh_quit_ends();
    gridnodes_validate(gn);
    vh_noquit();
    vh_check(0, "an even dimension is refused for double density nodes");
}

#if NX % 2 == 1 && NY % 2 == 1
void h_c03(void)
{
    int mt = vh_int(0, 1, "maptype");
    int tocor = vh_int(0, 1, "to corners");
    gridnodes* gn = anygrid(NT_DD);
    gridnodes* g1;
    double** x;
    double** y;
    int i, j;

    gridnodes_setmaptype(gn, mt);
    expect_dd();
    gridnodes_validate(gn);
    g1 = gridnodes_transform(gn, tocor ? NT_COR : NT_CEN);
    /* source untouched (the validated source) */
    compare(gn, "");
    x = gridnodes_getx(g1);
    y = gridnodes_gety(g1);
    vh_check(gridnodes_getmaptype(g1) == mt, "map type inherited");
    vh_check(gridnodes_getnce1(g1) == NX / 2 && gridnodes_getnce2(g1) == NY / 2, "cell counts match");
    if (tocor) {
        vh_check(gridnodes_getnx(g1) == NX / 2 + 1 && gridnodes_getny(g1) == NY / 2 + 1, "corner grid size");
        for (j = 0; j < NY / 2 + 1; ++j)
            for (i = 0; i < NX / 2 + 1; ++i) {
                int k = keep[2 * j][2 * i];

                vh_check(vh_same(x[j][i], k ? sx[2 * j][2 * i] : NAN) && vh_same(y[j][i], k ? sy[2 * j][2 * i] : NAN), "corner node equals the even-index node");
            }
    } else {
        vh_check(gridnodes_getnx(g1) == NX / 2 && gridnodes_getny(g1) == NY / 2, "centre grid size");
        for (j = 0; j < NY / 2; ++j)
            for (i = 0; i < NX / 2; ++i) {
                int k = keep[2 * j + 1][2 * i + 1];

                vh_check(vh_same(x[j][i], k ? sx[2 * j + 1][2 * i + 1] : NAN) && vh_same(y[j][i], k ? sy[2 * j + 1][2 * i + 1] : NAN), "centre node equals the odd-index node");
            }
    }
    /* the copy is independent of its source */
    gridnodes_destroy(gn);
    vh_check(vh_same(x[0][0], x[0][0]), "result outlives its source");
    gridnodes_destroy(g1);
    vh_reach();
}

static int m0[NY / 2 + 1][NX / 2 + 1];

void h_c06_dd(void)
{
    gridnodes* gn = anygrid(NT_DD);
    int** mask = gu_alloc2d(NY / 2, NX / 2, sizeof(int));
    int i, j;

    expect_dd();
    gridnodes_validate(gn);
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            ok[j][i] = keep[j][i];
    for (j = 0; j < NY / 2; ++j)
        for (i = 0; i < NX / 2; ++i)
            mask[j][i] = ANYMASK;
    /* expected */
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            keep[j][i] = 0;
    for (j = 1; j < NY; j += 2)
        for (i = 1; i < NX; i += 2)
            keep[j][i] = ok[j][i] && mask[j / 2][i / 2];
    for (j = 0; j < NY; j += 2)
        for (i = 0; i < NX; i += 2) {
            int s = 0;

            if (i > 0 && j > 0)
                s |= keep[j - 1][i - 1];
            if (i > 0 && j < NY - 1)
                s |= keep[j + 1][i - 1];
            if (i < NX - 1 && j > 0)
                s |= keep[j - 1][i + 1];
            if (i < NX - 1 && j < NY - 1)
                s |= keep[j + 1][i + 1];
            keep[j][i] = ok[j][i] && s;
        }
    /* edges between surviving corners */
    for (j = 0; j < NY; j += 2)
        for (i = 1; i < NX; i += 2)
            keep[j][i] = ok[j][i] && keep[j][i - 1] && keep[j][i + 1];
    for (j = 1; j < NY; j += 2)
        for (i = 0; i < NX; i += 2)
            keep[j][i] = ok[j][i] && keep[j - 1][i] && keep[j + 1][i];
    gridnodes_applymask(gn, mask);
    compare(gn, "");
    for (j = 0; j < NY / 2; ++j)
        for (i = 0; i < NX / 2; ++i)
            vh_check(mask[j][i] == 0 || mask[j][i] == 1, "mask untouched");
    gu_free2d(mask);
    gridnodes_destroy(gn);
    vh_reach();
}
#endif

void h_c06_cen(void)
{
    gridnodes* gn = anygrid(NT_CEN);
    int** mask = gu_alloc2d(NY, NX, sizeof(int));
    int i, j;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            mask[j][i] = ANYMASK;
            keep[j][i] = ok[j][i] && mask[j][i];
        }
    gridnodes_applymask(gn, mask);
    compare(gn, "");
    gu_free2d(mask);
    gridnodes_destroy(gn);
    vh_reach();
}

void h_c06_refuse(void)
{
    gridnodes* gn = anygrid(vh_int(0, 1, "type") ? NT_COR : NT_NONE);
    int** mask = gu_alloc2d(NY, NX, sizeof(int));

    vh_quit_ends();
    gridnodes_applymask(gn, mask);
    vh_noquit();
    vh_check(0, "a corner or untyped grid is refused");
}
