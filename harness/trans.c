/* C04, C05: conversion of corner nodes to centre and double-density nodes and
 * recovery of corner and double-density nodes from centres */
#include "gridh.h"

#if !defined(TOL)
#define TOL 1.0e-7
#endif

/* coordinates: any values within a box of its own for each node; the boxes
 * make a (rotated) grid with space between */
static void anycoords(void)
{
    int flip = vh_int(0, 1, "mirrored");
    int i, j;
#if defined(BIG)
    double t = 1;
#elif defined(ONEPAR)
    double t = vh_real(0, 1, "shape");
#endif

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
#if defined(ONEPAR) || defined(BIG)
            double dx = t * ((i * 5 + j * 3) % 7) / 7.0, dy = t * ((i * 3 + j * 5) % 7) / 7.0;
#else
            double dx = vh_real(0, 1, "dx"), dy = vh_real(0, 1, "dy");
#endif

            sx[j][i] = (flip ? -100.0 : 100.0) * i + 10.0 * j + dx;
            sy[j][i] = 100.0 * j - 10.0 * i + dy;
        }
}

static double mean4(double (*z)[NX], int j, int i)
{
    return (z[j][i] + z[j][i + 1] + z[j + 1][i] + z[j + 1][i + 1]) / 4.0;
}

static void isnode(gridnodes* gn, int j, int i, int valid, double x, double y, const char* what, const char* whatnan)
{
    double gx = gridnodes_getx(gn)[j][i], gy = gridnodes_gety(gn)[j][i];

    if (!valid)
        vh_check(isnan(gx) && isnan(gy), whatnan);
    else {
        vh_check(!isnan(gx) && !isnan(gy), "node that should be valid");
        vh_check(vh_near(gx, x, TOL) && vh_near(gy, y, TOL), what);
    }
}

static void cor(int nodes)
{
    int mt = vh_int(0, 1, "map type");
    gridnodes *gn, *ce, *dd, *co;
    int i, j;

    if (nodes)
        anynodes();
    else
        pickcells(mt == GRIDMAP_TYPE_BINARY);
    /* the binary tree map is for simply connected regions */
    if (mt == GRIDMAP_TYPE_BINARY && ncell > 0)
        vh_assume(simplyconnected());
    anycoords();
    gn = mkgrid(NT_COR);
    gridnodes_setmaptype(gn, mt);

    ce = gridnodes_transform(gn, NT_CEN);
    vh_check(gridnodes_getnx(ce) == MX && gridnodes_getny(ce) == MY && gridnodes_getnce1(ce) == MX && gridnodes_getnce2(ce) == MY, "size of the centre grid");
    for (j = 0; j < MY; ++j)
        for (i = 0; i < MX; ++i)
            isnode(ce, j, i, cell[j][i], mean4(sx, j, i), mean4(sy, j, i), "centre is the mean of the four corners", "centre of an invalid cell is NaN");
    gridnodes_destroy(ce);

    dd = gridnodes_transform(gn, NT_DD);
    vh_check(gridnodes_getnx(dd) == 2 * NX - 1 && gridnodes_getny(dd) == 2 * NY - 1 && gridnodes_getnce1(dd) == MX && gridnodes_getnce2(dd) == MY, "size of the double density grid");
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            int v = hascell(j, i);

            isnode(dd, 2 * j, 2 * i, v, sx[j][i], sy[j][i], "corner is kept", "invalid corner is NaN");
            if (v)
                vh_check(gridnodes_getx(dd)[2 * j][2 * i] == sx[j][i] && gridnodes_gety(dd)[2 * j][2 * i] == sy[j][i], "corner is kept exactly");
            if (i < MX)
                isnode(dd, 2 * j, 2 * i + 1, v && hascell(j, i + 1), (sx[j][i] + sx[j][i + 1]) / 2.0, (sy[j][i] + sy[j][i + 1]) / 2.0, "edge node is the midpoint of its ends",
                       "edge node with an invalid end is NaN");
            if (j < MY)
                isnode(dd, 2 * j + 1, 2 * i, v && hascell(j + 1, i), (sx[j][i] + sx[j + 1][i]) / 2.0, (sy[j][i] + sy[j + 1][i]) / 2.0, "edge node is the midpoint of its ends",
                       "edge node with an invalid end is NaN");
            if (i < MX && j < MY)
                isnode(dd, 2 * j + 1, 2 * i + 1, cell[j][i], mean4(sx, j, i), mean4(sy, j, i), "centre node is the mean of the four corners", "centre node of an invalid cell is NaN");
        }

    co = gridnodes_transform(dd, NT_COR);
    vh_check(gridnodes_getnx(co) == NX && gridnodes_getny(co) == NY, "size of the corner grid");
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            double x = hascell(j, i) ? sx[j][i] : NAN, y = hascell(j, i) ? sy[j][i] : NAN;

            vh_check(vh_same(gridnodes_getx(co)[j][i], x) && vh_same(gridnodes_gety(co)[j][i], y), "converting back returns the original corners");
            vh_check(vh_same(gridnodes_getx(gn)[j][i], x) && vh_same(gridnodes_gety(gn)[j][i], y), "source not modified");
        }
    vh_check(gridnodes_getmaptype(co) == mt && gridnodes_getmaptype(dd) == mt, "map type is passed on");
    gridnodes_destroy(co);
    gridnodes_destroy(dd);
    gridnodes_destroy(gn);
}

void h_cor_nodes(void)
{
    cor(1);
}

void h_cor_cells(void)
{
    cor(0);
}

/* ---------------------------------------------------------------- centres */
#define DX (2 * NX + 1)
#define DY (2 * NY + 1)
static int good[DY][DX];

static int near_block(gridnodes* gn1, int j, int i, double fi, double fj, int bi, int bj)
{
    double u = fi - bi, v = fj - bj;
    double w[4], x, y;

    w[0] = (1.0 - u) * (1.0 - v);
    w[1] = u * (1.0 - v);
    w[2] = (1.0 - u) * v;
    w[3] = u * v;
    x = w[0] * sx[bj][bi] + w[1] * sx[bj][bi + 1] + w[2] * sx[bj + 1][bi] + w[3] * sx[bj + 1][bi + 1];
    y = w[0] * sy[bj][bi] + w[1] * sy[bj][bi + 1] + w[2] * sy[bj + 1][bi] + w[3] * sy[bj + 1][bi + 1];
    return vh_near(gridnodes_getx(gn1)[j][i], x, TOL) && vh_near(gridnodes_gety(gn1)[j][i], y, TOL);
}

/* squared index distance (times 4) from a node to the nearest valid block of centres */
static int reach(int step, int j, int i)
{
    int best = INT_MAX, bi, bj;

    for (bj = 0; bj < NY - 1; ++bj)
        for (bi = 0; bi < NX - 1; ++bi)
            if (cell[bj][bi]) {
                int a = i * step - (2 * bi + 2), b = j * step - (2 * bj + 2);

                if (a * a + b * b < best)
                    best = a * a + b * b;
            }
    return best;
}

static void cen(NODETYPE t)
{
    int step = (t == NT_COR) ? 2 : 1;
    int nx1 = (t == NT_COR) ? NX + 1 : 2 * NX + 1;
    int ny1 = (t == NT_COR) ? NY + 1 : 2 * NY + 1;
    gridnodes *gn, *gn1;
    int i, j;

    anynodes();
    gn = mkgrid(NT_CEN);
    gn1 = gridnodes_transform(gn, t);
    vh_check(gridnodes_getnx(gn1) == nx1 && gridnodes_getny(gn1) == ny1, "size of the recovered grid");
    vh_check(gridnodes_getnce1(gn1) == NX && gridnodes_getnce2(gn1) == NY, "number of cells of the recovered grid");

    /* within reach, then validated */
    for (j = 0; j < ny1; ++j)
        for (i = 0; i < nx1; ++i)
            good[j][i] = reach(step, j, i) < 9;
    if (t == NT_COR) {
        int c, k, l;

        for (j = 0; j < ny1; ++j)
            for (i = 0; i < nx1; ++i)
                if (good[j][i]) {
                    for (c = 0, k = j - 1; k <= j; ++k)
                        for (l = i - 1; l <= i; ++l)
                            c |= k >= 0 && l >= 0 && k + 1 < ny1 && l + 1 < nx1 && good[k][l] && good[k][l + 1] && good[k + 1][l] && good[k + 1][l + 1];
                    vh_check(c, "oracle: reachable corner nodes come in cells");
                }
    } else {
        for (j = 0; j < ny1; j += 2)
            for (i = 0; i < nx1; i += 2)
                if (good[j][i]) {
                    int c = 0, k, l;

                    for (k = j - 2; k <= j; k += 2)
                        for (l = i - 2; l <= i; l += 2)
                            c |= k >= 0 && l >= 0 && k + 2 < ny1 && l + 2 < nx1 && good[k][l] && good[k][l + 2] && good[k + 2][l] && good[k + 2][l + 2];
                    vh_check(c, "oracle: reachable corner nodes come in cells");
                }
        for (j = 0; j < ny1; ++j)
            for (i = 0; i < nx1; ++i) {
                if (j % 2 && i % 2)
                    good[j][i] = good[j][i] && good[j - 1][i - 1] && good[j - 1][i + 1] && good[j + 1][i - 1] && good[j + 1][i + 1];
                else if (j % 2)
                    good[j][i] = good[j][i] && good[j - 1][i] && good[j + 1][i];
                else if (i % 2)
                    good[j][i] = good[j][i] && good[j][i - 1] && good[j][i + 1];
            }
    }

    for (j = 0; j < ny1; ++j)
        for (i = 0; i < nx1; ++i) {
            double x = gridnodes_getx(gn1)[j][i], y = gridnodes_gety(gn1)[j][i];

            if (!good[j][i])
                vh_check(isnan(x) && isnan(y), "node out of reach of any valid block is NaN");
            else {
                int best = reach(step, j, i);
                int found = 0, bi, bj;

                for (bj = 0; bj < NY - 1 && !found; ++bj)
                    for (bi = 0; bi < NX - 1 && !found; ++bi)
                        if (cell[bj][bi]) {
                            int a = i * step - (2 * bi + 2), b = j * step - (2 * bj + 2);

                            if (a * a + b * b == best && near_block(gn1, j, i, i * step / 2.0 - 0.5, j * step / 2.0 - 0.5, bi, bj))
                                found = 1;
                        }
                vh_check(found, "node follows the bilinear mapping of a nearest valid block");
            }
        }
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            vh_check(vh_same(gridnodes_getx(gn)[j][i], ok[j][i] ? sx[j][i] : NAN) && vh_same(gridnodes_gety(gn)[j][i], ok[j][i] ? sy[j][i] : NAN), "source not modified");
    gridnodes_destroy(gn1);
    gridnodes_destroy(gn);
}

/* any affine image of index space plus fixed node offsets (0: exactly affine) */
static void affine(void)
{
    double p[6];
    int bent = vh_int(0, 1, "with offsets");
    int i, j;

#if defined(BIG)
    p[0] = -7;
    p[1] = 20;
    p[2] = 3;
    p[3] = 50;
    p[4] = -5;
    p[5] = 16;
#else
    for (i = 0; i < 6; ++i)
        p[i] = vh_real(-100, 100, "affine");
#endif
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            int k = (i * 7 + j * 13 + 5 * i * j) % 17;

            sx[j][i] = p[0] + p[1] * i + p[2] * j + (bent ? k : 0);
            sy[j][i] = p[3] + p[4] * i + p[5] * j + (bent ? (k * k) % 11 : 0);
        }
}

void h_cen(void)
{
    affine();
    cen(vh_int(0, 1, "target") ? NT_DD : NT_COR);
}

/* one block: all coordinates arbitrary */
void h_cen_any(void)
{
    int i, j;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            sx[j][i] = vh_real(-100, 100, "x");
            sy[j][i] = vh_real(-100, 100, "y");
        }
    cen(vh_int(0, 1, "target") ? NT_DD : NT_COR);
}
