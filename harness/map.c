/* C15, C16: integer cell lookup by both kinds of map */
#include "gridh.h"

#if !defined(MT)
#define MT GRIDMAP_TYPE_BINARY
#endif
#if !defined(SCALE)
#define SCALE 1.0
#endif

/* a grid of convex cells: slanted and bent (shape 1), rectangular with uneven spacing (shape 0) */
static void geometry(int shape)
{
#if defined(FLIP)
    int flip = FLIP;
#else
    int flip = vh_int(0, 1, "mirrored");
#endif
    double t = 0.0;
    int i, j;

#if defined(SHEAR)
    t = vh_real(-1, 1, "deformation");
#endif
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            double x, y;

            if (shape == 0) {
                x = 10 * i + i * i;
                y = 7 * j + 2 * j * j;
            } else {
                x = 16 * i + 4 * j + (i * 3 + j * 5) % 4;
                y = 16 * j - 3 * i + (i * 5 + j * 2) % 4;
            }
            x += t * ((j + 2 * i) % 3);
            y += t * i;
            sx[j][i] = (flip ? -x : x) * SCALE;
            sy[j][i] = y * SCALE;
        }
}

static double side(int j1, int i1, int j2, int i2, double x, double y)
{
    return (sx[j2][i2] - sx[j1][i1]) * (y - sy[j1][i1]) - (sy[j2][i2] - sy[j1][i1]) * (x - sx[j1][i1]);
}

/* is the point in the closed cell (convex, either orientation) */
static int incell(int j, int i, double x, double y)
{
    double a = (sx[j][i + 1] - sx[j][i]) * (sy[j + 1][i] - sy[j][i]) - (sy[j][i + 1] - sy[j][i]) * (sx[j + 1][i] - sx[j][i]) > 0.0 ? 1.0 : -1.0;

    return a * side(j, i, j, i + 1, x, y) >= 0.0 && a * side(j, i + 1, j + 1, i + 1, x, y) >= 0.0 && a * side(j + 1, i + 1, j + 1, i, x, y) >= 0.0 &&
        a * side(j + 1, i, j, i, x, y) >= 0.0;
}

static void lookup(int shape, int simply)
{
    gridnodes* gn;
    gridmap* gm;
    double x, y;
    int i, j, found;
    int ii = 12345, jj = 12345;

    pickcells(simply);
    if (simply)
        vh_assume(simplyconnected() || ncell == 0);
    geometry(shape);
    gn = mkgrid(NT_COR);
    gridnodes_validate(gn);
    gm = gridmap_build(MX, MY, gridnodes_getx(gn), gridnodes_gety(gn), MT);
    vh_checkpoint();
#if defined(BIG)
    /* anywhere on lines across the grid */
    {
        double t = vh_real(-2, 2, "t");
        int l = region % 3;

        x = (sx[MY / 2][MX / 2] + t * (l == 0 ? 8 * NX : l == 1 ? 3 : -11 * NX)) * SCALE;
        y = (sy[MY / 2][MX / 2] + t * (l == 0 ? 1 : l == 1 ? 7 * NY : 9 * NY)) * SCALE;
    }
#else
    x = vh_maybe_nan(vh_real(-130 * SCALE, 130 * SCALE, "x"), "x is NaN");
    y = vh_maybe_nan(vh_real(-40 * SCALE, 130 * SCALE, "y"), "y is NaN");
#endif
    found = gridmap_xy2ij(gm, x, y, &ii, &jj);
    if (isnan(x) || isnan(y))
        vh_check(!found && ii == -1 && jj == -1, "lookup of a NaN point fails with both indices at -1");
    else if (found) {
        vh_check(ii >= 0 && ii < MX && jj >= 0 && jj < MY && cell[jj][ii], "found cell is a valid cell");
        vh_check(incell(jj, ii, x, y), "found cell contains the point");
    } else {
        vh_check(ii == -1 && jj == -1, "failed lookup leaves both indices at -1");
        for (j = 0; j < MY; ++j)
            for (i = 0; i < MX; ++i)
                if (cell[j][i])
                    vh_check(!incell(j, i, x, y), "a point of a valid cell is found");
    }
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
}

void h_bent(void)
{
    lookup(1, 1);
}

void h_rect(void)
{
    lookup(0, MT == GRIDMAP_TYPE_BINARY);
}

/* k-d map, any cells: a successful lookup is right even if nodes are not regular */
void h_sound(void)
{
    lookup(1, 0);
}

/* the map can be built for every simply connected set of cells, and finds every cell centre */
void h_build(void)
{
    gridnodes* gn;
    gridmap* gm;
    int i, j;

    pickcells(1);
    vh_assume(simplyconnected());
    geometry(1);
    gn = mkgrid(NT_COR);
    gridnodes_validate(gn);
    gm = gridmap_build(MX, MY, gridnodes_getx(gn), gridnodes_gety(gn), MT);
    for (j = 0; j < MY; ++j)
        for (i = 0; i < MX; ++i) {
            double x = (sx[j][i] + sx[j][i + 1] + sx[j + 1][i] + sx[j + 1][i + 1]) / 4.0;
            double y = (sy[j][i] + sy[j][i + 1] + sy[j + 1][i] + sy[j + 1][i + 1]) / 4.0;
            int ii, jj;

            if (gridmap_xy2ij(gm, x, y, &ii, &jj))
                vh_check(cell[j][i] && ii == i && jj == j, "centre of a cell is found in that cell");
            else
                vh_check(!cell[j][i], "centre of a valid cell is found");
        }
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
}

/* infinite and NaN arguments (concrete) */
void h_nonfinite(void)
{
    double v[5];
    int a = vh_int(0, 4, "x"), b = vh_int(0, 4, "y");
    gridnodes* gn;
    gridmap* gm;
    int i = 5, j = 5;

    v[0] = NAN;
    v[1] = INFINITY;
    v[2] = -INFINITY;
    v[3] = 1.0;
    v[4] = -1.0e308;
    vh_assume(a < 3 || b < 3);
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            ok[j][i] = 1;
    getcells();
    geometry(1);
    gn = mkgrid(NT_COR);
    gm = gridmap_build(MX, MY, gridnodes_getx(gn), gridnodes_gety(gn), vh_int(0, 1, "map type"));
    vh_check(gridmap_xy2ij(gm, v[a], v[b], &i, &j) == 0, "lookup of a non-finite point fails");
    vh_check(i == -1 && j == -1, "failed lookup leaves both indices at -1");
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
}
