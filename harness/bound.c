/* C07: boundary polygon of a grid */
#include "gridh.h"
#include "poly.h"

static int used[2][NY][NX];     /* boundary edges walked: [0] along i, [1] along j */

static int edgeh(int j, int i)  /* edge (j,i)-(j,i+1) is on the boundary */
{
    return cellat(j, i) != cellat(j - 1, i);
}

static int edgev(int j, int i)  /* edge (j,i)-(j+1,i) is on the boundary */
{
    return cellat(j, i) != cellat(j, i - 1);
}

void h_bound(void)
{
    gridnodes* gn;
    poly *pl, *ij;
    int nedge = 0;
    int i, j, k, pi = 0, pj = 0;

    pickcells(1);
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            sx[j][i] = 100.0 * i + 10.0 * j + vh_real(0, 1, "dx");
            sy[j][i] = 100.0 * j - 10.0 * i + vh_real(0, 1, "dy");
        }
#if defined(ANYNODE)
    k = vh_int(0, NX * NY - 1, "node anywhere");
    sx[k / NX][k % NX] = vh_real(-1000, 1000, "x");
    sy[k / NX][k % NX] = vh_real(-1000, 1000, "y");
#endif
    if (ncell > 0)
        vh_assume(simplyconnected());
    gn = mkgrid(NT_COR);
    gridnodes_validate(gn);
    pl = poly_formbound(MX, MY, gridnodes_getx(gn), gridnodes_gety(gn));
    ij = poly_formboundij(MX, MY, gridnodes_getx(gn));
    if (ncell == 0) {
        vh_check(pl->n == 0 && ij->n == 0, "an empty grid has an empty boundary");
        goto finish;
    }
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            nedge += (i < MX && edgeh(j, i)) + (j < MY && edgev(j, i));
    vh_check(ij->n == nedge + 1, "one vertex per boundary edge plus the closing one");
    vh_check(pl->n == ij->n, "both polygons have the same number of vertices");
    vh_check(ij->x[0] == ij->x[ij->n - 1] && ij->y[0] == ij->y[ij->n - 1], "polygon is closed");
    for (k = 0; k < ij->n; ++k) {
        i = (int) ij->x[k];
        j = (int) ij->y[k];
        vh_check(i >= 0 && i < NX && j >= 0 && j < NY && ij->x[k] == i && ij->y[k] == j, "vertices are grid nodes");
        vh_check(pl->x[k] == sx[j][i] && pl->y[k] == sy[j][i], "physical and index polygons list the same nodes in the same order");
        if (k > 0) {
            int di = i - pi, dj = j - pj;
            int* u;

            vh_check(abs(di) + abs(dj) == 1, "consecutive vertices are adjacent nodes");
            if (dj == 0) {
                int i0 = di > 0 ? pi : i;

                vh_check(edgeh(j, i0), "polygon follows the boundary of the valid cells");
                u = &used[0][j][i0];
            } else {
                int j0 = dj > 0 ? pj : j;

                vh_check(edgev(j0, i), "polygon follows the boundary of the valid cells");
                u = &used[1][j0][i];
            }
            vh_check(*u == 0, "every boundary edge is visited once");
            *u = 1;
        }
        pi = i;
        pj = j;
    }
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            vh_check(pl->e.xmin <= pl->x[0] && pl->e.xmax >= pl->x[0], "extent holds the polygon");
            vh_check(vh_same(gridnodes_getx(gn)[j][i], ok[j][i] ? sx[j][i] : NAN) && vh_same(gridnodes_gety(gn)[j][i], ok[j][i] ? sy[j][i] : NAN), "grid not modified");
        }

  finish:
    poly_destroy(pl);
    poly_destroy(ij);
    gridnodes_destroy(gn);
}
