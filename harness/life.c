/* C29: lifetimes of objects */
#include "toolh.h"
#include "gridmap.h"
#include "poly.h"
#include <nn.h>
#include "gridaverager.h"

#if !defined(NSTEP)
#define NSTEP 3
#endif
#define NG 3
#define NM 2
#define NQ 9

static gridnodes* g[NG];
static int gnx[NG], gny[NG], gtype[NG], changed[NG];
static double gsx[NG][MAXN], gsy[NG][MAXN];

typedef struct {
    int ok, i, j;
    double fi, fj, x, y;
} answer;

static gridmap* m[NM];
static int mgrid[NM], mtype[NM];        /* grid of the map; -1 when it has gone or has changed */
static answer ma[NM][NQ];

static void snap(int s)
{
    int i, j, k = 0;

    gnx[s] = gridnodes_getnx(g[s]);
    gny[s] = gridnodes_getny(g[s]);
    for (j = 0; j < gny[s]; ++j)
        for (i = 0; i < gnx[s]; ++i, ++k) {
            gsx[s][k] = gridnodes_getx(g[s])[j][i];
            gsy[s][k] = gridnodes_gety(g[s])[j][i];
        }
}

static void ask(gridmap* gm, answer* a)
{
    int k;

    for (k = 0; k < NQ; ++k) {
        double x = 3.9 * (k % 3) + 0.7, y = 3.7 * (k / 3) + 1.1;

        a[k].ok = gridmap_xy2ij(gm, x, y, &a[k].i, &a[k].j);
        a[k].ok += 2 * gridmap_xy2fij(gm, x, y, &a[k].fi, &a[k].fj);
        a[k].ok += 4 * gridmap_fij2xy(gm, k * 0.3, 1.1 - k * 0.1, &a[k].x, &a[k].y);
    }
}

static void same(answer* a, answer* b)
{
    int k;

    for (k = 0; k < NQ; ++k) {
        vh_check(a[k].ok == b[k].ok && a[k].i == b[k].i && a[k].j == b[k].j, "the map answers as before");
        vh_check(vh_same(a[k].fi, b[k].fi) && vh_same(a[k].fj, b[k].fj) && vh_same(a[k].x, b[k].x) && vh_same(a[k].y, b[k].y), "the map gives the same numbers as before");
    }
}

/* nothing but grid s (which has just been operated on) may have changed */
static void lookround(int s)
{
    int q, i, j, k;
    answer a[NQ];

    for (q = 0; q < NG; ++q) {
        if (g[q] == NULL)
            continue;
        vh_check(gridnodes_getnx(g[q]) == gnx[q] && gridnodes_getny(g[q]) == gny[q], "size of another grid");
        for (j = 0, k = 0; j < gny[q]; ++j)
            for (i = 0; i < gnx[q]; ++i, ++k) {
                double x = gridnodes_getx(g[q])[j][i], y = gridnodes_gety(g[q])[j][i];

                if (vh_same(x, gsx[q][k]) && vh_same(y, gsy[q][k]))
                    continue;
                vh_check(q == s, "an operation on a grid does not change another one");
                changed[q] = 1;
            }
        if (changed[q]) {
            snap(q);
            changed[q] = 0;
            for (i = 0; i < NM; ++i)
                if (mgrid[i] == q)
                    mgrid[i] = -1;
        }
    }
    for (q = 0; q < NM; ++q)
        if (m[q] != NULL && mgrid[q] >= 0) {
            ask(m[q], a);
            same(a, ma[q]);
        }
}

static int freegrid(void)
{
    int s;

    for (s = 0; s < NG && g[s] != NULL; ++s);
    vh_assume(s < NG);
    return s;
}

static int livegrid(void)
{
    int s = vh_int(0, NG - 1, "grid");

    vh_assume(g[s] != NULL);
    return s;
}

static int livemap(void)
{
    int s = vh_int(0, NM - 1, "map");

    vh_assume(m[s] != NULL);
    return s;
}

static void source(void)
{
    int t = vh_int(0, 2, "type of source") + NT_DD, nx = t == NT_DD ? 5 : 3, ny = nx, bad = vh_int(0, 1, "invalid node") ? nx * ny - 1 : -1, own = bad >= 0, i, j, k;
    double h = t == NT_DD ? 2 : 4, x[25], y[25];
#if defined(SHAPE)
    double s = vh_real(-0.25, 0.25, "shape");
#else
    double s = 0.125;
#endif

    for (j = 0, k = 0; j < ny; ++j)
        for (i = 0; i < nx; ++i, ++k) {
            x[k] = h * i + s * ((i + 2 * j) % 3);
            y[k] = h * j - s * ((2 * i + j) % 4);
            if (k == bad)
                x[k] = y[k] = NAN;
        }
    gtype[0] = t;
    if (own) {
        /* the grid takes the arrays over */
        double** gx = gu_alloc2d(ny, nx, sizeof(double));
        double** gy = gu_alloc2d(ny, nx, sizeof(double));

        for (k = 0; k < nx * ny; ++k) {
            gx[k / nx][k % nx] = x[k];
            gy[k / nx][k % nx] = y[k];
        }
        g[0] = gridnodes_create2(nx, ny, t, gx, gy);
    } else {
        writegrid("g.txt", nx, ny, x, y);
        g[0] = gridnodes_read("g.txt", t);
    }
    vh_check(vh_files() == 0, "no file is left open");
    gridnodes_setmaptype(g[0], bad >= 0 ? GRIDMAP_TYPE_KDTREE : GRIDMAP_TYPE_BINARY);
    gridnodes_validate(g[0]);
    snap(0);
}

static void destroygrid(int s)
{
    int k;

    gridnodes_destroy(g[s]);
    g[s] = NULL;
    for (k = 0; k < NM; ++k)
        if (mgrid[k] == s)
            mgrid[k] = -1;
}

static void step(void)
{
    int op = vh_int(0, 9, "operation"), s = -1, n, k, i, j;

    switch (op) {
    case 0:
        /* convert */
        s = livegrid();
        n = freegrid();
        gtype[n] = vh_int(NT_DD, NT_COR, "type");
        g[n] = gridnodes_transform(g[s], gtype[n]);
        vh_check(g[n] != g[s] && gridnodes_getx(g[n]) != gridnodes_getx(g[s]), "a converted grid is independent");
        snap(n);
        break;
    case 1:
        /* extract */
        s = livegrid();
        n = freegrid();
        k = gtype[s] == NT_DD ? 2 : 1;
        gtype[n] = gtype[s];
        if (vh_int(0, 1, "part of it"))
            g[n] = gridnodes_subgrid(g[s], 0, k, -1, gny[s]);
        else
            g[n] = gridnodes_subgrid(g[s], -1, gnx[s], 0, gny[s]);
        vh_check(g[n] != g[s] && gridnodes_getx(g[n]) != gridnodes_getx(g[s]), "an extracted grid is independent");
        snap(n);
        break;
    case 2:
        /* map */
        s = livegrid();
        vh_assume(gtype[s] == NT_COR);
        gridnodes_validate(g[s]);
        lookround(s);
        for (n = 0; n < NM && m[n] != NULL; ++n);
        vh_assume(n < NM);
        if (vh_int(0, 1, "map as the grid has it")) {
            mtype[n] = gridnodes_getmaptype(g[s]);
            m[n] = gridmap_build2(g[s]);
        } else {
            mtype[n] = !gridnodes_getmaptype(g[s]);
            m[n] = gridmap_build(gridnodes_getnce1(g[s]), gridnodes_getnce2(g[s]), gridnodes_getx(g[s]), gridnodes_gety(g[s]), mtype[n]);
        }
        mgrid[n] = s;
        ask(m[n], ma[n]);
        break;
    case 3:
        destroygrid(livegrid());
        break;
    case 4:
        /* destroy a map; if nothing happened to the grid a new one is the same */
        n = livemap();
        gridmap_destroy(m[n]);
        if (mgrid[n] >= 0 && gtype[mgrid[n]] == NT_COR) {
            answer a[NQ];

            s = mgrid[n];
            m[n] = gridmap_build(gridnodes_getnce1(g[s]), gridnodes_getnce2(g[s]), gridnodes_getx(g[s]), gridnodes_gety(g[s]), mtype[n]);
            ask(m[n], a);
            same(a, ma[n]);
            gridmap_destroy(m[n]);
            s = -1;
        }
        m[n] = NULL;
        mgrid[n] = -1;
        break;
    case 5:
        {
            int** mask;
            int nce1, nce2;

            s = livegrid();
            vh_assume(gtype[s] != NT_COR);
            nce1 = gridnodes_getnce1(g[s]);
            nce2 = gridnodes_getnce2(g[s]);
            mask = gu_alloc2d(nce2, nce1, sizeof(int));
            for (j = 0; j < nce2; ++j)
                for (i = 0; i < nce1; ++i)
                    mask[j][i] = i + j > 0;
            gridnodes_applymask(g[s], mask);
            gu_free2d(mask);
        }
        break;
    case 6:
        s = livegrid();
#if defined(SHAPE)
        vh_assume(0);           /* acos() of a symbolic value */
#endif
        gridnodes_calcstats(g[s]);
        gridnodes_calcstats(g[s]);
        break;
    case 7:
        {
            poly *p, *q;
            FILE* f;

            s = livegrid();
            vh_assume(gtype[s] == NT_COR);
            p = poly_formbound(gridnodes_getnce1(g[s]), gridnodes_getnce2(g[s]), gridnodes_getx(g[s]), gridnodes_gety(g[s]));
            q = poly_formboundij(gridnodes_getnce1(g[s]), gridnodes_getnce2(g[s]), gridnodes_getx(g[s]));
            poly_append(q, p);
            poly_destroy(p);
            p = poly_copy(q);
            poly_destroy(q);
            poly_compact(p, 1.0e-9);
            poly_addpoint(p, 1, 2);
            f = fopen("p.txt", "w");
            poly_write(p, f);
            fclose(f);
            poly_clear(p);
            f = fopen("p.txt", "r");
            poly_read(p, f);
            fclose(f);
            poly_destroy(p);
        }
        break;
    case 8:
        s = livegrid();
        gridnodes_write(g[s], "w.txt", CT_XY);
        vh_check(vh_files() == 0, "no file is left open");
        break;
    case 9:
        {
            gridaverager* ga;
            point p = { 1, 1, 1 };

            n = livemap();
            vh_assume(mgrid[n] >= 0);
            ga = ga_create(m[n]);
            ga_addpoints(ga, 1, &p);
            ga_getvalue(ga, &p);
            ga_destroy(ga);
        }
        break;
    }
    lookround(s);
}

void h_life(void)
{
    int k, order;

    for (k = 0; k < NM; ++k)
        mgrid[k] = -1;
    source();
    order = gtype[0] % 2;
    vh_checkpoint();
    for (k = 0; k < NSTEP; ++k)
        step();
    /* what is left, in one order or the other */
    for (k = 0; k < NG + NM; ++k) {
        int q = order ? k : NG + NM - 1 - k;

        if (q < NG && g[q] != NULL) {
            destroygrid(q);
            lookround(-1);
        }
        if (q >= NG && m[q - NG] != NULL) {
            gridmap_destroy(m[q - NG]);
            m[q - NG] = NULL;
            mgrid[q - NG] = -1;
            lookround(-1);
        }
    }
    vh_check(vh_live() == 0, "everything is released");
    vh_check(vh_files() == 0, "all files are closed");
}
