/* C33: grids and maps made through the library interface */
#include <stdarg.h>
#include "toolh.h"
#include "gridmap.h"
#include "gridbmap.h"
#include "poly.h"
#include "guquit.h"

#if !defined(NX)
#define NX 3
#define NY 5
#endif

static double ex[NX * NY], ey[NX * NY];

static int same_grid(gridnodes* a, gridnodes* b, double tol)
{
    double** ax = gridnodes_getx(a);
    double** ay = gridnodes_gety(a);
    double** bx = gridnodes_getx(b);
    double** by = gridnodes_gety(b);
    int i, j;

    if (gridnodes_getnx(a) != gridnodes_getnx(b) || gridnodes_getny(a) != gridnodes_getny(b))
        return 0;
    if (gridnodes_getnce1(a) != gridnodes_getnce1(b) || gridnodes_getnce2(a) != gridnodes_getnce2(b))
        return 0;
    for (j = 0; j < gridnodes_getny(a); ++j)
        for (i = 0; i < gridnodes_getnx(a); ++i)
            if (!vh_near(ax[j][i], bx[j][i], tol) || !vh_near(ay[j][i], by[j][i], tol))
                return 0;
    return 1;
}

/* filled point by point, or made around arrays */
void h_fill(void)
{
    int type = vh_int(NT_DD, NT_COR, "type");
    int how = vh_int(0, 2, "filled, filled again, or made around arrays");
    int mt = vh_int(-1, 1, "map type");
    int to = vh_int(NT_NONE, NT_COR, "converted to");
    int extra = how == 1 ? vh_int(1, NX * NY, "points given again") : 0;
    int miss = vh_int(-1, NX * NY - 1, "node missing"), sym = vh_int(0, 2, "node with any coordinates");
    int live0, k, i, j, n = NX * NY + extra;
    gridnodes* gn;
    gridnodes* gf;
    gridnodes* g1;
    gridnodes* g2;
    double** ax = NULL;
    double** ay = NULL;
    double** gx;
    double** gy;

    if (type == NT_CEN && to != NT_CEN && to != NT_NONE && (miss > 2 || extra > 2))
        vh_assume(0);
    sym = sym == 0 ? 0 : sym == 1 ? NX * NY - 1 : NX + 1;
    live0 = vh_live();
    if (how == 2) {
        ax = gu_alloc2d(NY, NX, sizeof(double));
        ay = gu_alloc2d(NY, NX, sizeof(double));
    } else {
        gn = gridnodes_create(NX, NY, type);
        vh_check(gridnodes_getnx(gn) == NX && gridnodes_getny(gn) == NY, "size of the grid");
    }
    for (k = 0; k < n; ++k) {
        int kk = k % (NX * NY), old = k + NX * NY < n;
        double x, y;

        i = kk % NX;
        j = kk / NX;
        x = 16 * i + 5 * j + (i * 3 + j * 5) % 4;
        y = 16 * j - 3 * i + (i * 5 + j * 2) % 4;
        if (old)
            x -= 1000;
        else if (kk == sym) {
            x += vh_real(0, 1, "x");
            y += vh_real(0, 1, "y");
        }
        if (kk == miss && !old)
            x = y = NAN;
        ex[kk] = x;
        ey[kk] = y;
        if (how == 2) {
            ax[j][i] = x;
            ay[j][i] = y;
        } else
            gridnodes_readnextpoint(gn, x, y);
    }
    if (how == 2)
        gn = gridnodes_create2(NX, NY, type, ax, ay);
    gx = gridnodes_getx(gn);
    gy = gridnodes_gety(gn);
    if (how == 2)
        vh_check(gx == ax && gy == ay, "the arrays given are those of the grid");
    vh_check(gridnodes_getnx(gn) == NX && gridnodes_getny(gn) == NY, "size of the grid");
    vh_check(gridnodes_getnce1(gn) == (type == NT_DD ? (NX - 1) / 2 : type == NT_COR ? NX - 1 : NX), "number of cells");
    vh_check(gridnodes_getnce2(gn) == (type == NT_DD ? (NY - 1) / 2 : type == NT_COR ? NY - 1 : NY), "number of cells");
    for (k = 0; k < NX * NY; ++k)
        vh_check(vh_same(gx[k / NX][k % NX], ex[k]) && vh_same(gy[k / NX][k % NX], ey[k]), "nodes are held in the order given");
    writegrid("g.txt", NX, NY, ex, ey);
    gf = gridnodes_read("g.txt", type);
    vh_check(gridnodes_getmaptype(gn) == gridnodes_getmaptype(gf), "map type of a grid made in memory is the default one");
    if (mt >= 0) {
        gridnodes_setmaptype(gn, mt);
        gridnodes_setmaptype(gf, mt);
        vh_check(gridnodes_getmaptype(gn) == mt, "map type set");
    }
    gridnodes_validate(gn);
    gridnodes_validate(gf);
    vh_check(same_grid(gn, gf, 1.0e-9), "validated as a grid read from a file");
    if (!(type != NT_CEN && to == NT_CEN && type == NT_COR && miss >= 0 && mt != GRIDMAP_TYPE_KDTREE && miss != 0 && miss != NX * NY - 1)
        && !(type == NT_COR && to == NT_DD && mt != GRIDMAP_TYPE_KDTREE && miss > 0 && miss != NX * NY - 1)) {
        g1 = gridnodes_transform(gn, to);
        g2 = gridnodes_transform(gf, to);
        vh_check(same_grid(g1, g2, 1.0e-9), "converted as a grid read from a file");
        vh_check(gridnodes_getmaptype(g1) == gridnodes_getmaptype(g2), "map type after conversion");
        if (to == NT_NONE || to == type) {
            vh_check(g1 != gn && same_grid(g1, gn, 0.0), "conversion to the same type or none in particular makes a copy");
            gx = gridnodes_getx(g1);
            gx[0][0] = 5.5;
            gridnodes_destroy(g1);
            vh_check(!(gridnodes_getx(gn)[0][0] == 5.5), "which is independent of the grid");
            g1 = gridnodes_copy(gn);
        }
        gridnodes_destroy(g1);
        gridnodes_destroy(g2);
    }
    gridnodes_destroy(gf);
    gridnodes_destroy(gn);
    vh_check(vh_live() == live0, "everything is released");
}

/* maps made from a grid, and the extent of the binary tree map */
void h_map2(void)
{
    int mt = vh_int(0, 1, "map type"), miss = vh_int(0, 4, "corner cell missing"), k = vh_int(0, 2, "query"), i, j, r1, r2, a1 = 5, b1 = 5, a2 = 6, b2 = 6;
    gridnodes* gn = gridnodes_create(NX, NY, NT_COR);
    gridmap* m1;
    gridmap* m2;
    double t, x, y, u1 = 7, v1 = 7, u2 = 8, v2 = 8;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            int out = miss && i == ((miss - 1) & 1 ? NX - 1 : 0) && j == ((miss - 1) & 2 ? NY - 1 : 0);

            gridnodes_readnextpoint(gn, out ? NAN : 16 * i + 5 * j + (i * 3 + j * 5) % 4, out ? NAN : 16 * j - 3 * i + (i * 5 + j * 2) % 4);
        }
    gridnodes_validate(gn);
    gridnodes_setmaptype(gn, mt);
    m1 = gridmap_build2(gn);
    m2 = gridmap_build(NX - 1, NY - 1, gridnodes_getx(gn), gridnodes_gety(gn), mt);
    vh_check(gridmap_getnce1(m1) == NX - 1 && gridmap_getnce2(m1) == NY - 1, "number of cells of a map made from a grid");
    vh_check(gridmap_getnce1(m2) == NX - 1 && gridmap_getnce2(m2) == NY - 1, "number of cells of a map made from arrays");
    t = vh_real(-20, 100, "query");
    x = k == 0 ? t : 21.5;
    y = k == 0 ? 9.25 : t;
    if (k < 2) {
        r1 = gridmap_xy2ij(m1, x, y, &a1, &b1);
        r2 = gridmap_xy2ij(m2, x, y, &a2, &b2);
        vh_check(r1 == r2 && a1 == a2 && b1 == b2, "maps agree on the cell");
        r1 = gridmap_xy2fij(m1, x, y, &u1, &v1);
        r2 = gridmap_xy2fij(m2, x, y, &u2, &v2);
        vh_check(r1 == r2 && vh_same(u1, u2) && vh_same(v1, v2), "maps agree on the indices");
    } else {
        r1 = gridmap_fij2xy(m1, t / 8, 1.75, &u1, &v1);
        r2 = gridmap_fij2xy(m2, t / 8, 1.75, &u2, &v2);
        vh_check(r1 == r2 && vh_same(u1, u2) && vh_same(v1, v2), "maps agree on the coordinates");
    }
    gridmap_destroy(m1);
    gridmap_destroy(m2);
    gridnodes_destroy(gn);
}

void h_extent(void)
{
    int miss = vh_int(0, 4, "corner missing"), kind = vh_int(0, 3, "orientation"), any = vh_int(0, 3, "corner anywhere"), i, j;
    gridnodes* gn = gridnodes_create(NX, NY, NT_COR);
    double **gx, **gy;
    gridbmap* gm;
    double x0 = -1, x1 = -1, y0 = -1, y1 = -1;
    int at[4] = { 0, 0, 0, 0 };

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            int out = miss && i == ((miss - 1) & 1 ? NX - 1 : 0) && j == ((miss - 1) & 2 ? NY - 1 : 0);
            double x = 16 * i + 5 * j, y = 16 * j - 3 * i;

            if (!out && i == (any & 1 ? NX - 1 : 0) && j == (any & 2 ? NY - 1 : 0)) {
                x += vh_real(-3, 3, "x");
                y += vh_real(-3, 3, "y");
            }
            gridnodes_readnextpoint(gn, out ? NAN : kind & 1 ? -x : x, out ? NAN : kind & 2 ? -y : y);
        }
    gridnodes_validate(gn);
    gx = gridnodes_getx(gn);
    gy = gridnodes_gety(gn);
    gm = gridbmap_build(NX - 1, NY - 1, gx, gy);
    vh_check(gridbmap_getnce1(gm) == NX - 1 && gridbmap_getnce2(gm) == NY - 1, "number of cells");
    vh_check(gridbmap_getxnodes(gm) == gx && gridbmap_getynodes(gm) == gy, "nodes of the map");
    gridbmap_getextent(gm, &x0, &x1, &y0, &y1);
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            double x = gx[j][i], y = gy[j][i];

            if (isnan(x))
                continue;
            vh_check(x >= x0 && x <= x1 && y >= y0 && y <= y1, "the extent has all nodes");
            at[0] |= x == x0;
            at[1] |= x == x1;
            at[2] |= y == y0;
            at[3] |= y == y1;
        }
    vh_check(at[0] && at[1] && at[2] && at[3], "the extent is not larger than needed");
    gridbmap_destroy(gm);
    gridnodes_destroy(gn);
}

/* errors are reported through the function installed */
static void quit1(char* format, ...)
{
    FILE* f = fopen("q.txt", "w");
    va_list args;

    va_start(args, format);
    vfprintf(f, format, args);
    va_end(args);
    fclose(f);
    exit(7);
}

static void quit2(char* format, ...)
{
    FILE* f = fopen("q.txt", "w");

    fputs("2", f);
    fclose(f);
    exit(9);
}

static void grid_text(const char* s)
{
    FILE* f = fopen("g.txt", "w");

    fputs(s, f);
    fclose(f);
}

static int fails(int argc, char* argv[])
{
    gridnodes* gn;
    int** m;

    if (*argv[1] & 1)
        gu_setquitfn(quit1);
    if (*argv[1] & 2)
        gu_setquitfn(quit2);
    switch (*argv[2] - 'a') {
    case 0:
        gridnodes_read("missing.txt", NT_COR);
        break;
    case 1:
        grid_text("");
        gridnodes_read("g.txt", NT_COR);
        break;
    case 2:
        grid_text("2 2\n0 0\n");
        gridnodes_read("g.txt", NT_COR);
        break;
    case 3:
        grid_text("## 2 x 0\n");
        gridnodes_read("g.txt", NT_COR);
        break;
    case 4:
        grid_text("## 2 x 2\n0 0\n1 0\n0 1\n");
        gridnodes_read("g.txt", NT_COR);
        break;
    case 5:
        grid_text("## 4 x 3\n");
        gridnodes_read("g.txt", NT_DD);
        break;
    case 6:
        gridnodes_validate(gridnodes_create(3, 4, NT_DD));
        break;
    case 7:
        gn = gridnodes_create(3, 3, NT_COR);
        gridnodes_subgrid(gn, 5, 6, 0, 1);
        break;
    case 8:
        gn = gridnodes_create(3, 3, NT_COR);
        m = gu_alloc2d(2, 2, sizeof(int));
        gridnodes_applymask(gn, m);
        break;
    case 9:
        gn = gridnodes_create(2, 2, NT_NONE);
        gridnodes_getnce1(gn);
        break;
    case 10:
        gn = gridnodes_create(2, 2, NT_NONE);
        gridnodes_getnce2(gn);
        break;
    case 11:
        gn = gridnodes_create(2, 2, NT_NONE);
        gridnodes_transform(gn, NT_DD);
        break;
    case 12:
        gn = gridnodes_create(2, 2, NT_COR);
        gridnodes_setmaptype(gn, 7);
        gridmap_build2(gn);
        break;
    case 13:
        gn = gridnodes_create(2, 2, NT_COR);
        gridmap_build(1, 1, gridnodes_getx(gn), gridnodes_gety(gn), 7);
        break;
    case 14:
        gu_alloc2d(0, 3, 8);
        break;
    case 15:
        gu_alloc2d((size_t) 1 << 40, (size_t) 1 << 40, 8);
        break;
    case 16:
        gu_readmask("missing.txt", 2, 2);
        break;
    case 17:
        grid_text("1\n0\n1\n");
        gu_readmask("g.txt", 2, 2);
        break;
    case 18:
        grid_text("1\n2\n1\n0\n");
        gu_readmask("g.txt", 2, 2);
        break;
    case 19:
        poly_addpoint(poly_create(), NAN, 0.0);
        break;
    }
    return 0;
}

#define NERR 20

void h_quit(void)
{
    int which = vh_int(0, 3, "none, first, second, first then second"), rc;
    char which1[2] = "0", which2[2] = "a";
    char* argv[] = { "fails", which1, which2, NULL };
    FILE* f;

    *which1 = '0' + which;
    *which2 = 'a' + vh_int(0, NERR - 1, "error");
    f = fopen("q.txt", "w");
    fclose(f);
    rc = vh_main(fails, 3, argv, NULL, "out.txt", "err.txt");
    vh_check(isempty("out.txt"), "nothing is written to standard output");
    if (which == 0) {
        vh_check(rc != 0 && rc != 7 && rc != 9 && !isempty("err.txt"), "by default an error is reported and ends the run");
        vh_check(isempty("q.txt"), "a function not installed is not called");
    } else
        vh_check(rc == (which & 2 ? 9 : 7) && !isempty("q.txt"), "an error is reported through the function installed last");
}
