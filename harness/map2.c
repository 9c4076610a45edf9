/* C17, C18, C19: fractional conversions */
#include "gridh.h"

static int shape, flip, rot;
static unsigned int seed;

/* scales are powers of two, so that the arithmetic on concrete nodes is exact */
static double scale = 1.0;

static void geometry(void)
{
    int i, j;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            double x, y;

            if (shape == 0) {           /* rectangular, uneven */
                x = 10 * i + i * i;
                y = 7 * j + 2 * j * j;
            } else if (shape == 1) {    /* general quadrilaterals */
                x = 16 * i + 4 * j + (i * 3 + j * 5) % 4;
                y = 16 * j - 3 * i + (i * 5 + j * 2) % 4;
            } else if (shape == 2) {    /* sheared */
                x = 16 * i + 5 * j;
                y = 12 * j - 3 * i;
            } else if (shape == 3) {    /* trapezoids */
                x = (16 + 2 * j) * i;
                y = 10 * j;
            } else if (shape == 6) {    /* very irregular ones */
                unsigned int h = (seed * 64 + i * 8 + j + 1) * 2654435761u;

                x = 16 * i + 3 * j + (int) ((h >> 9) % 8);
                y = 16 * j - 3 * i + (int) ((h >> 19) % 8);
            } else {                    /* almost parallelograms: second shape less so in its other columns */
                x = 16 * i + 5 * j + i * j / (shape == 4 ? 8192.0 : 1024.0);
                if (shape == 5 && i > 1)
                    x += (i - 1) * j / 16.0;
                y = 12 * j - 3 * i;
            }
            if (rot) {
                double t = x;

                x = -y;
                y = t;
            }
            sx[j][i] = (flip ? -x : x) * scale;
            sy[j][i] = y * scale;
        }
}

static gridmap* build(gridnodes** pgn, int type)
{
    *pgn = mkgrid(NT_COR);
    gridnodes_validate(*pgn);
    return gridmap_build(MX, MY, gridnodes_getx(*pgn), gridnodes_gety(*pgn), type);
}

/* ------------------------------------------------------------- C17 */
void h_fij(void)
{
    gridnodes* gn;
    gridmap* gm;
    double fi, fj, u, v, ci, cj;
    double rx = 5.0, ry = 5.0, ex, ey;
    int type = vh_int(0, 1, "map type");
    int i, j, st, in;

    pickcells(type == GRIDMAP_TYPE_BINARY);
    vh_assume(ncell == 0 || (type == GRIDMAP_TYPE_KDTREE && ncell > 0) || simplyconnected());
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
#if defined(BIG)
            sx[j][i] = 16 * i + 5 * j + (i * 3 + j * 5) % 4;
            sy[j][i] = 16 * j - 3 * i + (i * 5 + j * 2) % 4;
#else
            sx[j][i] = 16 * i + 5 * j + vh_real(0, 1, "x");
            sy[j][i] = 16 * j - 3 * i + vh_real(0, 1, "y");
#endif
        }
    gm = build(&gn, type);
    vh_checkpoint();
#if defined(BIG)
    fi = vh_real(-2, NX + 1, "fi");
    switch (region % 3) {
    case 0:
        fj = MY - fi * 0.75;
        break;
    case 1:
        fj = fi;
        fi = MX - 0.25;
        break;
    default:
        fj = MY / 2;
    }
#else
    fi = vh_maybe_nan(vh_real(-2, NX + 1, "fi"), "fi is NaN");
    fj = vh_maybe_nan(vh_real(-2, NY + 1, "fj"), "fj is NaN");
#endif
    st = gridmap_fij2xy(gm, fi, fj, &rx, &ry);
    if (isnan(fi) || isnan(fj)) {
        vh_check(isnan(rx) && isnan(ry), "NaN index gives NaN");
        vh_check(st == 0, "NaN index is reported as failure");
    } else {
        in = fi >= 0 && fi <= MX && fj >= 0 && fj <= MY;
        vh_check((st != 0) == in, "success is reported iff the indices are within the range");
        ci = fi < 0 ? 0.0 : fi > MX ? (double) MX : fi;
        cj = fj < 0 ? 0.0 : fj > MY ? (double) MY : fj;
        i = (int) ci;
        j = (int) cj;
        u = ci - i;
        v = cj - j;
        /* nodes with weight zero do not matter */
#define G(s, jj, ii) ((ok[jj][ii] && hascell(jj, ii)) ? s[jj][ii] : NAN)
#define BIL(s) (u == 0.0 ? (v == 0.0 ? G(s, j, i) : G(s, j, i) * (1.0 - v) + G(s, j + 1, i) * v) : \
        (v == 0.0 ? G(s, j, i) * (1.0 - u) + G(s, j, i + 1) * u : \
         G(s, j, i) * (1.0 - u) * (1.0 - v) + G(s, j, i + 1) * u * (1.0 - v) + G(s, j + 1, i) * (1.0 - u) * v + G(s, j + 1, i + 1) * u * v))
        ex = BIL(sx);
        ey = BIL(sy);
        if (u == 0.0 && v == 0.0)
            vh_check(vh_same(rx, ex) && vh_same(ry, ey), "integer indices give exactly the node");
        vh_check(vh_near(rx, ex, 1.0e-9) && vh_near(ry, ey, 1.0e-9), "result is the bilinear interpolation, clamped to the index range");
    }
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
}

/* extreme values */
void h_fij_extreme(void)
{
    static const double ev[12] = { 1.0e308, -1.0e308, INFINITY, -INFINITY, 2147483648.0, -2147483649.0, 4294967296.5, 1.0e19, -0.0, 5.0e-324, -5.0e-324, 1.9999999999999998 };
    double fi = ev[vh_int(0, 11, "fi")], fj = ev[vh_int(0, 11, "fj")];
    double rx, ry, ci, cj, ex, ey;
    gridnodes* gn;
    gridmap* gm;
    int i, j, st;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            ok[j][i] = 1;
    getcells();
    shape = 2;
    geometry();
    gm = build(&gn, vh_int(0, 1, "map type"));
    st = gridmap_fij2xy(gm, fi, fj, &rx, &ry);
    vh_check((st != 0) == (fi >= 0 && fi <= MX && fj >= 0 && fj <= MY), "success is reported iff the indices are within the range");
    ci = fi < 0 ? 0.0 : fi > MX ? (double) MX : fi;
    cj = fj < 0 ? 0.0 : fj > MY ? (double) MY : fj;
    ex = 16 * ci + 5 * cj;
    ey = 12 * cj - 3 * ci;
    vh_check(vh_near(rx, ex, 1.0e-9) && vh_near(ry, ey, 1.0e-9), "result is that of the nearest end of the range");
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
}

/* ------------------------------------------------------------- C18 */
#if !defined(LINES)
#define FULL
#define LINES 0
#endif
#if !defined(NSHAPE)
#define NSHAPE 6
#endif
static void forward(int i, int j, double u, double v, double* x, double* y)
{
    *x = sx[j][i] * (1.0 - u) * (1.0 - v) + sx[j][i + 1] * u * (1.0 - v) + sx[j + 1][i] * (1.0 - u) * v + sx[j + 1][i + 1] * u * v;
    *y = sy[j][i] * (1.0 - u) * (1.0 - v) + sy[j][i + 1] * u * (1.0 - v) + sy[j + 1][i] * (1.0 - u) * v + sy[j + 1][i + 1] * u * v;
}

void h_inv(void)
{
    static const double sc[3] = { 1.0, 1.0 / 1024.0, 131072.0 };
    gridnodes* gn;
    gridmap* gm;
    double u, v, x, y, fi = 5, fj = 5, bx, by, tol;
    int type = vh_int(0, 1, "map type");
    int i, j, ci, cj, ii, jj, st;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            ok[j][i] = 1;
    getcells();
#if defined(IRREGULAR)
    shape = 6;
    seed = vh_int(0, IRREGULAR - 1, "irregular shape");
#else
    shape = vh_int(0, NSHAPE - 1, "shape");
#endif
    flip = vh_int(0, 1, "mirrored");
    rot = vh_int(0, 1, "rotated");
    scale = sc[LINES + 0 == 2 ? (shape + flip + rot) % 3 : vh_int(0, 2, "scale")];
    geometry();
    gm = build(&gn, type);
    ci = vh_int(0, MX - 1, "cell i");
    cj = vh_int(0, MY - 1, "cell j");
#if !defined(FULL)
    {
        /* anywhere on four lines across the cell */
        double w = vh_int(0, 1, "line") ? 0.125 : 0.9375;

        u = vh_real(0, 1, "u");
        if (vh_int(0, 1, "direction")) {
            v = u;
            u = w;
        } else
            v = w;
    }
#else
    u = vh_real(0, 1, "u");
    v = vh_real(0, 1, "v");
#endif
    vh_assume(u > 0.0 && u < 1.0 && v > 0.0 && v < 1.0);
    forward(ci, cj, u, v, &x, &y);
    if (type == GRIDMAP_TYPE_KDTREE && !gridmap_xy2ij(gm, x, y, &ii, &jj))
        vh_assume(0);           /* may miss cells that do not have the nearest node */
    vh_checkpoint();
    st = gridmap_xy2fij(gm, x, y, &fi, &fj);
    vh_check(st != 0, "a point of a valid cell is converted");
    vh_check(fi >= ci && fi <= ci + 1 && fj >= cj && fj <= cj + 1, "indices are within the cell of the point");
    tol = 40.0e-8;
    vh_check(vh_near(fi - ci, u, tol) && vh_near(fj - cj, v, tol), "indices are those of the point");
    st = gridmap_fij2xy(gm, fi, fj, &bx, &by);
    vh_check(st != 0, "indices obtained can be converted back");
    vh_check(vh_near((bx - x) / scale, 0.0, 16 * tol) && vh_near((by - y) / scale, 0.0, 16 * tol), "indices map back to the point");
    (void) gridmap_xy2ij(gm, x, y, &ii, &jj);
    vh_check((int) fi == ii && (int) fj == jj, "integer parts agree with the cell lookup");
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
}

/* points on edges and nodes, and outside: agreement with the cell lookup */
void h_inv_any(void)
{
    gridnodes* gn;
    gridmap* gm;
    double x, y, fi = 5, fj = 5, bx, by;
    int ii, jj, st;

    pickcells(1);
    vh_assume(simplyconnected() || ncell == 0);
    shape = vh_int(0, 1, "shape") * 2;
    geometry();
    gm = build(&gn, vh_int(0, 1, "map type"));
    vh_checkpoint();
#if defined(BIG)
    {
        double t = vh_real(-2, 2, "t");
        int l = region % 3;

        x = sx[MY / 2][MX / 2] + t * (l == 0 ? 8 * NX : l == 1 ? 3 : -11 * NX);
        y = sy[MY / 2][MX / 2] + t * (l == 0 ? 1 : l == 1 ? 7 * NY : 9 * NY);
    }
#else
    x = vh_maybe_nan(vh_real(-30, 60, "x"), "x is NaN");
    y = vh_maybe_nan(vh_real(-30, 60, "y"), "y is NaN");
#endif
    st = gridmap_xy2fij(gm, x, y, &fi, &fj);
    vh_check((st != 0) == (gridmap_xy2ij(gm, x, y, &ii, &jj) != 0), "conversion succeeds iff the cell lookup does");
    if (!st)
        vh_check(isnan(fi) && isnan(fj), "failed conversion gives NaN indices");
    else {
        vh_check((int) fi == ii && (int) fj == jj, "integer parts agree with the cell lookup");
        vh_check(gridmap_fij2xy(gm, fi, fj, &bx, &by) != 0, "indices obtained can be converted back");
        vh_check(vh_near(bx, x, 1.0e-5) && vh_near(by, y, 1.0e-5), "indices map back to the point");
    }
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
}

/* ------------------------------------------------------------- C19 */
static const double hq[6][2] = { {8, 8}, {-100, 3}, {24.5, 21}, {1000, 1000}, {11, 27}, {18, 16} };

static void ask(gridmap* gm, int op)
{
    double a, b;
    int i, j;

    if (op < 6)
        (void) gridmap_xy2fij(gm, hq[op][0], hq[op][1], &a, &b);
    else if (op < 9)
        (void) gridmap_xy2ij(gm, hq[2 * (op - 6)][0], hq[2 * (op - 6)][1], &i, &j);
    else if (op == 9)
        (void) gridmap_fij2xy(gm, 0.5, 1.25, &a, &b);
    else if (op == 10)
        (void) gridmap_fij2xy(gm, -1, 77, &a, &b);
    else if (op == 11)
        (void) gridmap_xy2fij(gm, NAN, 8.0, &a, &b);
}

void h_history(void)
{
    gridnodes* gn;
    gridmap* g1;
    gridmap* g2;
    int type = vh_int(0, 1, "map type");
    double x, y, a1 = 1, b1 = 1, a2 = 2, b2 = 2;
    int i1 = 1, j1 = 1, i2 = 2, j2 = 2, s1, s2, i, j, op, p1, p2;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            ok[j][i] = 1;
    getcells();
    shape = vh_int(1, 2, "shape");
    flip = vh_int(0, 1, "mirrored");
    geometry();
    if (flip)
        for (j = 0; j < NY; ++j)
            for (i = 0; i < NX; ++i)
                sx[j][i] += 40;
    g1 = build(&gn, type);
    p1 = vh_int(0, 12, "earlier query");
    p2 = LINES ? (p1 * 5 + 2) % 13 : vh_int(0, 12, "earlier query");
    op = vh_int(0, 2, "query");
    vh_checkpoint();
    if (op == 2) {
        x = vh_real(-1, NX, "fi");
        y = 1.0 + vh_real(0, 1, "fj");
        s1 = gridmap_fij2xy(g1, x, y, &a1, &b1);
    } else {
        /* along a line through cells and beyond */
        double t = vh_real(-20, 60, "t");

        x = t;
        y = 12.0 + t * 0.25;
        s1 = op == 0 ? gridmap_xy2fij(g1, x, y, &a1, &b1) : gridmap_xy2ij(g1, x, y, &i1, &j1);
    }
    g2 = gridmap_build(MX, MY, gridnodes_getx(gn), gridnodes_gety(gn), type);
    ask(g2, p1);
    ask(g2, p2);
    if (op == 2)
        s2 = gridmap_fij2xy(g2, x, y, &a2, &b2);
    else
        s2 = op == 0 ? gridmap_xy2fij(g2, x, y, &a2, &b2) : gridmap_xy2ij(g2, x, y, &i2, &j2);
    vh_check(s1 == s2, "success does not depend on earlier queries");
    if (op != 1)
        vh_check(vh_same(a1, a2) && vh_same(b1, b2), "result does not depend on earlier queries");
    else
        vh_check(i1 == i2 && j1 == j2, "cell found does not depend on earlier queries");
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            vh_check(vh_same(gridnodes_getx(gn)[j][i], sx[j][i]) && vh_same(gridnodes_gety(gn)[j][i], sy[j][i]), "queries do not modify the nodes");
    gridmap_destroy(g1);
    gridmap_destroy(g2);
    gridnodes_destroy(gn);
}

/* a map of another grid (of either orientation) does not matter, nor does the order in which maps are made */
void h_others(void)
{
    gridnodes* gn[2];
    gridmap* gm[2];
    int t0 = vh_int(0, 1, "map type"), t1 = vh_int(0, 1, "other map type");
    int same = vh_int(0, 1, "other of same orientation"), late = vh_int(0, 1, "made before the other is used");
    int ci, cj, st, k, i, j;
    double u, v, x, y, fi = 5, fj = 5, ofi[2], ofj[2];

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            ok[j][i] = 1;
    getcells();
    flip = vh_int(0, 1, "mirrored");
    /* the other one */
    shape = 1;
    if (same == 0)
        flip = !flip;
    geometry();
    gm[1] = build(&gn[1], t1);
    if (same == 0)
        flip = !flip;
    forward(MX - 1, MY - 1, 0.25, 0.75, &x, &y);
    shape = 1;
    geometry();
    if (late) {
        gm[0] = build(&gn[0], t0);
        gridmap_xy2fij(gm[1], x, y, &ofi[0], &ofj[0]);
    } else {
        gridmap_xy2fij(gm[1], x, y, &ofi[0], &ofj[0]);
        gm[0] = build(&gn[0], t0);
    }
    vh_check(vh_near(ofi[0], MX - 0.75, 1.0e-6) && vh_near(ofj[0], MY - 0.25, 1.0e-6), "first map converts");
    ci = vh_int(0, MX - 1, "cell i");
    cj = vh_int(0, MY - 1, "cell j");
    k = vh_int(0, 1, "direction");
    u = vh_real(0, 1, "u");
    vh_assume(u > 0.0 && u < 1.0);
    v = 0.8125;
    if (k) {
        v = u;
        u = 0.0625;
    }
    {
        double ax, ay;
        int ii, jj;

        forward(ci, cj, u, v, &ax, &ay);
        if (t0 == GRIDMAP_TYPE_KDTREE && !gridmap_xy2ij(gm[0], ax, ay, &ii, &jj))
            vh_assume(0);       /* may miss cells that do not have the nearest node */
        vh_checkpoint();
        st = gridmap_xy2fij(gm[0], ax, ay, &fi, &fj);
    }
    vh_check(st != 0 && vh_near(fi - ci, u, 1.0e-6) && vh_near(fj - cj, v, 1.0e-6), "conversion does not depend on the use of another map");
    gridmap_xy2fij(gm[1], x, y, &ofi[1], &ofj[1]);
    vh_check(ofi[0] == ofi[1] && ofj[0] == ofj[1], "nor does that of the other map");
    for (k = 0; k < 2; ++k) {
        gridmap_destroy(gm[k]);
        gridnodes_destroy(gn[k]);
    }
}
