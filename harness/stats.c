/* C26: statistics of a grid */
#include "toolh.h"

#if !defined(NI)
#define NI 2
#endif
#if !defined(NJ)
#define NJ 2
#endif
#define NX (NI + 1)
#define NY (NJ + 1)
#define TOL 6.0e-4              /* what is printed has 3 decimals */

extern int gu_verbose;

/* directions of sides with rational cosines */
#define ND 6
static double dx_[ND], dy_[ND], len_[ND];

static void setdirs(void)
{
    static const double d[ND][3] = { {4, 0, 4}, {4, 3, 5}, {0, 4, 4}, {-3, 4, 5}, {12, -5, 13}, {8, 15, 17} };
    int k;

    for (k = 0; k < ND; ++k) {
        dx_[k] = d[k][0];
        dy_[k] = d[k][1];
        len_[k] = d[k][2];
    }
}

static double dev(int a, int b)
{
    double c = (dx_[a] * dx_[b] + dy_[a] * dy_[b]) / len_[a] / len_[b];

    return fabs(asin(c)) * 180.0 / M_PI;
}

/* what the statistics must be */
static double wdo[NJ][NI][4], war[NJ][NI], wdx[NJ][NI], wdy[NJ][NI];
static int ok[NJ][NI];

static int closeto(double a, double b)
{
    double t = fabs(b) * 0.006;

    return a - b <= t && b - a <= t;
}

static void checkstats(const char* fname, double sx, double sy)
{
    FILE* f = fopen(fname, "r");
    char buf[512];
    double v, v2, domax = 0, dosum = 0, armax = 1, arsum = 0, dxsum = 0, dysum = 0;
    int i, j, k, n = 0, seen = 0, ci, cj;

    for (j = 0; j < NJ; ++j)
        for (i = 0; i < NI; ++i)
            if (ok[j][i]) {
                n++;
                for (k = 0; k < 4; ++k) {
                    dosum += wdo[j][i][k];
                    if (wdo[j][i][k] > domax)
                        domax = wdo[j][i][k];
                }
                arsum += war[j][i];
                if (war[j][i] > armax)
                    armax = war[j][i];
                dxsum += wdx[j][i];
                dysum += wdy[j][i];
            }
    while (fgets(buf, 512, f) != NULL) {
        if (strstr(buf, "maximum deviation from orthogonality") != NULL) {
            vh_check(sscanf(strchr(buf, '='), "= %lf deg, in cell (%d,%d)", &v, &ci, &cj) == 3, "maximum deviation line");
            seen |= 1;
            if (n == 0)
                continue;
            vh_check(vh_near(v, domax, TOL), "the maximum deviation from orthogonality");
            if (domax > 0 || ci >= 0) {
                vh_check(ci >= 0 && ci < NI && cj >= 0 && cj < NJ && ok[cj][ci], "the maximum deviation is in a valid cell");
                for (k = 0, v2 = 0; k < 4; ++k)
                    if (wdo[cj][ci][k] > v2)
                        v2 = wdo[cj][ci][k];
                vh_check(vh_near(v2, domax, 1.0e-9), "the cell with the maximum deviation");
            }
        } else if (strstr(buf, "mean deviation from orthogonality") != NULL) {
            vh_check(sscanf(strchr(buf, '='), "= %lf", &v) == 1, "mean deviation line");
            seen |= 2;
            if (n > 0)
                vh_check(vh_near(v, dosum / n / 4, TOL), "the mean deviation from orthogonality");
        } else if (strstr(buf, "maximum aspect ratio") != NULL) {
            vh_check(sscanf(strchr(buf, '='), "= %lf, in cell (%d,%d)", &v, &ci, &cj) == 3, "maximum aspect ratio line");
            seen |= 4;
            if (n == 0)
                continue;
            vh_check(closeto(v, armax), "the maximum aspect ratio");
            if (armax > 1 + 1.0e-9 || ci >= 0) {
                vh_check(ci >= 0 && ci < NI && cj >= 0 && cj < NJ && ok[cj][ci], "the maximum aspect ratio is in a valid cell");
                vh_check(vh_near(war[cj][ci], armax, 1.0e-9), "the cell with the maximum aspect ratio");
            }
        } else if (strstr(buf, "mean aspect ratio") != NULL) {
            vh_check(sscanf(strchr(buf, '='), "= %lf", &v) == 1, "mean aspect ratio line");
            seen |= 8;
            if (n > 0)
                vh_check(closeto(v * n, arsum), "the mean aspect ratio");
        } else if (strstr(buf, "mean cell size") != NULL) {
            vh_check(sscanf(strchr(buf, '='), "= %lf x %lf", &v, &v2) == 2, "mean cell size line");
            seen |= 16;
            if (n > 0) {
                vh_check(closeto(v * n, dxsum), "the mean cell size in the first direction");
                vh_check(closeto(v2 * n, dysum), "the mean cell size in the second direction");
            }
        }
    }
    vh_check(seen == 31, "all statistics are reported");
    fclose(f);
}

static void run(double x[NY][NX], double y[NY][NX])
{
    int i, j, dd = 0;
    gridnodes* gn;

#if defined(DD)
    /* the same corners in a double-density grid; what lies between them does not matter */
    dd = vh_int(0, 1, "double-density");
#endif
    if (dd) {
        gn = gridnodes_create(2 * NX - 1, 2 * NY - 1, NT_DD);
        for (j = 0; j < 2 * NY - 1; ++j)
            for (i = 0; i < 2 * NX - 1; ++i)
                if (i % 2 || j % 2)
                    gridnodes_readnextpoint(gn, 77.0 + i * j, i - 200.0 * j);
                else
                    gridnodes_readnextpoint(gn, x[j / 2][i / 2], y[j / 2][i / 2]);
    } else {
        gn = gridnodes_create(NX, NY, NT_COR);
        for (j = 0; j < NY; ++j)
            for (i = 0; i < NX; ++i)
                gridnodes_readnextpoint(gn, x[j][i], y[j][i]);
    }
#if defined(AGAIN)
    /* calculated before, or without having been validated */
    {
        int how = vh_int(0, 2, "how");

        if (how != 0)
            gridnodes_validate(gn);
        gu_verbose = how == 1;
        if (how != 0) {
            vh_capture_begin("other");
            gridnodes_calcstats(gn);
            vh_capture_end();
        }
    }
#else
    gridnodes_validate(gn);
#endif
    gu_verbose = 1;
    vh_capture_begin("err");
    gridnodes_calcstats(gn);
    vh_capture_end();
    gu_verbose = 0;
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            double xx = gridnodes_getx(gn)[dd ? 2 * j : j][dd ? 2 * i : i], yy = gridnodes_gety(gn)[dd ? 2 * j : j][dd ? 2 * i : i];
            int k, l, kept = 0;

            for (l = j - 1; l <= j; ++l)
                for (k = i - 1; k <= i; ++k)
                    if (l >= 0 && l < NJ && k >= 0 && k < NI && ok[l][k])
                        kept = 1;
            vh_check(kept ? xx == x[j][i] && yy == y[j][i] : isnan(xx) && isnan(yy), "the nodes are not changed");
        }
    checkstats("err", 1, 1);
    gridnodes_destroy(gn);
}

static void mask(double x[NY][NX], double y[NY][NX])
{
    int i, j;
#if defined(MASKED)
    int k = vh_int(-1, NX * NY - 1, "first invalid node"), l = k < 0 ? -1 : vh_int(-1, k - 1, "second invalid node");

    if (k >= 0)
        x[k / NX][k % NX] = y[k / NX][k % NX] = NAN;
    if (l >= 0)
        x[l / NX][l % NX] = y[l / NX][l % NX] = NAN;
#endif
    for (j = 0; j < NJ; ++j)
        for (i = 0; i < NI; ++i)
            ok[j][i] = !isnan(x[j][i]) && !isnan(x[j][i + 1]) && !isnan(x[j + 1][i]) && !isnan(x[j + 1][i + 1]);
}

/* cells are parallelograms: sides of any length, in directions from a table */
void h_para(void)
{
    int u[NI], v[NJ], i, j, k;
    double lu[NI], lv[NJ], x[NY][NX], y[NY][NX];

    setdirs();
    for (i = 0; i < NI; ++i) {
        u[i] = i == 0 || vh_int(0, 1, "turn") ? vh_int(0, ND - 1, "direction") : u[i - 1];
        lu[i] = vh_real(0.125, 8, "length");
    }
    for (j = 0; j < NJ; ++j) {
        v[j] = vh_int(0, ND - 1, "direction");
        lv[j] = vh_real(0.125, 8, "length");
        for (i = 0; i < NI; ++i)
            vh_assume(dx_[u[i]] * dy_[v[j]] != dy_[u[i]] * dx_[v[j]]);
    }
    x[0][0] = -3;
    y[0][0] = 5;
    for (i = 0; i < NI; ++i) {
        x[0][i + 1] = x[0][i] + dx_[u[i]] * lu[i];
        y[0][i + 1] = y[0][i] + dy_[u[i]] * lu[i];
    }
    for (j = 0; j < NJ; ++j)
        for (i = 0; i < NX; ++i) {
            x[j + 1][i] = x[j][i] + dx_[v[j]] * lv[j];
            y[j + 1][i] = y[j][i] + dy_[v[j]] * lv[j];
        }
    mask(x, y);
    for (j = 0; j < NJ; ++j)
        for (i = 0; i < NI; ++i)
            if (ok[j][i]) {
                for (k = 0; k < 4; ++k)
                    wdo[j][i][k] = dev(u[i], v[j]);
                wdx[j][i] = lu[i] * len_[u[i]];
                wdy[j][i] = lv[j] * len_[v[j]];
                war[j][i] = wdx[j][i] > wdy[j][i] ? wdx[j][i] / wdy[j][i] : wdy[j][i] / wdx[j][i];
            }
    run(x, y);
}

/* a row of trapezoids between two parallel lines, legs in directions from a
 * table, or a column of them */
#if NJ == 1
void h_trap(void)
{
    static const double sl[5][2] = { {0, 1}, {0.75, 1.25}, {-0.75, 1.25}, {1.875, 2.125}, {-1.875, 2.125} };
    int s[NX], i, k, swap = vh_int(0, 1, "flip");
    double h = vh_real(0.5, 4, "height"), x[NY][NX], y[NY][NX];

    x[0][0] = 2;
    for (i = 0; i < NX; ++i) {
#if NI == 1
        s[i] = vh_int(0, 4, "slope");
#else
        /* the sides are such that the aspect ratio is a rational function */
        s[i] = i == 0 ? vh_int(0, 4, "slope") : s[i - 1] > 0 && vh_int(0, 1, "slope") ? 5 - s[i - 1] - (s[i - 1] < 3) * 2 + (s[i - 1] >= 3) * 2 : s[i - 1];
#endif
        if (i > 0)
            x[0][i] = x[0][i - 1] + vh_real(0.25, 16, "base");
        x[1][i] = x[0][i] + sl[s[i]][0] * h;
        y[0][i] = -1;
        y[1][i] = -1 + h;
        if (i > 0)
            vh_assume(x[1][i] > x[1][i - 1] + 0.125);
    }
    if (swap)
        for (i = 0; i < NX; ++i)
            for (k = 0; k < 2; ++k) {
                double t = x[k][i];

                x[k][i] = y[k][i];
                y[k][i] = -t;
            }
    mask(x, y);
    for (i = 0; i < NI; ++i)
        if (ok[0][i]) {
            double w0 = swap ? y[0][i] - y[0][i + 1] : x[0][i + 1] - x[0][i], w1 = swap ? y[1][i] - y[1][i + 1] : x[1][i + 1] - x[1][i];
            double t = (sl[s[i]][0] + sl[s[i + 1]][0]) / 2, m;

            for (k = 0; k < 4; ++k)
                wdo[0][i][k] = fabs(atan(sl[s[i + k % 2]][0])) * 180.0 / M_PI;
            wdx[0][i] = (w0 + w1) / 2;
            wdy[0][i] = (sl[s[i]][1] + sl[s[i + 1]][1]) * h / 2;
            m = h * sqrt(1 + t * t);
            war[0][i] = wdx[0][i] > m ? wdx[0][i] / m : m / wdx[0][i];
        }
    run(x, y);
}
#endif

#if NJ == 1 && NI == 1
/* a quadrilateral with four different angles: sides of any length in
 * directions from a table */
void h_quad(void)
{
    static const double D[4][3] = { {4, 0, 4}, {12, -5, 13}, {15, 8, 17}, {35, 12, 37} };
    static const double E[4][3] = { {0, 4, 4}, {3, 4, 5}, {-5, 12, 13}, {-20, 21, 29} };
    const double *d1 = D[vh_int(0, 3, "bottom")], *d2 = E[vh_int(0, 3, "right")], *d3 = D[vh_int(0, 3, "top")], *d4 = E[vh_int(0, 3, "left")];
    double a = vh_real(0.25, 2, "bottom"), c = a * (vh_int(2, 5, "top") * 0.25), b, e, det, rx, ry, m1, m2, x[NY][NX], y[NY][NX];

    /* a d1 + b d2 = e d4 + c d3 */
    det = d4[0] * d2[1] - d4[1] * d2[0];
    vh_assume(det != 0);
    rx = c * d3[0] - a * d1[0];
    ry = c * d3[1] - a * d1[1];
    b = (d4[0] * ry - d4[1] * rx) / det;
    e = (d2[0] * ry - d2[1] * rx) / det;
    vh_assume(b > 0.125 && e > 0.125);
    x[0][0] = 10;
    y[0][0] = -7;
    x[0][1] = x[0][0] + a * d1[0];
    y[0][1] = y[0][0] + a * d1[1];
    x[1][0] = x[0][0] + e * d4[0];
    y[1][0] = y[0][0] + e * d4[1];
    x[1][1] = x[1][0] + c * d3[0];
    y[1][1] = y[1][0] + c * d3[1];
    ok[0][0] = 1;
#define DEV(p, q) (fabs(asin((p[0] * q[0] + p[1] * q[1]) / p[2] / q[2])) * 180.0 / M_PI)
    wdo[0][0][0] = DEV(d1, d4);
    wdo[0][0][1] = DEV(d1, d2);
    wdo[0][0][2] = DEV(d3, d2);
    wdo[0][0][3] = DEV(d3, d4);
    wdx[0][0] = (a * d1[2] + c * d3[2]) / 2;
    wdy[0][0] = (b * d2[2] + e * d4[2]) / 2;
    m1 = hypot(a * d1[0] + c * d3[0], a * d1[1] + c * d3[1]);
    m2 = hypot(b * d2[0] + e * d4[0], b * d2[1] + e * d4[1]);
    war[0][0] = m1 > m2 ? m1 / m2 : m2 / m1;
    run(x, y);
}
#endif

/* many parallelograms, one column of any width */
static unsigned int rnd(unsigned int a, unsigned int b)
{
    unsigned int h = a * 2654435761u ^ b * 2246822519u ^ 0x9e3779b9u;

    h ^= h >> 15;
    h *= 2246822519u;
    h ^= h >> 13;
    h *= 3266489917u;
    return h ^ h >> 16;
}

void h_bigpara(void)
{
    int u[NI], v[NJ], i, j, k, seed = vh_int(0, 2, "grid"), some = vh_int(0, 2, "invalid nodes"), c = vh_int(0, 2, "column") * (NI - 1) / 2;
    double lu[NI], lv[NJ];
    static double x[NY][NX], y[NY][NX];
    static const int us[3] = { 0, 1, 4 }, vs[3] = { 2, 3, 5 };

    setdirs();
    for (i = 0; i < NI; ++i) {
        u[i] = us[rnd(seed, i) % 3];
        lu[i] = i == c ? vh_real(0.125, 8, "length") : (1 + rnd(seed + 5, i) % 9) * 0.25;
    }
    for (j = 0; j < NJ; ++j) {
        v[j] = vs[rnd(seed + 9, j) % 3];
        lv[j] = (1 + rnd(seed + 7, j) % 9) * 0.25;
    }
    x[0][0] = -3;
    y[0][0] = 5;
    for (i = 0; i < NI; ++i) {
        x[0][i + 1] = x[0][i] + dx_[u[i]] * lu[i];
        y[0][i + 1] = y[0][i] + dy_[u[i]] * lu[i];
    }
    for (j = 0; j < NJ; ++j)
        for (i = 0; i < NX; ++i) {
            x[j + 1][i] = x[j][i] + dx_[v[j]] * lv[j];
            y[j + 1][i] = y[j][i] + dy_[v[j]] * lv[j];
        }
    for (k = 0; k < NX * NY; ++k)
        if (some && rnd(k, seed) % (some * 15) == 0)
            x[k / NX][k % NX] = y[k / NX][k % NX] = NAN;
    mask(x, y);
    for (j = 0; j < NJ; ++j)
        for (i = 0; i < NI; ++i)
            if (ok[j][i]) {
                for (k = 0; k < 4; ++k)
                    wdo[j][i][k] = dev(u[i], v[j]);
                wdx[j][i] = lu[i] * len_[u[i]];
                wdy[j][i] = lv[j] * len_[v[j]];
                war[j][i] = wdx[j][i] > wdy[j][i] ? wdx[j][i] / wdy[j][i] : wdy[j][i] / wdx[j][i];
            }
    run(x, y);
}

/* nodes of other types */
void h_none(void)
{
    int type = vh_int(0, 1, "type") ? NT_CEN : NT_NONE, miss = vh_int(-1, 8, "node missing"), verb = vh_int(0, 1, "verbose"), again = vh_int(0, 1, "again"), k;
    gridnodes* gn = gridnodes_create(3, 3, type);
    double x[9], y[9];
    char buf[512];
    FILE* f;

    for (k = 0; k < 9; ++k) {
        x[k] = k == miss ? NAN : vh_real(-100, 100, "x");
        y[k] = k == miss ? NAN : vh_real(-100, 100, "y");
        gridnodes_readnextpoint(gn, x[k], y[k]);
    }
    gu_verbose = verb;
    vh_capture_begin("err");
    gridnodes_calcstats(gn);
    if (again)
        gridnodes_calcstats(gn);
    vh_capture_end();
    gu_verbose = 0;
    f = fopen("err", "r");
    while (fgets(buf, 512, f) != NULL)
        vh_check(strchr(buf, '=') == NULL, "no statistics are reported for nodes of other types");
    fclose(f);
    for (k = 0; k < 9; ++k)
        vh_check(vh_same(gridnodes_getx(gn)[k / 3][k % 3], x[k]) && vh_same(gridnodes_gety(gn)[k / 3][k % 3], y[k]), "the nodes are not changed");
    gridnodes_destroy(gn);
}
