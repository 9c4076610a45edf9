/* C08 compacting, C11 thinning, despiking and text input/output of polylines */
#include "vh.h"
#include "poly.h"

#if !defined(NV)
#define NV 5
#endif
#define CAP (NV + 4)

static double px[CAP], py[CAP];
static int pn;

static void sizeok(poly* pl)
{
    int i;

    vh_check(pl->nallocated >= pl->n && pl->nallocated > 0, "allocated size covers the points");
    if (pl->n < pl->nallocated) {
        pl->x[pl->nallocated - 1] = 0.0;
        pl->y[pl->nallocated - 1] = 0.0;
    }
    for (i = 0; i < pl->n; ++i)
        vh_check(pl->e.xmin <= pl->x[i] && pl->x[i] <= pl->e.xmax && pl->e.ymin <= pl->y[i] && pl->y[i] <= pl->e.ymax, "extent holds the points");
}

static void exactextent(poly* pl)
{
    int a = 0, b = 0, c = 0, d = 0, i;

    sizeok(pl);
    if (pl->n == 0)
        return;
    for (i = 0; i < pl->n; ++i) {
        a |= pl->x[i] == pl->e.xmin;
        b |= pl->x[i] == pl->e.xmax;
        c |= pl->y[i] == pl->e.ymin;
        d |= pl->y[i] == pl->e.ymax;
    }
    vh_check(a && b && c && d, "extent is the bounding box of the points");
}

static double cross(int a, int b, int c)
{
    return (px[b] - px[a]) * (py[c] - py[b]) - (py[b] - py[a]) * (px[c] - px[b]);
}

static double dot(int a, int b, int c)
{
    return (px[b] - px[a]) * (px[c] - px[b]) + (py[b] - py[a]) * (py[c] - py[b]);
}

static int same(int a, int b)
{
    return px[a] == px[b] && py[a] == py[b];
}

/* expected result: distinct consecutive vertices at which the outline turns */
static int turn[CAP];

static void expected(void)
{
    int i, k;

    for (i = 0; i < pn; ++i) {
        int prev = -1, next = -1;

        for (k = 1; k < pn && prev < 0; ++k)
            if (!same((i + pn - k) % pn, i))
                prev = (i + pn - k) % pn;
        if (prev < 0) {         /* all points coincide */
            vh_assume(0);
            return;
        }
        for (k = 1; k < pn && next < 0; ++k)
            if (!same((i + k) % pn, i))
                next = (i + k) % pn;
        if (cross(prev, i, next) == 0.0) {
            vh_assume(dot(prev, i, next) > 0.0);        /* no zero-width spikes */
            turn[i] = 0;
        } else
            turn[i] = 1;
    }
}

static poly* mk(void)
{
    poly* pl = poly_create();
    int i;

    for (i = 0; i < pn; ++i)
        poly_addpoint(pl, px[i], py[i]);
    return pl;
}

static void compacted(poly* pl, double area)
{
    int i, k, m;

    /* kept vertices in the original order; every turn kept once */
    for (i = 0, k = 0; i < pn; ++i) {
        int first = turn[i];

        /* a run of coincident points counts once */
        if (turn[i] && i > 0 && same(i, i - 1))
            first = 0;
        if (turn[i] && i == pn - 1 && pn > 1 && same(i, 0))
            first = 0;          /* closing point */
        k += first;
    }
    vh_check(pl->n == k, "exactly the vertices at which the outline turns are kept");
    for (i = 0, m = 0; m < pl->n; ++m) {
        while (i < pn && !(turn[i] && px[i] == pl->x[m] && py[i] == pl->y[m]))
            i++;
        vh_check(i < pn, "kept vertices are original vertices at turns, in the original order");
        i++;
        while (i < pn && same(i, i - 1))
            i++;
    }
    for (m = 0; m < pl->n; ++m) {
        int a = m, b = (m + 1) % pl->n, c = (m + 2) % pl->n;

        vh_check((pl->x[b] - pl->x[a]) * (pl->y[c] - pl->y[b]) - (pl->y[b] - pl->y[a]) * (pl->x[c] - pl->x[b]) != 0.0, "no three consecutive collinear vertices");
    }
    if (area == area)
        vh_check(vh_near(poly_area(pl), area, 1.0e-9), "same area");
    exactextent(pl);
}

static void use(poly* pl)
{
    int n = pl->n;

    poly_addpoint(pl, 20.0, 30.0);
    vh_check(pl->n == n + 1 && pl->x[n] == 20.0 && pl->y[n] == 30.0, "points can be added after compacting");
    sizeok(pl);
}

/* vertices anywhere */
void h_compact(void)
{
    poly* pl;
    double area;
    int i;

    static const double fx[3] = { 0, 8, 3 }, fy[3] = { 0, 2, 7 };

    /* every second vertex may be anywhere */
    for (i = 0; i < NV; ++i) {
        px[i] = (i % 2) ? vh_real(0, 10, "x") : fx[i / 2];
        py[i] = (i % 2) ? vh_real(0, 10, "y") : fy[i / 2];
    }
    pn = NV;
    expected();
    pl = mk();
    area = poly_area(pl);
    poly_compact(pl, 0.0);
    compacted(pl, area);
    use(pl);
    poly_destroy(pl);
}

/* outline with vertices on the sides of a convex quadrilateral of any shape,
 * in any position along them, possibly repeated, closed or not */
void h_outline(void)
{
    double qx[4], qy[4], area;
    int extra = vh_int(0, 15, "extra vertices on sides");
    int rep = vh_int(-1, 3, "vertex repeated");
    int first = vh_int(0, 3, "first");
    int close = vh_int(0, 1, "closed");
    poly *pl, *pl0;
    double x, y;
    int i, r0, r1;

    qx[0] = 0.0;
    qy[0] = 0.0;
    qx[1] = 8.0;
    qy[1] = 1.0;
    qx[2] = 9.0;
    qy[2] = 7.0;
#if defined(QUERY)
    qx[3] = 1.0;
    qy[3] = 6.0;
    vh_assume(rep < 1 && (first == 0 || first == 3));
#else
    qx[3] = vh_real(-2, 3, "x3");
    qy[3] = 8.0;
#endif
    pn = 0;
    for (i = 0; i < 4; ++i) {
        int k = (i + first) % 4, k1 = (k + 1) % 4;

        turn[pn] = 1;
        px[pn] = qx[k];
        py[pn++] = qy[k];
        if (k == rep) {
            turn[pn] = 1;
            px[pn] = qx[k];
            py[pn++] = qy[k];
        }
        if (extra & (1 << i)) {
            double s = vh_real(0.1, 0.9, "position on side");

            turn[pn] = 0;
            px[pn] = qx[k] + s * (qx[k1] - qx[k]);
            py[pn++] = qy[k] + s * (qy[k1] - qy[k]);
        }
    }
    if (close) {
        turn[pn] = 1;
        px[pn] = px[0];
        py[pn] = py[0];
        pn++;
    }
    vh_assume(pn > 4);
    pl = mk();
    area = poly_area(pl);
    poly_compact(pl, 1.0e-9);
    vh_check(pl->n == 4, "exactly the vertices at which the outline turns are kept");
    compacted(pl, area);
    pl0 = mk();
#if defined(QUERY)
    x = vh_real(-3, 10, "query x");
    y = vh_real(-3, 10, "query y");
    r1 = poly_containspoint(pl, x, y);
    r0 = poly_containspoint(pl0, x, y);
    vh_check(r0 == r1, "same region before and after compacting");
#endif
    use(pl);
    poly_destroy(pl);
    poly_destroy(pl0);
}

/* all points the same: nothing to keep but still usable */
void h_degenerate(void)
{
    poly* pl;
    int i;

    pn = NV;
    for (i = 0; i < NV; ++i) {
        px[i] = 1.0;
        py[i] = 2.0;
    }
    pl = mk();
    poly_compact(pl, 1.0e-10);
    sizeok(pl);
    vh_check(!poly_containspoint(pl, 5.0, 5.0), "point outside");
    use(pl);
    poly_destroy(pl);
}

/* polygons of up to four points are left alone */
void h_small(void)
{
    int n = vh_int(0, 4, "n");
    poly* pl;
    int i;

    for (i = 0; i < n; ++i) {
        px[i] = vh_real(0, 10, "x");
        py[i] = vh_real(0, 10, "y");
    }
    pn = n;
    pl = mk();
    poly_compact(pl, 0.0);
    vh_check(pl->n <= n, "no new points");
    use(pl);
    poly_destroy(pl);
}

/* ---------------------------------------------------------------- C11 */
void h_thin(void)
{
    int what = vh_int(0, 1, "despike");
    int n = vh_int(0, NV, "n");
    double d = vh_real(0, 20, "distance");
    double kx[CAP], ky[CAP];
    int kn = 0;
    poly* pl;
    int i;

    for (i = 0; i < n; ++i) {
        px[i] = vh_real(0, 10, "x");
        py[i] = vh_real(0, 10, "y");
    }
    pn = n;
    pl = mk();
    if (what)
        poly_despike(pl, d);
    else
        poly_resample(pl, d);
    for (i = 0; i < n; ++i) {
        int keep = 1;

        if (kn > 0) {
            double dx = px[i] - kx[kn - 1], dy = py[i] - ky[kn - 1];

            if (what)
                keep = dx * dx + dy * dy < d * d;
            else
                keep = dx > d || dx < -d || dy > d || dy < -d;
        }
        if (keep) {
            kx[kn] = px[i];
            ky[kn++] = py[i];
        }
    }
    vh_check(pl->n == kn, "exactly the points required are kept");
    for (i = 0; i < kn; ++i)
        vh_check(pl->x[i] == kx[i] && pl->y[i] == ky[i], "kept points are the required ones, in order");
    exactextent(pl);
    use(pl);
    poly_destroy(pl);
}

/* points exactly at the distance */
void h_tie(void)
{
    static const double ox[5] = { 3, -5, 0, 8, 1 }, oy[5] = { 4, 12, -1, -15, 0 }, mul[5] = { 1, 2, -1, -3, 0.5 };
    int what = vh_int(0, 1, "despike");
    int o = vh_int(0, 4, "direction"), a = vh_int(0, 4, "first offset"), b = vh_int(0, 4, "second offset");
    double d = vh_real(0, 40, "distance");
    double kx[3], ky[3];
    int kn = 1, i;
    poly* pl;

    px[0] = 1;
    py[0] = -2;
    px[1] = px[0] + ox[o] * mul[a];
    py[1] = py[0] + oy[o] * mul[a];
    px[2] = px[1] + ox[o] * mul[b];
    py[2] = py[1] + oy[o] * mul[b];
    pn = 3;
    pl = mk();
    if (what)
        poly_despike(pl, d);
    else
        poly_resample(pl, d);
    kx[0] = px[0];
    ky[0] = py[0];
    for (i = 1; i < 3; ++i) {
        double dx = px[i] - kx[kn - 1], dy = py[i] - ky[kn - 1];

        if (what ? dx * dx + dy * dy < d * d : dx > d || dx < -d || dy > d || dy < -d) {
            kx[kn] = px[i];
            ky[kn++] = py[i];
        }
    }
    vh_check(pl->n == kn, "exactly the points required are kept");
    for (i = 0; i < kn; ++i)
        vh_check(pl->x[i] == kx[i] && pl->y[i] == ky[i], "kept points are the required ones, in order");
    exactextent(pl);
    poly_destroy(pl);
}

/* write, then read back and append */
void h_io(void)
{
    int n = vh_int(0, 3, "n");
    int n0 = vh_int(0, 1, "points already there");
    int m, i, r;
    double x, y;
    char buf[256];
    poly *pl, *pl2;
    FILE* f;

    for (i = 0; i < n; ++i) {
        px[i] = vh_real(-10, 10, "x");
        py[i] = vh_real(-10, 10, "y");
    }
    pn = n;
    pl = mk();
    f = fopen("p.txt", "w");
    poly_write(pl, f);
    fclose(f);

    f = fopen("p.txt", "r");
    vh_check(fgets(buf, 256, f) != NULL && sscanf(buf, "## %d", &m) == 1 && m == n, "header holds the number of points");
    for (i = 0; i < n; ++i)
        vh_check(fgets(buf, 256, f) != NULL && sscanf(buf, "%lf %lf", &x, &y) == 2 && vh_near(x, px[i], 1.0e-10) && vh_near(y, py[i], 1.0e-10), "one line per point");
    vh_check(fgets(buf, 256, f) == NULL, "nothing else is written");
    fclose(f);

    pl2 = poly_create();
    if (n0)
        poly_addpoint(pl2, 3.0, 4.0);
    f = fopen("p.txt", "r");
    r = poly_read(pl2, f);
    fclose(f);
    vh_check(pl2->n == n0 + n, "reading appends the points written");
    if (n > 0)
        vh_check(r == n0 + n, "reading returns the number of points");
    for (i = 0; i < n; ++i)
        vh_check(vh_near(pl2->x[n0 + i], px[i], 1.0e-10) && vh_near(pl2->y[n0 + i], py[i], 1.0e-10), "points read are those written");
    exactextent(pl2);
    poly_destroy(pl);
    poly_destroy(pl2);
}

/* reading arbitrary sequences of lines */
#if !defined(NL)
#define NL 4
#endif
void h_lines(void)
{
    int kind[NL];
    double ex[NL], ey[NL];
    int last = vh_int(0, 1, "last line without newline");
    int en = 0, state = 0, i, r;
    FILE* f = fopen("l.txt", "w");
    poly* pl;

    for (i = 0; i < NL; ++i) {
        const char* nl = (i == NL - 1 && last) ? "" : "\n";
        double x = vh_real(-10, 10, "x"), y = vh_real(-10, 10, "y");

        kind[i] = vh_int(0, 6, "kind of line");
        if (kind[i] == 0)
            fprintf(f, "%.15g %.15g%s", x, y, nl);
        else if (kind[i] == 1)
            fprintf(f, "  %.15g\t%.15g  # and more 1 2%s", x, y, nl);
        else if (kind[i] == 2)
            fprintf(f, "# %.15g %.15g%s", x, y, nl);
        else if (kind[i] == 3)
            fprintf(f, " \t%s", nl);
        else if (kind[i] == 4)
            fprintf(f, "%.15g%s", x, nl);
        else if (kind[i] == 5)
            fprintf(f, "abc %.15g %.15g%s", x, y, nl);
        else
            fprintf(f, "%s", nl);
        if (state == 0 && kind[i] != 2 && kind[i] != 3 && kind[i] != 6)
            state = 1;
        if (state == 1) {
            if (kind[i] <= 1) {
                ex[en] = x;
                ey[en++] = y;
            } else
                state = 2;
        }
    }
    fclose(f);
    pl = poly_create();
    f = fopen("l.txt", "r");
    r = poly_read(pl, f);
    fclose(f);
    vh_check(pl->n == en && r == en, "reads the points up to the first other line");
    for (i = 0; i < en; ++i)
        vh_check(vh_near(pl->x[i], ex[i], 1.0e-10) && vh_near(pl->y[i], ey[i], 1.0e-10), "points read are those in the text");
    exactextent(pl);
    poly_destroy(pl);
}

/* 15 significant digits (concrete) */
void h_digits(void)
{
    double v[6] = { 123456.789012345, -0.000123456789012345, 98765432109876.5, 1.0e+300, 0.1, 1.23456789012345e-200 };
    int a = vh_int(0, 5, "x"), b = vh_int(0, 5, "y");
    char buf[256], ref[256];
    poly* pl = poly_create();
    FILE* f;

    poly_addpoint(pl, v[a], v[b]);
    f = fopen("d.txt", "w");
    poly_write(pl, f);
    fclose(f);
    f = fopen("d.txt", "r");
    vh_check(fgets(buf, 256, f) != NULL && strcmp(buf, "## 1\n") == 0, "header");
    sprintf(ref, "%.15g %.15g\n", v[a], v[b]);
    vh_check(fgets(buf, 256, f) != NULL && strcmp(buf, ref) == 0, "15 significant digits");
    fclose(f);
    poly_destroy(pl);
}
