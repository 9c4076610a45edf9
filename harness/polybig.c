/* C08-C11: polygons and polylines of many points */
#include "vh.h"
#include "poly.h"

#define CAP 900

static double bx[CAP], by[CAP], px[CAP], py[CAP];
static int bn, pn;

static unsigned int rnd(unsigned int a, unsigned int b)
{
    unsigned int h = a * 2654435761u ^ b * 2246822519u ^ 0x9e3779b9u;

    h ^= h >> 15;
    h *= 2246822519u;
    h ^= h >> 13;
    h *= 3266489917u;
    return h ^ h >> 16;
}

static void v(double x, double y)
{
    bx[bn] = x;
    by[bn++] = y;
}

/* simple polygons; no three consecutive vertices on a line */
static void shape(int p)
{
    int i, h = 0;

    bn = 0;
    switch (p) {
    case 0:                    /* comb */
        for (i = 0; i < 12; ++i) {
            v(16 * i, 0);
            v(16 * i, 80 + (i * 5 % 7) * 8);
            v(16 * i + 8, 80 + (i * 5 % 7) * 8);
            v(16 * i + 8, 0);
        }
        v(200, 0);
        v(200, -16);
        v(-16, -16);
        v(-16, 0);
        /* (the teeth stand on the line y = 0: drop the points where the outline does not turn) */
        break;
    case 1:                    /* staircase */
        for (i = 0; i < 20; ++i) {
            v(8 * i, 8 * i);
            v(8 * i + 8, 8 * i);
        }
        v(160, 240);
        v(-32, 240);
        v(-32, -32);
        break;
    case 2:                    /* saw, clockwise */
        for (i = 0; i < 30; ++i)
            v(8 * i, i % 2 ? 64 << (i % 4 == 1) : 0);
        v(232, -48);
        v(0, -48);
        break;
    case 3:                    /* a band along a valley */
        for (i = -12; i <= 12; ++i)
            v(8 * i, h += i < 0 ? -(1 << -i / 2) : 1 << i / 2);
        for (i = 12; i >= -12; --i) {
            v(8 * i, h + 64);
            h -= i < 0 ? -(1 << -i / 2) : 1 << i / 2;
        }
        break;
    default:                   /* an irregular convex-ish ring of given directions */
        {
            static const int d[16][2] = { {8, 0}, {8, 2}, {8, 4}, {4, 8}, {2, 8}, {0, 8}, {-2, 8}, {-4, 8}, {-8, 4}, {-8, 0}, {-8, -4}, {-4, -8}, {-2, -8}, {0, -8}, {2, -8}, {4, -8} };
            double x = 0, y = 0;

            for (i = 0; i < 16; ++i) {
                v(x, y);
                x += 16 * d[i][0];
                y += 16 * d[i][1];
            }
            v(x, y);
        }
    }
}

static int turns(int i)
{
    int a = (i + bn - 1) % bn, c = (i + 1) % bn;

    return (bx[i] - bx[a]) * (by[c] - by[i]) - (by[i] - by[a]) * (bx[c] - bx[i]) != 0.0;
}

static void exactextent(poly* pl)
{
    double a = pl->x[0], b = a, c = pl->y[0], d = c;
    int i;

    for (i = 0; i < pl->n; ++i) {
        if (pl->x[i] < a)
            a = pl->x[i];
        if (pl->x[i] > b)
            b = pl->x[i];
        if (pl->y[i] < c)
            c = pl->y[i];
        if (pl->y[i] > d)
            d = pl->y[i];
    }
    vh_check(pl->e.xmin == a && pl->e.xmax == b && pl->e.ymin == c && pl->e.ymax == d, "extent is the bounding box of the points");
    vh_check(pl->nallocated >= pl->n, "allocated size covers the points");
}

static void equal(poly* pl, const char* what)
{
    int i;

    vh_check(pl->n == pn, "number of points");
    for (i = 0; i < pn; ++i)
        vh_check(pl->x[i] == px[i] && pl->y[i] == py[i], what);
    if (pn > 0)
        exactextent(pl);
}

static poly* mk(void)
{
    poly* pl = poly_create();
    int i;

    for (i = 0; i < pn; ++i)
        poly_addpoint(pl, px[i], py[i]);
    return pl;
}

/* C08: vertices repeated and inserted on the sides */
void h_compact(void)
{
    int s = vh_int(0, 4, "shape"), seed = vh_int(0, 3, "redundant vertices"), close = vh_int(0, 1, "closed"), first, i, j, k, n = 0;
    static const double eps[3] = { 0, 1.0e-10, 1.0e-15 };
    static int keep[CAP];
    double off = vh_int(0, 1, "offset") ? 4096 : -100, t;
    poly* pl;

    shape(s);
    for (i = 0; i < bn; ++i)
        keep[i] = turns(i);
    for (i = 0, j = 0; i < bn; ++i)
        if (keep[i]) {
            bx[j] = bx[i] + off;
            by[j++] = by[i] - 2 * off;
        }
    bn = j;
    first = seed == 0 ? 0 : (seed * 7 + 2) % bn;
    pn = 0;
    for (i = 0; i < bn; ++i) {
        int a = (i + first) % bn, b = (a + 1) % bn;
        int extra = seed == 0 ? (a % 9 == 4 ? 2 : 0) : rnd(seed, a) % 5 % 4, dup = seed == 0 ? 0 : rnd(seed, a + 1000) % 6 == 0 ? 1 + a % 2 : 0;

        keep[pn] = 1;
        for (k = 0; k <= dup; ++k) {
            px[pn] = bx[a];
            py[pn++] = by[a];
            keep[pn] = 0;
        }
        for (k = 1; k <= extra; ++k)
            for (j = 0; j <= (rnd(seed, a + k) % 7 == 0); ++j) {
                px[pn] = bx[a] + (bx[b] - bx[a]) * k / 8;
                py[pn++] = by[a] + (by[b] - by[a]) * k / 8;
                keep[pn] = 0;
            }
    }
    /* one more, anywhere on a side */
    k = pn / 2;
    while (k < pn && px[k] == px[(k + 1) % pn] && py[k] == py[(k + 1) % pn])
        k++;
    vh_assume(k < pn - 1);
    t = vh_real(0.1, 0.9, "place on a side");
    for (i = pn; i > k + 1; --i) {
        px[i] = px[i - 1];
        py[i] = py[i - 1];
        keep[i] = keep[i - 1];
    }
    px[k + 1] = px[k] + t * (px[k + 2] - px[k]);
    py[k + 1] = py[k] + t * (py[k + 2] - py[k]);
    keep[k + 1] = 0;
    pn++;
    if (close) {
        px[pn] = px[0];
        py[pn] = py[0];
        keep[pn++] = 0;
    }
    pl = mk();
    poly_compact(pl, eps[(s + seed) % 3] + 1.0e-9);
    for (i = 0; i < pn; ++i)
        if (keep[i]) {
            px[n] = px[i];
            py[n++] = py[i];
        }
    vh_check(n == bn, "oracle");
    pn = n;
    equal(pl, "exactly the vertices at which the outline turns are kept, in order");
    poly_addpoint(pl, 1, 2);
    vh_check(pl->n == pn + 1 && pl->x[pn] == 1 && pl->y[pn] == 2, "points can be added after compacting");
    poly_destroy(pl);
}

static int inside(int n, const double* x, const double* y, double qx, double qy)
{
    int i, in = 0;

    for (i = 0; i < n; ++i) {
        int j = (i + 1) % n;
        double cross = (x[j] - x[i]) * (qy - y[i]) - (y[j] - y[i]) * (qx - x[i]);

        if (cross == 0.0) {
            int b1 = x[i] <= x[j] ? (x[i] <= qx && qx <= x[j]) : (x[j] <= qx && qx <= x[i]);
            int b2 = y[i] <= y[j] ? (y[i] <= qy && qy <= y[j]) : (y[j] <= qy && qy <= y[i]);

            if (b1 && b2)
                return 1;
        }
        if ((y[i] <= qy) != (y[j] <= qy))
            if ((cross > 0.0) == (y[j] > y[i]))
                in = !in;
    }
    return in;
}

/* C09: any point on lines through vertices and between */
void h_contains(void)
{
    int s = vh_int(0, 4, "shape"), rep = vh_int(0, 2, "representation"), l = vh_int(0, 4, "line"), i, a, b;
    double qx, qy;
    poly* pl;

    shape(s);
    pn = 0;
    for (i = 0; i < bn; ++i) {
        int k = rep == 1 ? bn - 1 - i : (i + rep * 5) % bn;

        px[pn] = bx[k];
        py[pn++] = by[k];
    }
    if (rep == 2) {
        px[pn] = px[0];
        py[pn++] = py[0];
    }
    pl = mk();
    vh_checkpoint();
    a = bn / 4;
    b = bn / 2 + 3;
    if (l == 0) {               /* along y of a vertex */
        qx = vh_real(-300, 300, "x");
        qy = by[a];
    } else if (l == 1) {        /* along x of a vertex */
        qx = bx[b];
        qy = vh_real(-300, 300, "y");
    } else if (l == 2) {        /* level with the ends of a side, or between them */
        qx = vh_real(-300, 300, "x");
        qy = (by[a] + by[a + 1]) / 2;
    } else if (l == 3) {
        qx = (bx[b] + bx[b + 1]) / 2;
        qy = vh_real(-300, 300, "y");
    } else if (s > 1) {
        qx = vh_real(-300, 300, "x");
        qy = by[b];
    } else {                    /* a slanted one */
        qx = vh_real(-300, 300, "x");
        qy = 76 - qx;
    }
    vh_check(poly_containspoint(pl, qx, qy) == inside(bn, bx, by, qx, qy), "containment equals the even-odd definition with the outline included");
    poly_destroy(pl);
}

/* C10: editing long lists */
static void put(int at, double x, double y)
{
    int i;

    for (i = pn; i > at; --i) {
        px[i] = px[i - 1];
        py[i] = py[i - 1];
    }
    px[at] = x;
    py[at] = y;
    pn++;
}

static void drop(int at)
{
    int i;

    pn--;
    for (i = at; i < pn; ++i) {
        px[i] = px[i + 1];
        py[i] = py[i + 1];
    }
}

void h_edit(void)
{
    static const int sizes[9] = { 1, 4, 5, 8, 9, 63, 64, 65, 257 };
    int n = sizes[vh_int(0, 8, "size")], op = vh_int(0, 8, "operation"), w = vh_int(0, 3, "where"), i, j, n2;
    double x = vh_real(-1000, 1000, "x"), y = vh_real(-1000, 1000, "y");
    poly *pl, *p2;

    pn = 0;
    for (i = 0; i < n; ++i)
        put(pn, (int) (rnd(1, i) % 200) - 100, (int) (rnd(2, i) % 200) - 100 + i / 1024.0);
    pl = mk();
    equal(pl, "points added are at the end, in order");
    i = w == 0 ? 0 : w == 1 ? n - 1 : w == 2 ? n / 2 : n - 1 - n / 3;
    switch (op) {
    case 0:
        poly_addpointat(pl, i, x, y);
        put(i, x, y);
        break;
    case 1:
        poly_deletepoint(pl, i);
        drop(i);
        break;
    case 2:
        n2 = sizes[(w * 2 + n) % 9];
        p2 = poly_create();
        for (j = 0; j < n2; ++j)
            poly_addpoint(p2, j, j == i ? y : -j);
        poly_append(pl, p2);
        for (j = 0; j < n2; ++j)
            put(pn, j, j == i ? y : -j);
        vh_check(p2->n == n2, "the polyline appended is unchanged");
        poly_destroy(p2);
        break;
    case 3:
        poly_reverse(pl);
        for (i = 0, j = n - 1; i < j; ++i, --j) {
            double t = px[i];

            px[i] = px[j];
            px[j] = t;
            t = py[i];
            py[i] = py[j];
            py[j] = t;
        }
        break;
    case 4:
        poly_close(pl);
        if (n == 1 || px[0] != px[n - 1] || py[0] != py[n - 1])
            put(pn, px[0], py[0]);
        break;
    case 5:
        p2 = poly_copy(pl);
        poly_addpoint(pl, 5000, 5000);
        equal(p2, "a copy holds the same points");
        poly_destroy(pl);
        pl = p2;
        break;
    case 6:
        vh_check(poly_findindex(pl, px[i], py[i]) == i, "a point is found at its index");
        vh_check(poly_findindex(pl, px[i], 2000) == -1, "a point that is not there is not found");
        break;
    case 7:
        /* many at one place */
        for (j = 0; j < 70; ++j) {
            poly_addpointat(pl, i, j, x);
            put(i, j, x);
        }
        break;
    default:
        for (j = 0; j < n && j < 60; ++j) {
            poly_deletepoint(pl, pn / (w + 1) % pn);
            drop(pn / (w + 1) % pn);
        }
    }
    equal(pl, "the points are those of the list");
    poly_addpoint(pl, x, y);
    put(pn, x, y);
    equal(pl, "the points are those of the list");
    poly_destroy(pl);
}

/* C11: thinning of long lists by any distance */
void h_thin(void)
{
    int what = vh_int(0, 1, "despike"), n = vh_int(0, 1, "size") ? 150 : 40, i, kn = 1;
    double d = vh_real(0, 30, "distance"), kx, ky;
    poly* pl;

    pn = 0;
    for (i = 0; i < n; ++i)
        /* steps of whole lengths */
        put(pn, i == 0 ? 0 : px[i - 1] + 3 * ((int) (rnd(3, i) % 7) - 3), i == 0 ? 0 : py[i - 1] + 4 * ((int) (rnd(3, i) % 7) - 3));
    pl = mk();
    if (what)
        poly_despike(pl, d);
    else
        poly_resample(pl, d);
    kx = px[0];
    ky = py[0];
    for (i = 1; i < n; ++i) {
        double dx = px[i] - kx, dy = py[i] - ky;

        if (what ? dx * dx + dy * dy < d * d : dx > d || dx < -d || dy > d || dy < -d) {
            kx = px[kn] = px[i];
            ky = py[kn++] = py[i];
        }
    }
    pn = kn;
    equal(pl, "exactly the required points are kept");
    poly_destroy(pl);
}

/* C11: long texts */
void h_io(void)
{
    static const int sizes[6] = { 4, 5, 64, 200, 600, 850 }, len[4] = { 10, 1022, 1500, 2045 };
    int w = vh_int(0, 5, "points"), n = sizes[w], nc = vh_int(0, 1, "comments") * 37, l = len[w < 2 || nc ? vh_int(0, 3, "length of a line") : 3], rest = vh_int(0, 1, "followed by other text"), i, k, m;
    double x = vh_real(-1000, w < 2 ? 1000 : -1, "x");
    char buf[256];
    poly *pl, *p2;
    FILE* f;

    pn = 0;
    for (i = 0; i < n; ++i)
        put(pn, i == n / 2 ? x : i * 0.125, -i);
    pl = mk();
    f = fopen("p.txt", "w");
    for (i = 0; i < nc; ++i) {
        if (i % 5 == 3)
            fputs(i % 2 ? "\n" : "  \t\n", f);
        else if (i == 10) {
            fputc('#', f);
            for (k = 1; k < l; ++k)
                fputc("12 "[k % 3], f);
            fputc('\n', f);
        } else if (i == 11) {
            for (k = 0; k < l; ++k)
                fputc(' ', f);
            fputc('\n', f);
        } else
            fprintf(f, "# %d %d\n", i, i);
    }
    poly_write(pl, f);
    if (rest)
        fputs("# 7 7\n8 8\n", f);
    fclose(f);
    f = fopen("p.txt", "r");
    p2 = poly_create();
    m = poly_read(p2, f);
    if (rest)
        vh_check(fgets(buf, 256, f) != NULL && strcmp(buf, "8 8\n") == 0, "reading stops at the first other line");
    fclose(f);
    vh_check(m == n, "reading returns the number of points");
    vh_check(p2->n == n, "the points written are read");
    for (i = 0; i < n; ++i)
        vh_check(vh_near(p2->x[i], px[i], 1.0e-10) && p2->y[i] == py[i], "the points written are read");
    if (n < 200)
        exactextent(p2);
    /* and to a line in between: a long point line */
    poly_destroy(p2);
    f = fopen("q.txt", "w");
    fputs("1 2\n3 4 ", f);
    for (k = 0; k < l - 4; ++k)
        fputc("56 "[k % 3], f);
    fputs("\n5 6\n", f);
    fclose(f);
    f = fopen("q.txt", "r");
    p2 = poly_create();
    vh_check(poly_read(p2, f) == 3 && p2->x[1] == 3 && p2->y[1] == 4 && p2->x[2] == 5 && p2->y[2] == 6, "text after a point is ignored");
    fclose(f);
    poly_destroy(p2);
    poly_destroy(pl);
}
