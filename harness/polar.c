/* C35: getnodes -p */
#include "toolh.h"

int getnodes_main(int argc, char* argv[]);

#if !defined(NX)
#define NX 2
#endif
#if !defined(NY)
#define NY 2
#endif

static double x[MAXN], y[MAXN];
static double ax[MAXN], ay[MAXN], bx[MAXN], by[MAXN];
static int nx, ny;

static int readback(const char* fname, double* px, double* py)
{
    FILE* f = fopen(fname, "r");
    char buf[256], a[128], b[128], c[8];
    int k;

    vh_check(fgets(buf, 256, f) != NULL && sscanf(buf, "## %d x %d%1s", &nx, &ny, c) == 2, "output has a header");
    if (nx < 1 || ny < 1 || nx * ny > MAXN) {
        fclose(f);
        return 0;
    }
    for (k = 0; k < nx * ny; ++k) {
        if (fgets(buf, 256, f) == NULL || sscanf(buf, "%100s %100s %1s", a, b, c) != 2) {
            fclose(f);
            return 0;
        }
        px[k] = atof(a);
        py[k] = atof(b);
    }
    k = fgetc(f) == EOF;
    fclose(f);
    return k;
}

static int exact;               /* ax, ay are what the utility works on, and not just equal to 15 digits */

/* d > lim for the utility */
static int over(double d, double lim)
{
    if (!exact)
        vh_assume(fabs(fabs(d) - lim) > 1.0e-9);
    return fabs(d) > lim;
}

static void compare(void)
{
    static double rx[MAXN], ry[MAXN];
    int i, j, k, free = 0, jumps = 0;

    memcpy(rx, ax, sizeof(rx));
    memcpy(ry, ay, sizeof(ry));
    /* longitudes are continued along the columns */
    for (j = 1; j < ny; ++j)
        for (i = 0; i < nx; ++i) {
            k = j * nx + i;
            if (isnan(rx[k]) || isnan(rx[k - nx]))
                continue;
            if (over(rx[k] - rx[k - nx], 180.0)) {
                jumps = 1;
                if (rx[k] > rx[k - nx])
                    free = 1;   /* the other way: not specified */
                rx[k] += 360.0;
            }
        }
    if (!free) {
        /* nodes at jumps in rows are removed */
        for (j = 0; j < ny; ++j)
            for (i = 0; i < nx - 1; ++i) {
                k = j * nx + i;
                if (!isnan(rx[k]) && !isnan(rx[k + 1]) && over(rx[k + 1] - rx[k], 180.0)) {
                    rx[k] = ry[k] = NAN;
                    jumps = 1;
                }
            }
        for (j = 0; j < ny; ++j)
            for (i = 0; i < nx - 1; ++i) {
                k = j * nx + i;
                if (!isnan(ry[k]) && !isnan(ry[k + 1]) && over(ry[k + 1] - ry[k], 90.0)) {
                    rx[k] = ry[k] = NAN;
                    jumps = 1;
                }
            }
    }
    for (j = 0, k = 0; j < ny; ++j)
        for (i = 0; i < nx; ++i, ++k) {
            vh_check(isnan(bx[k]) == isnan(by[k]), "a node is valid or not in both coordinates");
            if (isnan(ax[k]))
                vh_check(isnan(bx[k]), "an invalid node stays invalid");
            if (!isnan(bx[k])) {
                vh_check(vh_near(by[k], ay[k], 1.0e-11), "latitude of a valid node never changes");
                if (!vh_near(bx[k], ax[k], 1.0e-11))
                    vh_check(vh_near(bx[k], ax[k] + 360.0, 1.0e-11), "longitude changes by 360 if at all");
                if (i > 0 && !isnan(bx[k - 1])) {
                    vh_check(fabs(bx[k] - bx[k - 1]) < 180.0 + 1.0e-9, "no jump of longitude is left in a row");
                    vh_check(fabs(by[k] - by[k - 1]) < 90.0 + 1.0e-9, "no jump of latitude is left in a row");
                }
            }
            if (free)
                continue;
            vh_check(isnan(bx[k]) == isnan(rx[k]), "the nodes removed are those at jumps in rows");
            if (!isnan(bx[k]))
                vh_check(vh_near(bx[k], rx[k], 1.0e-11), "longitude is continued across the date line along columns");
        }
    vh_note("jumps", jumps);
}

static void both(int in, int out, int mask, int where, int verb)
{
    char* argv[16];
    int argc = 0, pass, rc, q = 0;

    for (pass = 0; pass < 2; ++pass) {
        argc = 0;
        argv[argc++] = "getnodes";
        if (pass && where == 0)
            argv[argc++] = "-p";
        argv[argc++] = "g.txt";
        if (pass && where == 1)
            argv[argc++] = "-p";
        argv[argc++] = "-i";
        argv[argc++] = tnames[in];
        if (pass && where == 2)
            argv[argc++] = "-p";
        if (pass && verb)
            argv[argc++] = "-v";
        argv[argc++] = "-o";
        argv[argc++] = tnames[out];
        if (mask) {
            argv[argc++] = "-m";
            argv[argc++] = "m.txt";
        }
        if (pass && where == 3)
            argv[argc++] = "-p";
        argv[argc] = NULL;
        rc = vh_main(getnodes_main, argc, argv, "g.txt", pass ? "out2.txt" : "out1.txt", "err.txt");
        vh_check(rc == 0, "exit status is 0");
        if (rc == 0)
            q += readback(pass ? "out2.txt" : "out1.txt", pass ? bx : ax, pass ? by : ay);
        vh_note("pass", pass);
    }
    vh_check(q == 2, "output is a grid");
    if (q != 2)
        return;
    if (exact) {
        vh_check(nx == NX && ny == NY, "size is kept");
        for (rc = 0; rc < nx * ny; ++rc)
            vh_check(isnan(x[rc]) ? isnan(ax[rc]) && isnan(ay[rc]) : vh_near(ax[rc], x[rc], 1.0e-11) && vh_near(ay[rc], y[rc], 1.0e-11), "without -p the grid passes through");
        memcpy(ax, x, sizeof(ax));
        memcpy(ay, y, sizeof(ay));
    }
    compare();
}

/* the nodes anywhere, one may be invalid */
void h_any(void)
{
    int bad = vh_int(-1, NX * NY - 1, "an invalid node"), i, j, k;

    for (j = 0, k = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i, ++k) {
            x[k] = vh_real(-180, 360, "longitude");
            y[k] = vh_real(-90, 90, "latitude");
            if (k == bad)
                x[k] = y[k] = NAN;
        }
    writegrid("g.txt", NX, NY, x, y);
    exact = 1;
    both(NT_CEN, NT_CEN, 0, (bad + 1) % 4, bad & 1);
}

/* one column or row of a bigger one anywhere */
void h_line(void)
{
    int col = vh_int(0, 1, "column"), at, i, j, k, n = 0;

    at = col ? vh_int(0, NX - 1, "which") : vh_int(0, NY - 1, "which");
    for (j = 0, k = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i, ++k) {
            x[k] = 20 * i - 60;
            y[k] = 10 * j - 30 + 3 * i;
            if (col ? i == at : j == at) {
                x[k] = vh_real(-180, 180, "longitude");
                if (++n == 2)
                    y[k] = vh_real(-90, 90, "latitude");
            }
        }
    writegrid("g.txt", NX, NY, x, y);
    exact = 1;
    both(NT_CEN, NT_CEN, 0, at % 4, 0);
}

/* after conversion and masking */
void h_conv(void)
{
    int in = vh_int(1, 3, "input type"), out = vh_int(1, 3, "output type"), mask, k, i, j, n;
    FILE* f;

    mask = out == NT_COR ? 0 : vh_int(0, 1, "mask");
    vh_assume(in == NT_DD || in == out);
    nx = in == NT_DD ? 2 * NX + 1 : in == NT_CEN ? NX : NX + 1;
    ny = in == NT_DD ? 2 * NY + 1 : in == NT_CEN ? NY : NY + 1;
    for (j = 0, k = 0; j < ny; ++j)
        for (i = 0; i < nx; ++i, ++k) {
            int w = in == NT_DD ? 1 : 2;

            x[k] = 15 * w * i - 170 + j;
            y[k] = 10 * w * j - 5 * w * i;
        }
    /* two nodes of the double density grid / corners anywhere */
    for (n = 0; n < 2; ++n) {
        k = n == 0 ? nx - 1 : nx * ny - 1;
        x[k] = vh_real(-180, 180, "longitude");
    }
    writegrid("g.txt", nx, ny, x, y);
    f = fopen("m.txt", "w");
    for (k = 0; k < NX * NY; ++k)
        fprintf(f, "%d\n", k != NX * NY - 2);
    fclose(f);
    both(in, out, mask, (in + out) % 4, 0);
}
