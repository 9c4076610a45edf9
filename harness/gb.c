/* C28: gridbathy with stand-ins for the interpolation libraries */
#include "toolh.h"

int gridbathy_main(int argc, char** argv);

#if !defined(NI)
#define NI 2
#endif
#if !defined(NJ)
#define NJ 2
#endif
#define NX (NI + 1)
#define NY (NJ + 1)
#if !defined(ND)
#define ND 3
#endif
#if !defined(PPEMAX)
#define PPEMAX 2
#endif
#define NS (NI * NJ * PPEMAX * PPEMAX)

static double x[NY][NX], y[NY][NX];
static double sv[NJ][NI][PPEMAX * PPEMAX];      /* value of each sample */
static int valid[NJ][NI];
static double dx[ND], dy[ND], dz[ND];

static void makegrid(int bad)
{
    static const double gx[7] = { 0, 1, 4, 5, 7, 8, 11 }, gy[7] = { 0, 2, 3, 7, 9, 10, 14 };
    int i, j;
#if defined(SHAPE)
    double t = vh_real(-0.125, 0.125, "shape");
#endif

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
#if defined(SHAPE)
            x[j][i] = gx[i] + t * ((i * 3 + j * 5) % 4);
            y[j][i] = gy[j] - t * ((i * 2 + j * 3) % 5);
#elif defined(RECT)
            x[j][i] = gx[i];
            y[j][i] = gy[j];
#else
            x[j][i] = gx[i] + 0.125 * j * (i == 1);
            y[j][i] = gy[j] - 0.25 * i * (j + 1);
#endif
            if (bad == j * NX + i)
                x[j][i] = y[j][i] = NAN;
        }
    for (j = 0; j < NJ; ++j)
        for (i = 0; i < NI; ++i)
            valid[j][i] = !isnan(x[j][i]) && !isnan(x[j][i + 1]) && !isnan(x[j + 1][i]) && !isnan(x[j + 1][i + 1]);
}

static double bil(double a[NY][NX], int i, int j, double u, double v)
{
    return (1 - u) * (1 - v) * a[j][i] + u * (1 - v) * a[j][i + 1] + (1 - u) * v * a[j + 1][i] + u * v * a[j + 1][i + 1];
}

static void writeall(int dd, int n, int ix, int mask)
{
    FILE* f = fopen("g.txt", "w");
    int i, j, k, l;

    if (dd) {
        fprintf(f, "## %d x %d\n", 2 * NX - 1, 2 * NY - 1);
        for (j = 0; j < 2 * NY - 1; ++j)
            for (i = 0; i < 2 * NX - 1; ++i)
                if (i % 2 || j % 2)
                    fprintf(f, "%d %d\n", 50 + i, -60 - j);
                else if (isnan(x[j / 2][i / 2]))
                    fprintf(f, "NaN NaN\n");
                else
                    fprintf(f, "%.17g %.17g\n", x[j / 2][i / 2], y[j / 2][i / 2]);
    } else {
        fprintf(f, "## %d x %d\n", NX, NY);
        for (j = 0; j < NY; ++j)
            for (i = 0; i < NX; ++i)
                if (isnan(x[j][i]))
                    fprintf(f, "NaN NaN\n");
                else
                    fprintf(f, "%.17g %.17g\n", x[j][i], y[j][i]);
    }
    fclose(f);
    f = fopen("d.txt", "w");
    for (k = 0; k < ND; ++k)
        fprintf(f, "%.17g %.17g %.17g\n", dx[k], dy[k], dz[k]);
    fclose(f);
    f = fopen("m.txt", "w");
    for (k = 0; k < NI * NJ; ++k)
        fprintf(f, "%d\n", mask >> k & 1);
    fclose(f);
    f = fopen("ans.txt", "w");
    for (j = 0; j < NJ; ++j)
        for (i = 0; i < NI; ++i)
            for (k = 0; k < n; ++k)
                for (l = 0; l < n; ++l) {
                    double u = (k + 0.5) / n, v = (l + 0.5) / n;

                    if (!valid[j][i])
                        continue;
                    if (ix)
                        fprintf(f, "%.17g %.17g %.17g\n", i + u, j + v, sv[j][i][k * n + l]);
                    else
                        fprintf(f, "%.17g %.17g %.17g\n", bil(x, i, j, u, v), bil(y, i, j, u, v), sv[j][i][k * n + l]);
                }
    fclose(f);
}

/* the recorded line is what is expected */
static int nextrec(FILE* f, const char* s)
{
    char buf[256];
    size_t n = strlen(s);

    return fgets(buf, 256, f) != NULL && strncmp(buf, s, n) == 0 && buf[n] == '\n';
}

/* cell and fractional indices in the rectangular grid; 0 if outside */
static int fij(double px, double py, double* fi, double* fj)
{
    static const double gx[7] = { 0, 1, 4, 5, 7, 8, 11 }, gy[7] = { 0, 2, 3, 7, 9, 10, 14 };
    int i, j;

    if (px < 0 || px > gx[NI] || py < 0 || py > gy[NJ])
        return 0;
    for (i = 0; px > gx[i + 1]; ++i);
    for (j = 0; py > gy[j + 1]; ++j);
    *fi = i + (px - gx[i]) / (gx[i + 1] - gx[i]);
    *fj = j + (py - gy[j]) / (gy[j + 1] - gy[j]);
    return valid[j][i];
}

static void run(int dd, int n, int rule, int ix, int mask, int ci, int cj, int range, int verb)
{
    char* argv[32];
    char bn[16], br[16], bi[16], bj[16], lo[64], hi[64], buf[256];
    int argc = 0, rc, i, j, k, nd = 0;
    double zmin = 0, zmax = 0, v;
    FILE* f;

    if (range) {
        zmin = vh_real(-50, 50, "zmin");
        zmax = vh_real(-50, 50, "zmax");
        vh_assume(zmin < zmax);
    }
    writeall(dd, n, ix, mask);
    argv[argc++] = "gridbathy";
    argv[argc++] = "-b";
    argv[argc++] = "d.txt";
    if (rule > 0 || n == 2) {
        sprintf(br, "%d", rule);
        argv[argc++] = "-a";
        argv[argc++] = br;
    }
    if (n != 3) {
        sprintf(bn, "%d", n);
        argv[argc++] = "-n";
        argv[argc++] = bn;
    }
    if (!dd || n == 2) {
        argv[argc++] = "-i";
        argv[argc++] = dd ? "dd" : "CO";
    }
    if (ix)
        argv[argc++] = "-x";
    if (mask >= 0) {
        argv[argc++] = "-m";
        argv[argc++] = "m.txt";
    }
    if (ci >= 0) {
        sprintf(bi, "%d", ci);
        sprintf(bj, "%d", cj);
        argv[argc++] = "-c";
        argv[argc++] = bi;
        argv[argc++] = bj;
    }
    if (range) {
        sprintf(lo, "%.17g", zmin);
        sprintf(hi, "%.17g", zmax);
        argv[argc++] = "-r";
        argv[argc++] = lo;
        argv[argc++] = hi;
    }
    if (verb)
        argv[argc++] = "-v";
    argv[argc++] = "-g";
    argv[argc++] = "g.txt";
    argv[argc] = NULL;
    rc = vh_main(gridbathy_main, argc, argv, NULL, "out.txt", "err.txt");
    if (ci >= NI || cj >= NJ) {
        vh_check(rc != 0 && isempty("out.txt"), "a cell outside the grid is refused");
        return;
    }
    vh_check(rc == 0, "exit status is 0");

    /* what reached the interpolators */
    f = fopen("rec.txt", "r");
    vh_check(nextrec(f, "read"), "the data is read");
    if (rule < 4) {
        vh_check(nextrec(f, rule == 0 ? "csa" : "delaunay"), "the right library is used");
        for (k = 0; k < ND; ++k) {
            double a, b, c, ex = dx[k], ey = dy[k];

            if (ix && !fij(dx[k], dy[k], &ex, &ey))
                continue;
            vh_check(fgets(buf, 256, f) != NULL && sscanf(buf, "P %lf %lf %lf", &a, &b, &c) == 3, "no data point is lost");
            if (ix)
                vh_check(vh_near(a, ex, 1.0e-9) && vh_near(b, ey, 1.0e-9), "data point in index space");
            else
                vh_check(a == ex && b == ey, "data point as it is");
            vh_check(c == dz[k], "data value as it is");
            nd++;
        }
        if (rule == 1 || rule == 2)
            vh_check(nextrec(f, "nnpi"), "Natural Neighbours interpolation");
        else if (rule == 3)
            vh_check(nextrec(f, "lpi"), "linear interpolation");
        if (fgets(buf, 256, f) != NULL) {
            vh_check(strcmp(buf, rule == 1 ? "non-sibson\n" : rule == 2 ? "sibson\n" : "nothing else") == 0, "the rule of the interpolation; every location asked for is a sample");
            vh_check(fgetc(f) == EOF, "every location asked for is a sample");
        }
    } else
        vh_check(fgetc(f) == EOF, "averaging does not interpolate");
    fclose(f);

    /* the result */
    f = fopen("out.txt", "r");
    for (j = 0; j < NJ; ++j)
        for (i = 0; i < NI; ++i) {
            double sum = 0;
            int count = 0;

            if (ci >= 0 && (i != ci || j != cj))
                continue;
            vh_check(fgets(buf, 256, f) != NULL && strchr(buf, '\n') != NULL, "one line per cell");
            if (valid[j][i] && !(mask >= 0 && !(mask >> (j * NI + i) & 1)))
                for (k = 0; k < n * n; ++k) {
                    double z = sv[j][i][k];

                    if (rule == 4) {
                        /* the mean of the data in the cell */
                        double s = 0, fi, fj;
                        int m, c = 0;

                        for (m = 0; m < ND; ++m)
                            if (fij(dx[m], dy[m], &fi, &fj) && (int) fi == i && (int) fj == j) {
                                s += dz[m];
                                c++;
                            }
                        z = c == 0 ? NAN : s / c;
                        k = n * n;
                    }
                    if (isnan(z))
                        continue;
                    if (range)
                        z = z < zmin ? zmin : z > zmax ? zmax : z;
                    sum += z;
                    count++;
                }
            if (count == 0)
                vh_check(strcmp(buf, "NaN\n") == 0, "NaN where there is no value");
            else
                vh_check(sscanf(buf, "%lf", &v) == 1 && vh_near(v * count, sum, 0.006 * count), "mean of the samples within the range");
        }
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
}

static void fill(int n, int symbolic)
{
    int i, j, k;

    for (j = 0; j < NJ; ++j)
        for (i = 0; i < NI; ++i)
            for (k = 0; k < n * n; ++k)
                sv[j][i][k] = symbolic && valid[j][i] && (i * 2 + j + k) % symbolic == 0 ? vh_maybe_nan(vh_real(-1.0e6, 1.0e6, "z"), "sample") : (i * 37 + j * 61 + k * 17) % 41 - 20.5;
}

static void somedata(void)
{
    int k;

    for (k = 0; k < ND; ++k) {
        dx[k] = k * 0.5 - 0.25;
        dy[k] = 1.0 + 0.75 * k * k;
        dz[k] = 3.5 * k - 1;
    }
}

/* values of samples */
void h_values(void)
{
    int n = vh_int(1, PPEMAX, "points per edge"), bad = vh_int(-1, NX * NY - 1, "invalid node");

    makegrid(bad);
    somedata();
    fill(n, SYMB);
    vh_checkpoint();
    run(bad & 1, n, 0, 0, -1, -1, -1, vh_int(0, 1, "range"), 0);
}

/* options */
void h_options(void)
{
    int n = vh_int(1, PPEMAX, "points per edge"), bad = vh_int(-1, NX * NY - 1, "invalid node"), rule = vh_int(0, 3, "rule"), ci = vh_int(-1, NI, "i"), mask = vh_int(-1, (1 << NI * NJ) - 1, "mask");

    makegrid(bad);
    somedata();
    fill(n, 0);
    run(bad & 1, n, rule, vh_int(0, 1, "index space"), mask, ci, ci < 0 ? -1 : vh_int(0, NJ, "j"), 0, (bad + rule) % 3 == 0);
}

/* shape of the grid */
void h_shape(void)
{
    int n = vh_int(1, PPEMAX, "points per edge"), rule = vh_int(0, 1, "rule") * 2;

    makegrid(-1);
    somedata();
    fill(n, 0);
    run(vh_int(0, 1, "double-density"), n, rule, 0, -1, -1, -1, 0, 0);
}

/* where data points are, in physical and index space; averaging */
void h_data(void)
{
    int bad = vh_int(-1, NX * NY - 1, "invalid node"), rule = vh_int(0, 4, "rule"), ix = vh_int(0, 1, "index space"), k;

    makegrid(bad);
    vh_assume(ix || rule == 4);
    for (k = 0; k < ND; ++k) {
        double s = vh_real(-0.25, 1.25, "where");

        /* along a line through all cells and outside */
        dx[k] = 4 * s;
        dy[k] = k % 2 ? 3 - 2.75 * s : 0.25 + 3 * s;
        vh_assume(dx[k] != 0 && dx[k] != 1 && dx[k] != 4 && dy[k] != 0 && dy[k] != 2 && dy[k] != 3);
        dz[k] = vh_real(-1.0e6, 1.0e6, "z");
    }
    fill(1, 0);
    run(bad & 1, 1, rule, ix, -1, -1, -1, rule == 4 && ix, 0);
}

/* more cells, samples and data */
void h_big(void)
{
    static const int masks[3] = { -1, 0x5a6d3 & ((1 << NI * NJ) - 1), (1 << NI * NJ) - 2 }, ns[3] = { 1, 4, PPEMAX };
    int rule = vh_int(0, 4, "rule"), n = rule == 4 ? 1 : ns[vh_int(0, 2, "points per edge")], c = vh_int(0, 2, "cell or all"), k, l;
    int bads[4] = { -1, 0, NX * NY - 1, NX - 2 };
    int bad = bads[vh_int(0, 3, "invalid node")], ix = vh_int(0, 1, "index space"), w = vh_int(0, 2, "mask");

    makegrid(bad);
    for (k = 0; k < ND; ++k) {
        dx[k] = k * 37 % 101 * 0.09375 - 1.03125;
        dy[k] = k * 61 % 103 * 0.125 - 1.0625;
        dz[k] = k * 29 % 83 - 41;
    }
    k = ND / 2;
    dx[k] = ix && (rule == 4 || (n == 1 && w == 1)) ? vh_real(-0.5, 8.5, "where") : 2.21875;
    dy[k] = 5.25 + 0.375 * dx[k];
    dz[k] = vh_real(-1.0e6, 1.0e6, "z");
    for (l = 0; l < 7; ++l)
        vh_assume(dx[k] != (double) ((const int[]) { 0, 1, 4, 5, 7, 8, 11 })[l] && dy[k] != (double) ((const int[]) { 0, 2, 3, 7, 9, 10, 14 })[l]);
    fill(n, 0);
    /* one sample of any value, some missing */
    for (k = 0; k < NI * NJ * n * n; ++k)
        if (k % 13 == 5)
            sv[k / (n * n) / NI][k / (n * n) % NI][k % (n * n)] = NAN;
    k = NI * NJ / 2;
    if (valid[k / NI][k % NI])
        sv[k / NI][k % NI][n * n - 1] = vh_real(-1.0e6, 1.0e6, "sample");
    run(bad & 1, n, rule, ix, masks[w], c == 0 ? -1 : c == 1 ? 0 : NI - 1, c == 0 ? -1 : c == 1 ? NJ - 2 : 1, 0, 0);
}
