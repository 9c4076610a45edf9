/* helpers for harnesses running the utilities */
#if !defined(TOOLH_H)
#define TOOLH_H
#include "vh.h"
#include "gridnodes.h"
#include "gucommon.h"

#if !defined(MAXN)
#define MAXN 81
#endif

static int isempty(const char* fname)
{
    FILE* f = fopen(fname, "r");
    int c = fgetc(f);

    fclose(f);
    return c == EOF;
}

/* the next line holds exactly this node (15 digits) */
static int nextnode(FILE* f, double x, double y, int ct)
{
    char buf[256], a[128], b[128], c[8];
    int n;

    if (fgets(buf, 256, f) == NULL || strchr(buf, '\n') == NULL)
        return 0;
    n = sscanf(buf, "%100s %100s %1s", a, b, c);
    if (n != (ct == CT_XY ? 2 : 1))
        return 0;
    if (isnan(x) || isnan(y))
        return strcmp(buf, ct == CT_XY ? "NaN NaN\n" : "NaN\n") == 0;
    if (ct == CT_XY)
        return vh_near(atof(a), x, 1.0e-11) && vh_near(atof(b), y, 1.0e-11);
    return vh_near(atof(a), ct == CT_X ? x : y, 1.0e-11);
}

static int nextheader(FILE* f, int nx, int ny)
{
    char buf[256], c[8];
    int a, b;

    return fgets(buf, 256, f) != NULL && sscanf(buf, "## %d x %d%1s", &a, &b, c) == 2 && a == nx && b == ny;
}

static void writegrid(const char* fname, int nx, int ny, double* x, double* y)
{
    FILE* f = fopen(fname, "w");
    int k;

    fprintf(f, "## %d x %d\n", nx, ny);
    for (k = 0; k < nx * ny; ++k)
        if (isnan(x[k]) || isnan(y[k]))
            fprintf(f, "NaN NaN\n");
        else
            fprintf(f, "%.17g %.17g\n", x[k], y[k]);
    fclose(f);
}

/* what validation keeps (arrays of nx * ny nodes) */
static void validate_co(int nx, int ny, double* x, double* y)
{
    int keep[MAXN], i, j, k;

    memset(keep, 0, sizeof(keep));
    for (j = 0; j < ny - 1; ++j)
        for (i = 0; i < nx - 1; ++i) {
            k = j * nx + i;
            if (!isnan(x[k]) && !isnan(x[k + 1]) && !isnan(x[k + nx]) && !isnan(x[k + nx + 1]))
                keep[k] = keep[k + 1] = keep[k + nx] = keep[k + nx + 1] = 1;
        }
    for (k = 0; k < nx * ny; ++k)
        if (!keep[k])
            x[k] = y[k] = NAN;
}

static void validate_dd(int nx, int ny, double* x, double* y)
{
    int keep[MAXN], i, j, k;

    memset(keep, 0, sizeof(keep));
    for (j = 1; j < ny; j += 2)
        for (i = 1; i < nx; i += 2) {
            k = j * nx + i;
            if (!isnan(x[k - nx - 1]) && !isnan(x[k - nx + 1]) && !isnan(x[k + nx - 1]) && !isnan(x[k + nx + 1])) {
                keep[k - nx - 1] = keep[k - nx + 1] = keep[k + nx - 1] = keep[k + nx + 1] = 1;
                keep[k] = !isnan(x[k]);
            }
        }
    for (j = 0; j < ny; j += 2)
        for (i = 1; i < nx; i += 2) {
            k = j * nx + i;
            keep[k] = !isnan(x[k]) && keep[k - 1] && keep[k + 1];
        }
    for (j = 1; j < ny; j += 2)
        for (i = 0; i < nx; i += 2) {
            k = j * nx + i;
            keep[k] = !isnan(x[k]) && keep[k - nx] && keep[k + nx];
        }
    for (k = 0; k < nx * ny; ++k)
        if (!keep[k])
            x[k] = y[k] = NAN;
}

static char* tnames[4] = { "", "DD", "CE", "CO" };
#endif
