/* C32: getnodes */
#if defined(BIG)
#define MAXN 700
#endif
#include "toolh.h"

int getnodes_main(int argc, char* argv[]);

#if !defined(CX)
#define CX 2                    /* cells */
#endif
#if !defined(CY)
#define CY 2
#endif

/* masks: by bits of a number, or of three patterns */
static int maskbit(int mask, int k)
{
#if defined(BIG)
    return mask == 0 ? k * 7 % 5 == 2 : mask == 1 ? k == CX * CY - 1 : (k % CX + k / CX) % 3 != 0;
#else
    return mask >> k & 1;
#endif
}

static double x[MAXN], y[MAXN];
static int nx, ny;

static void dims(int type, int* a, int* b)
{
    *a = type == NT_DD ? 2 * CX + 1 : type == NT_CEN ? CX : CX + 1;
    *b = type == NT_DD ? 2 * CY + 1 : type == NT_CEN ? CY : CY + 1;
}

/* the number before a text in the verbose output; first or last occurrence */
static int reported(const char* text, int last)
{
    FILE* f = fopen("err.txt", "r");
    char buf[400];
    int r = -1, n;

    while (fgets(buf, 400, f) != NULL) {
        char* p = strstr(buf, text);

        if (p == NULL)
            continue;
        if (sscanf(buf, "## %d", &n) == 1 && (last || r == -1))
            r = n;
    }
    fclose(f);
    return r;
}

typedef struct {
    int in, out, mask;
} job;

static gridnodes* ref = NULL;

/* the specified sequence, by the library */
static void pipeline(void* arg)
{
    job* p = arg;
    gridnodes* gn = gridnodes_read("g.txt", p->in);

    gridnodes_validate(gn);
    if (p->in != p->out) {
        gridnodes* n = gridnodes_transform(gn, p->out);

        gridnodes_destroy(gn);
        gn = n;
    }
    if (p->mask >= 0) {
        int** m = gu_readmask("m.txt", CX, CY);

        gridnodes_applymask(gn, m);
        gu_free2d(m);
    }
    ref = gn;
}

/* valid cells of the corner grid form one region that does not touch itself at a node (what getnodes supports) */
static int connected(void)
{
    int c[CY + 2][CX + 2], i, j, k, n = 0, holes = 0, todo = 1;

    memset(c, 0, sizeof(c));
    for (j = 0; j < CY; ++j)
        for (i = 0; i < CX; ++i) {
            k = j * nx + i;
            if (!isnan(x[k]) && !isnan(x[k + 1]) && !isnan(x[k + nx]) && !isnan(x[k + nx + 1]))
                c[j + 1][i + 1] = n++ == 0 ? 2 : 1;
        }
    while (todo)
        for (j = 1, todo = 0; j <= CY; ++j)
            for (i = 1; i <= CX; ++i)
                if (c[j][i] == 1 && (c[j - 1][i] == 2 || c[j + 1][i] == 2 || c[j][i - 1] == 2 || c[j][i + 1] == 2)) {
                    c[j][i] = 2;
                    todo = 1;
                }
    for (j = 0; j <= CY; ++j)
        for (i = 0; i <= CX; ++i) {
            int d = !!c[j][i] + 2 * !!c[j][i + 1] + 4 * !!c[j + 1][i] + 8 * !!c[j + 1][i + 1];

            if (d == 6 || d == 9 || c[j][i] == 1)
                return 0;
        }
    /* (a hole takes an invalid node inside of the grid: not among those chosen here) */
    return holes == 0;
}

static void run(int concrete)
{
    job p;
    int bad1, bad2, ct, verb, k, i, j, q, rc, n, argc = 0, ox, oy;
    char* argv[16];
    double t;
    FILE* f;

    p.in = vh_int(1, 3, "input type");
    p.out = vh_int(1, 3, "output type");
#if defined(BIG)
    p.mask = vh_int(-1, 2, "mask");
#else
    p.mask = vh_int(-1, (1 << (CX * CY)) - 1, "mask");
#endif
    dims(p.in, &nx, &ny);
    dims(p.out, &ox, &oy);
    if (p.in == NT_CEN && p.out != NT_CEN && !concrete)
        vh_assume(0);           /* see the concrete one */
#if !defined(BIG)
    bad1 = vh_int(-1, nx * ny - 1, "an invalid node");
#endif
#if !defined(BIG)
    bad2 = (p.mask + 1) * 7 % (nx * ny + 3) - 3;        /* another one, or none */
#else
    {
        int w = vh_int(0, 5, "where");

        bad1 = w == 0 ? -1 : w == 1 ? 0 : w == 2 ? nx * ny - 1 : w == 3 ? nx * (ny / 2) : w == 4 ? nx * (ny - 1) + nx / 3 : nx - 2;
        bad2 = w == 5 ? nx * 3 - 1 : -1;
    }
#endif
    ct = (p.mask + bad1 + 4) % 3;
    verb = concrete;
    t = concrete ? 0 : vh_real(-0.05, 0.05, "shape of a corner grid");
    for (j = 0, k = 0; j < ny; ++j)
        for (i = 0; i < nx; ++i, ++k) {
            if (concrete) {
                x[k] = i + 0.25 * j;
                y[k] = 2 * j - 0.5 * i;
            } else {
                /* (corners need to make a grid to be mapped) */
                if (p.in == NT_COR || CX * CY > 12) {
                    x[k] = 2 * i + 0.5 * j + t * (k * 5 % 7);
                    y[k] = 2 * j - 0.5 * i + t * (k * 3 % 7);
                } else {
                    x[k] = vh_real(-10, 10, "x");
                    y[k] = vh_real(-10, 10, "y");
                }
            }
            if (k == bad1 || k == bad2)
                x[k] = y[k] = NAN;
        }
    if (p.in == NT_COR && p.out != NT_COR)
        vh_assume(connected());
    writegrid("g.txt", nx, ny, x, y);
    f = fopen("m.txt", "w");
    for (k = 0; k < CX * CY; ++k)
        fprintf(f, "%d\n", maskbit(p.mask, k));
    fclose(f);
    argv[argc++] = "getnodes";
    if (bad1 & 1)
        argv[argc++] = "g.txt";
    if (p.in != NT_DD || (bad1 & 2)) {
        argv[argc++] = "-i";
        argv[argc++] = tnames[p.in];
    }
    if (p.mask >= 0) {
        argv[argc++] = "-m";
        argv[argc++] = "m.txt";
    }
    if (ct != CT_XY)
        argv[argc++] = ct == CT_X ? "-x" : "-y";
    if (verb)
        argv[argc++] = "-v";
    if (p.out != NT_DD || (bad1 & 2)) {
        argv[argc++] = "-o";
        argv[argc++] = tnames[p.out];
    }
    if (!(bad1 & 1))
        argv[argc++] = (bad1 & 2) ? "-" : "g.txt";
    argv[argc] = NULL;
    rc = vh_main(getnodes_main, argc, argv, "g.txt", "out.txt", "err.txt");
    q = vh_try(pipeline, &p);
    if (p.mask >= 0 && p.out == NT_COR)
        vh_check(q, "a mask can not be applied to corner nodes");
    else
        vh_check(!q, "the sequence is accepted");
    if (q) {
        vh_check(rc != 0 && isempty("out.txt"), "what the library refuses ends with an error");
        return;
    }
    vh_check(rc == 0, "exit status is 0");
    vh_check(gridnodes_getnx(ref) == ox && gridnodes_getny(ref) == oy, "size of the output type");
    f = fopen("out.txt", "r");
    vh_check(nextheader(f, ox, oy), "header gives the size of the output");
    for (j = 0, n = 0; j < oy; ++j)
        for (i = 0; i < ox; ++i) {
            n += !isnan(gridnodes_getx(ref)[j][i]);
            vh_check(nextnode(f, gridnodes_getx(ref)[j][i], gridnodes_gety(ref)[j][i], ct), "the output is the result of the sequence");
        }
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
    if (p.in == p.out && p.mask < 0) {
        static double vx[MAXN], vy[MAXN];

        memcpy(vx, x, sizeof(x));
        memcpy(vy, y, sizeof(y));
        if (p.in == NT_COR)
            validate_co(nx, ny, vx, vy);
        else if (p.in == NT_DD)
            validate_dd(nx, ny, vx, vy);
        f = fopen("out.txt", "r");
        vh_check(nextheader(f, nx, ny), "header is kept");
        for (k = 0; k < nx * ny; ++k)
            vh_check(nextnode(f, vx[k], vy[k], ct), "valid nodes pass through");
        fclose(f);
    }
    if (verb) {
        int in = 0, cells = 0;

        for (k = 0; k < nx * ny; ++k)
            in += !isnan(x[k]);
        k = reported("non-empty grid nodes", 0);
        vh_check(k == -1 || k == in, "reported number of input nodes");
        k = reported("non-empty grid nodes", 1);
        vh_check(k == -1 || k == n, "reported number of output nodes");
        if (p.in == NT_COR) {
            for (j = 0; j < CY; ++j)
                for (i = 0; i < CX; ++i) {
                    k = j * nx + i;
                    cells += !isnan(x[k]) && !isnan(x[k + 1]) && !isnan(x[k + nx]) && !isnan(x[k + nx + 1]);
                }
            k = reported("valid cells", 0);
            vh_check(k == -1 || k == cells, "reported number of valid cells");
        }
    }
}

void h_sym(void)
{
    run(0);
}

void h_verbose(void)
{
    run(1);
}
