/* C20-C24, C27, C30, C31: bigger grids, longer files */
#define MAXN 4000
#include "toolh.h"
#include "gridmap.h"

int subgrid_main(int argc, char* argv[]);
int insertgrid_main(int argc, char* argv[]);
int setbathy_main(int argc, char* argv[]);
int xy2ij_main(int argc, char* argv[]);

#if !defined(NX)
#define NX 53
#endif
#if !defined(NY)
#define NY 38
#endif

static double ax[MAXN], ay[MAXN], bx[MAXN], by[MAXN], rx[MAXN], ry[MAXN];

static unsigned int rnd(unsigned int a, unsigned int b)
{
    unsigned int h = a * 2654435761u ^ b * 2246822519u ^ 0x9e3779b9u;

    h ^= h >> 15;
    h *= 2246822519u;
    h ^= h >> 13;
    h *= 3266489917u;
    return h ^ h >> 16;
}

/* a grid with some nodes invalid and one anywhere */
static void fill(int nx, int ny, int seed, int some, double* x, double* y, double x0)
{
    int k, w = rnd(seed, nx) % (nx * ny);

    for (k = 0; k < nx * ny; ++k) {
        x[k] = x0 + k % nx + (int) (rnd(seed, k) % 64) / 128.0;
        y[k] = k / nx - (int) (rnd(seed + 1, k) % 64) / 128.0;
        if (some && rnd(seed + 2, k) % (some * 4) == 0)
            x[k] = y[k] = NAN;
    }
    x[w] = vh_real(-100, 100, "x of a node");
    y[w] = vh_real(-100, 100, "y of a node");
}

/* ranges: inclusive, partly and fully outside, one line, all */
static const int win[8][4] = {
    {0, NX - 1, 0, NY - 1}, {5, 17, 20, 31}, {NX - 1, NX - 1, 0, NY - 1}, {-7, 3, NY - 2, NY + 100}, {0, 0, 0, 0}, {NX / 2, NX + 5, -1, NY / 2},
    {9, 9, NY, NY + 3}, {30, 29, 4, 8}
};

static gridnodes* src;
static int w[4];

static void dosub(void* arg)
{
    *(gridnodes**) arg = gridnodes_subgrid(src, w[0], w[1], w[2], w[3]);
}

static void clip(void)
{
    w[0] = w[0] < 0 ? 0 : w[0];
    w[1] = w[1] > NX - 1 ? NX - 1 : w[1];
    w[2] = w[2] < 0 ? 0 : w[2];
    w[3] = w[3] > NY - 1 ? NY - 1 : w[3];
}

/* C20 */
void h_sub(void)
{
    int k = vh_int(0, 7, "window"), some = vh_int(0, 2, "invalid nodes"), i, j, n = 0;
    gridnodes* s = NULL;

    fill(NX, NY, k, some, ax, ay, 0);
    src = gridnodes_create(NX, NY, some == 1 && NX % 2 && NY % 2 ? NT_DD : NT_COR);
    for (i = 0; i < NX * NY; ++i)
        gridnodes_readnextpoint(src, ax[i], ay[i]);
    for (i = 0; i < 4; ++i)
        w[i] = win[k][i];
    if (vh_try(dosub, &s)) {
        vh_check(k > 5, "a window that meets the grid is accepted");
        return;
    }
    vh_check(k <= 5, "a window that does not meet the grid is rejected");
    clip();
    gridnodes_destroy(src);
    vh_check(gridnodes_getnx(s) == w[1] - w[0] + 1 && gridnodes_getny(s) == w[3] - w[2] + 1, "the result has the size of the clipped window");
    for (j = w[2]; j <= w[3]; ++j)
        for (i = w[0]; i <= w[1]; ++i, ++n)
            vh_check(vh_same(gridnodes_getx(s)[j - w[2]][i - w[0]], ax[j * NX + i]) && vh_same(gridnodes_gety(s)[j - w[2]][i - w[0]], ay[j * NX + i]), "nodes of the window are copied");
    src = s;
    s = gridnodes_copy(src);
    gridnodes_destroy(src);
    for (j = w[2]; j <= w[3]; ++j)
        for (i = w[0]; i <= w[1]; ++i)
            vh_check(vh_same(gridnodes_getx(s)[j - w[2]][i - w[0]], ax[j * NX + i]) && vh_same(gridnodes_gety(s)[j - w[2]][i - w[0]], ay[j * NX + i]), "a copy is the same");
    gridnodes_destroy(s);
    vh_check(vh_live() == 0, "nothing is left allocated");
}

#if TOOL == 1
void h_subtool(void)
{
    int k = vh_int(0, 7, "window"), i, j, rc, argc = 0, which = vh_int(0, 3, "ranges given");
    char ib[40], jb[40];
    char* argv[10];
    FILE* f;

    fill(NX, NY, k, 1, ax, ay, 0);
    writegrid("g.txt", NX, NY, ax, ay);
    for (i = 0; i < 4; ++i)
        w[i] = which >> i / 2 & 1 ? win[k][i] : i == 1 ? NX - 1 : i == 3 ? NY - 1 : 0;
    sprintf(ib, "%d:%d", w[0], w[1]);
    sprintf(jb, "%d:%d", w[2], w[3]);
    argv[argc++] = "subgrid";
    if (which & 1) {
        argv[argc++] = "-i";
        argv[argc++] = ib;
    }
    argv[argc++] = "g.txt";
    if (which & 2) {
        argv[argc++] = "-j";
        argv[argc++] = jb;
    }
    if (k % 3)
        argv[argc++] = k % 3 == 1 ? "-x" : "-y";
    argv[argc] = NULL;
    rc = vh_main(subgrid_main, argc, argv, "g.txt", "out.txt", "err.txt");
    clip();
    if (w[0] > w[1] || w[2] > w[3]) {
        vh_check(rc != 0 && isempty("out.txt"), "a window that does not meet the grid is rejected");
        return;
    }
    vh_check(rc == 0, "exit status is 0");
    f = fopen("out.txt", "r");
    vh_check(nextheader(f, w[1] - w[0] + 1, w[3] - w[2] + 1), "header gives the size of the window");
    for (j = w[2]; j <= w[3]; ++j)
        for (i = w[0]; i <= w[1]; ++i)
            vh_check(nextnode(f, ax[j * NX + i], ay[j * NX + i], k % 3 == 0 ? CT_XY : k % 3 == 1 ? CT_X : CT_Y), "nodes of the window are written in order");
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
}
#endif

#if TOOL == 2
/* C21 */
void h_insert(void)
{
    static const int offi[4] = { 0, 7, 21, 35 }, offj[3] = { 0, 4, 19 };
    enum { N1 = 31, M1 = 15, N2 = 14, M2 = 11 };
    int i0 = offi[vh_int(0, 3, "i0")], j0 = offj[vh_int(0, 2, "j0")], merge = vh_int(0, 1, "merge"), type = vh_int(0, 3, "node type"), nx, ny, i, j, k, rc, argc = 0;
    char ib[20], jb[20];
    char* argv[12];
    FILE* f;

    nx = i0 + N2 > N1 ? i0 + N2 : N1;
    ny = j0 + M2 > M1 ? j0 + M2 : M1;
    fill(N1, M1, 1, 2, ax, ay, 0);
    fill(N2, M2, 2, 1, bx, by, 200);
    writegrid("a.txt", N1, M1, ax, ay);
    writegrid("b.txt", N2, M2, bx, by);
    for (j = 0; j < ny; ++j)
        for (i = 0; i < nx; ++i) {
            int inb = i >= i0 && i < i0 + N2 && j >= j0 && j < j0 + M2;
            int kb = (j - j0) * N2 + i - i0, ka = j * N1 + i;

            k = j * nx + i;
            if (merge && inb && isnan(bx[kb]))
                inb = 0;
            rx[k] = inb ? bx[kb] : i < N1 && j < M1 ? ax[ka] : NAN;
            ry[k] = inb ? by[kb] : i < N1 && j < M1 ? ay[ka] : NAN;
        }
    if (type == NT_COR)
        validate_co(nx, ny, rx, ry);
    else if (type == NT_DD && nx % 2 && ny % 2)
        validate_dd(nx, ny, rx, ry);
    sprintf(ib, "%d", i0);
    sprintf(jb, "%d", j0);
    argv[argc++] = "insertgrid";
    argv[argc++] = "a.txt";
    argv[argc++] = "b.txt";
    argv[argc++] = ib;
    argv[argc++] = jb;
    if (merge)
        argv[argc++] = "-m";
    if (type) {
        argv[argc++] = "-i";
        argv[argc++] = tnames[type];
    }
    argv[argc] = NULL;
    rc = vh_main(insertgrid_main, argc, argv, "a.txt", "out.txt", "err.txt");
    if (type == NT_DD && (nx % 2 == 0 || ny % 2 == 0)) {
        vh_check(rc != 0 && isempty("out.txt"), "a grid of even size is not a double density grid");
        return;
    }
    vh_check(rc == 0, "exit status is 0");
    f = fopen("out.txt", "r");
    vh_check(nextheader(f, nx, ny), "the result covers both grids");
    for (k = 0; k < nx * ny; ++k)
        vh_check(nextnode(f, rx[k], ry[k], CT_XY), "every node comes from where it should");
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
}
#endif

/* a line of a file of values */
static void valueline(char* s, int k)
{
    switch (rnd(k, 77) % 8) {
    case 0:
        *s = 0;
        break;
    case 1:
        strcpy(s, "NaN");
        break;
    case 2:
        sprintf(s, "  %d.5\ttext %d", k, k);
        break;
    case 3:
        sprintf(s, "## %d x 2", k);
        break;
    default:
        sprintf(s, "%d", 7 * k % 1001);
    }
}

#if TOOL == 3
/* C22 */
void h_setb(void)
{
    int k = vh_int(0, 7, "window"), which = vh_int(0, 3, "ranges given"), off = vh_int(0, 1, "lines skipped") * 30, dopt = vh_int(0, 1, "-d"), miss = vh_int(0, 2, "lines missing"), trail = miss ? 0 : 211, i, j, n = 0, rc, argc = 0;
    char ib[40], jb[40], ob[20], db[40], s[100], t[100];
    char* argv[14];
    FILE* f = fopen("b.txt", "w");

    miss = miss == 2 ? NX : miss;
    for (i = 0; i < 4; ++i)
        w[i] = which >> i / 2 & 1 ? win[k][i] : i % 2 ? 1000 : 0;
    for (i = 0; i < off; ++i)
        fprintf(f, "# %d\n", i);
    if (!dopt)
        fprintf(f, "## %d x %d\n", NX, NY);
    for (i = 0; i < NX * NY - miss; ++i) {
        valueline(s, i);
        fprintf(f, "%s\n", s);
    }
    for (i = 0; i < trail; ++i)
        fprintf(f, "after %d\n", i);
    fclose(f);
    sprintf(ib, "%d:%d", w[0], w[1]);
    sprintf(jb, "%d:%d", w[2], w[3]);
    sprintf(db, "%dx%d", NX, NY);
    sprintf(ob, "%d", off);
    argv[argc++] = "setbathy";
    argv[argc++] = "b.txt";
    if (which & 2) {
        argv[argc++] = "-j";
        argv[argc++] = jb;
    }
    if (which & 1) {
        argv[argc++] = "-i";
        argv[argc++] = ib;
    }
    if (dopt) {
        argv[argc++] = "-d";
        argv[argc++] = db;
    }
    if (off) {
        argv[argc++] = "-o";
        argv[argc++] = ob;
    }
    argv[argc++] = "-z";
    argv[argc++] = "-5.5";
    argv[argc] = NULL;
    rc = vh_main(setbathy_main, argc, argv, "b.txt", "out.txt", "err.txt");
    if (miss) {
        vh_check(rc != 0, "missing data is an error");
        return;
    }
    vh_check(rc == 0, "exit status is 0");
    f = fopen("out.txt", "r");
    for (i = 0; i < off; ++i) {
        sprintf(t, "# %d\n", i);
        vh_check(fgets(s, 100, f) != NULL && strcmp(s, t) == 0, "skipped lines pass through unchanged");
    }
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i, ++n) {
            if (i >= w[0] && i <= w[1] && j >= w[2] && j <= w[3])
                strcpy(t, "-5.5");
            else
                valueline(t, n);
            strcat(t, "\n");
            vh_check(fgets(s, 100, f) != NULL && strcmp(s, t) == 0, "exactly the lines in the window are replaced");
        }
    for (i = 0; i < trail; ++i) {
        sprintf(t, "after %d\n", i);
        vh_check(fgets(s, 100, f) != NULL && strcmp(s, t) == 0, "trailing lines pass through unchanged");
    }
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
}
#endif

/* C23 */
void h_file(void)
{
    int ct = vh_int(0, 2, "coordinates written"), seed = vh_int(0, 2, "kinds of lines"), i, k;
    gridnodes* gn;
    FILE* f = fopen("g.txt", "w");

    fill(NX, NY, seed, seed, ax, ay, 0);
    fprintf(f, "## %d x %d\n", NX, NY);
    for (k = 0; k < NX * NY; ++k) {
        static const char* bad[7] = { "", "NaN NaN", "# 1 2", "abc", "12", "NaN 3", "4 NaN" };

        if (isnan(ax[k]))
            fprintf(f, "%s\n", bad[k % 7]);
        else
            fprintf(f, "%s%.17g %.17g%s\n", k % 5 == 3 ? "\t" : "", ax[k], ay[k], k % 4 == 1 ? " rest 1 2" : "");
    }
    fclose(f);
    gn = gridnodes_read("g.txt", NT_NONE);
    vh_check(gridnodes_getnx(gn) == NX && gridnodes_getny(gn) == NY, "size is that of the header");
    for (k = 0; k < NX * NY; ++k) {
        double x = gridnodes_getx(gn)[k / NX][k % NX], y = gridnodes_gety(gn)[k / NX][k % NX];

        if (isnan(ax[k]))
            vh_check(isnan(x) && isnan(y), "an invalid node is NaN in both coordinates");
        else
            vh_check(vh_near(x, ax[k], 0) && vh_near(y, ay[k], 0), "a valid node is read as it is");
    }
    gridnodes_write(gn, "out.txt", ct);
    gridnodes_destroy(gn);
    f = fopen("out.txt", "r");
    vh_check(nextheader(f, NX, NY), "header is reproduced");
    for (i = 0; i < NX * NY; ++i)
        vh_check(nextnode(f, ax[i], ay[i], ct), "nodes are written in order");
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
    vh_check(vh_files() == 0 && vh_live() == 0, "files are closed and memory released");
}

#if TOOL == 1
/* C24 */
static void doread(void* arg)
{
    *(gridnodes**) arg = gridnodes_read("g.txt", NT_NONE);
}

void h_trunc(void)
{
    static const int missing[7] = { 0, 1, 2, NX, NX + 1, NX * NY - 1, NX * NY };
    int m = missing[vh_int(0, 6, "lines missing")], empty = vh_int(0, 1, "empty lines"), k, q, rc;
    gridnodes* gn = NULL;
    char* argv[3] = { "subgrid", "g.txt", NULL };
    FILE* f = fopen("g.txt", "w");

    fprintf(f, "## %d x %d\n", NX, NY);
    for (k = 0; k < NX * NY - m; ++k)
        if (empty && rnd(k, 3) % 3 == 0)
            fputc('\n', f);
        else
            fprintf(f, "%d %d\n", k, -k);
    fclose(f);
    q = vh_try(doread, &gn);
    vh_check(q == (m > 0), "missing nodes are an error");
    if (!q)
        gridnodes_destroy(gn);
    rc = vh_main(subgrid_main, 2, argv, "g.txt", "out.txt", "err.txt");
    vh_check((rc != 0) == (m > 0), "a tool fails on malformed grid input");
    if (m)
        vh_check(isempty("out.txt") && !isempty("err.txt"), "nothing is written as result and the error is reported");
}
#endif

#if TOOL == 4
/* C27: many points, one of them anywhere */
#if !defined(NPT)
#define NPT 1100
#endif
void h_stream(void)
{
    int reverse = vh_int(0, 1, "-r"), kt = vh_int(0, 1, "-k"), bad = vh_int(0, 2, "point outside") * 530, force = bad ? vh_int(0, 1, "-f") : 0, verb = vh_int(0, 1, "-v"), k, rc, argc = 0, sx = NPT / 3 * 2;
    double x[12], y[12], a = 0, b = 0;
    char* argv[12];
    char s[200], t[200];
    FILE* f;

    /* 3 x 2 cells of 2 x 1 */
    for (k = 0; k < 12; ++k) {
        x[k] = 2 * (k % 4);
        y[k] = k / 4;
    }
    writegrid("g.txt", 4, 3, x, y);
    f = fopen("p.txt", "w");
    for (k = 1; k < NPT; ++k) {
        if (k == bad)
            fprintf(f, "-1 1 %d\n", k);
        else if (k == sx) {
            a = vh_real(reverse ? 1.0625 : 2.125, reverse ? 1.9375 : 3.875, "point");
            b = vh_real(0.125, 0.875, "point");
            fprintf(f, "%.17g %.17g %d\n", a, b, k);
        } else if (rnd(k, 5) % 6 == 0)
            fprintf(f, k % 2 ? "# %d\n" : "\n", k);
        else
            fprintf(f, "%.3f %.3f %d\n", rnd(k, 1) % (reverse ? 24 : 48) * 0.125, rnd(k, 2) % 16 * 0.125, k);
    }
    fclose(f);
    argv[argc++] = "xy2ij";
    argv[argc++] = "-g";
    argv[argc++] = "g.txt";
    argv[argc++] = "-o";
    argv[argc++] = "p.txt";
    argv[argc++] = "-i";
    argv[argc++] = "CO";
    if (reverse)
        argv[argc++] = "-r";
    if (force)
        argv[argc++] = "-f";
    if (kt)
        argv[argc++] = "-k";
    if (verb)
        argv[argc++] = "-v";
    argv[argc] = NULL;
    rc = vh_main(xy2ij_main, argc, argv, "p.txt", "out.txt", "err.txt");
    vh_check((rc != 0) == (bad && !force), "exit status is 0 unless a point cannot be converted");
    f = fopen("out.txt", "r");
    for (k = 1; k < (bad && !force ? bad : NPT); ++k) {
        vh_check(fgets(s, 200, f) != NULL, "one line for a line");
        if (k == bad) {
            sprintf(t, "NaN NaN %d\n", k);
            vh_check(strcmp(s, t) == 0, "a point that cannot be converted is NaN NaN");
        } else if (k != sx && rnd(k, 5) % 6 == 0) {
            sprintf(t, k % 2 ? "# %d\n" : "\n", k);
            vh_check(strcmp(s, t) == 0, "other lines are copied unchanged");
        } else {
            double ea = k == sx ? a : rnd(k, 1) % (reverse ? 24 : 48) * 0.125, eb = k == sx ? b : rnd(k, 2) % 16 * 0.125;
            char u[90], v[90];
            int n;

            vh_check(sscanf(s, "%80s %80s %d", u, v, &n) == 3 && n == k, "a pair and the rest of the line");
            vh_check(vh_near(atof(u), reverse ? 2 * ea : ea / 2, 1.0e-7) && vh_near(atof(v), eb, 1.0e-7), "the converted pair");
        }
    }
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
}
#endif

/* C30 */
void h_alloc(void)
{
    static const int ni[6] = { 1, 300, 257, 1, 64, 1025 }, nj[6] = { 300, 1, 31, 1, 64, 3 }, us[4] = { 1, 4, 8, 24 };
    int w = vh_int(0, 5, "size"), u = us[vh_int(0, 3, "unit")], i, j;
    char** a = gu_alloc2d(nj[w], ni[w], u);

    for (j = 0; j < nj[w]; ++j) {
        if (j > 0)
            vh_check(a[j] == a[j - 1] + ni[w] * u, "rows follow one another");
        for (i = 0; i < ni[w] * u; i += (u > 4 && u % 8 == 0) ? 8 : u)
            if (u == 1)
                vh_check(a[j][i] == 0, "elements are zero");
            else if (u == 4)
                vh_check(*(int*) (a[j] + i) == 0, "elements are zero");
            else
                vh_check(*(long*) (a[j] + i) == 0, "elements are zero");
    }
    for (j = 0; j < nj[w]; ++j)
        for (i = 0; i < ni[w]; ++i)
            if (u == 1)
                a[j][i] = (j + i) % 100;
            else if (u == 4)
                *(int*) (a[j] + i * u) = j * 2000 + i;
            else
                *(long*) (a[j] + i * u) = j * 2000 + i;
    for (j = 0; j < nj[w]; ++j)
        for (i = 0; i < ni[w]; ++i)
            vh_check(u == 1 ? a[j][i] == (j + i) % 100 : u == 4 ? *(int*) (a[j] + i * u) == j * 2000 + i : *(long*) (a[j] + i * u) == j * 2000 + i, "elements do not overlap");
    gu_free2d(a);
    vh_check(vh_live() == 0, "nothing is left allocated");
}

/* C31 */
static void domask(void* arg)
{
    *(int***) arg = gu_readmask("m.txt", NX, NY);
}

void h_mask(void)
{
    static const int at[5] = { 0, 1, NX, NX * NY / 2, NX * NY - 1 };
    static const char* bad[5] = { "2", "", "01", "x", " 1" };
    int what = vh_int(0, 4, "what"), p = at[vh_int(0, 4, "where")], b = what == 1 ? vh_int(0, 4, "bad line") : 0, nonl = vh_int(0, 1, "last line without newline"), k, q;
    int** m = NULL;
    FILE* f = fopen("m.txt", "w");

    /* 0: good, 1: a bad line, 2: cut at p, 3: more lines, 4: good, all the same but one */
    for (k = 0; k < NX * NY; ++k) {
        if (what == 2 && k == p)
            break;
        if (what == 1 && k == p)
            fputs(bad[b], f);
        else
            fputc('0' + (what == 4 ? k == p : (int) (rnd(k, 9) & 1)), f);
        if (!nonl || k < NX * NY - 1)
            fputc('\n', f);
    }
    if (what == 3)
        fputs(nonl ? "\n" : "7\n8\n", f);
    fclose(f);
    q = vh_try(domask, &m);
    vh_check(q == (what == 1 || what == 2), "a mask is accepted iff it holds enough lines of 0 or 1");
    if (q)
        return;
    for (k = 0; k < NX * NY; ++k)
        vh_check(m[k / NX][k % NX] == (what == 4 ? k == p : (int) (rnd(k, 9) & 1)), "values are returned in row-major order");
    gu_free2d(m);
    vh_check(vh_files() == 0 && vh_live() == 0, "files are closed and memory released");
}
