/* C20, C23, C24, C31: grid and mask files, subgrid */
#include "vh.h"
#include "gridnodes.h"
#include "gucommon.h"

#if !defined(NX)
#define NX 3
#endif
#if !defined(NY)
#define NY 2
#endif
#if !defined(NB)
#define NB 4
#endif
#if !defined(TOOLS)
#define TOOLS 0
#endif

int subgrid_main(int argc, char* argv[]);
int getnodes_main(int argc, char* argv[]);
int getbound_main(int argc, char* argv[]);
int xy2ij_main(int argc, char* argv[]);
int insertgrid_main(int argc, char* argv[]);

static double cx[NY][NX], cy[NY][NX];

static int isempty(const char* fname)
{
    FILE* f = fopen(fname, "r");
    int c = fgetc(f);

    fclose(f);
    return c == EOF;
}

static void symnodes(int any)
{
    int one = any ? -1 : vh_int(0, NX * NY - 1, "node that may be invalid");
    int i, j;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            cx[j][i] = vh_real(-10, 10, "x");
            if (any || j * NX + i == one)
                cx[j][i] = vh_maybe_nan(cx[j][i], "x invalid");
            cy[j][i] = vh_real(-10, 10, "y");
        }
}

static void writenodes(const char* fname)
{
    FILE* f = fopen(fname, "w");
    int i, j;

    fprintf(f, "## %d x %d\n", NX, NY);
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            if (isnan(cx[j][i]))
                fprintf(f, "NaN NaN\n");
            else
                fprintf(f, "%.17g %.17g\n", cx[j][i], cy[j][i]);
    fclose(f);
}

/* the next line holds exactly these nodes */
static int nextis(FILE* f, double x, double y, int ct)
{
    char buf[256], a[128], b[128], c[8];
    int n;

    if (fgets(buf, 256, f) == NULL || strchr(buf, '\n') == NULL)
        return 0;
    n = sscanf(buf, "%100s %100s %1s", a, b, c);
    if (n != (ct == CT_XY ? 2 : 1))
        return 0;
    if (isnan(x) || isnan(y))
        return strcmp(buf, ct == CT_XY ? "NaN NaN\n" : "NaN\n") == 0;
    if (ct == CT_XY)
        return vh_near(atof(a), x, 1.0e-12) && vh_near(atof(b), y, 1.0e-12);
    return vh_near(atof(a), ct == CT_X ? x : y, 1.0e-12);
}

/* ------------------------------------------------------------- C20 */
/* -1 and below, inside, and above, with the extremes of int */
static int limit(int n, const char* name)
{
    int k = vh_int(-2, n + 1, name);

    return k == -2 ? INT_MIN : k == n + 1 ? INT_MAX : k;
}

static gridnodes* c20src;
static int c20w[4];

static void c20do(void* arg)
{
    *(gridnodes**) arg = gridnodes_subgrid(c20src, c20w[0], c20w[1], c20w[2], c20w[3]);
}

void h_c20(void)
{
    int t, i, j, i0, i1, j0, j1, mt;
    gridnodes *gn, *s = NULL;

    c20w[0] = limit(NX, "imin");
    c20w[1] = limit(NX, "imax");
    c20w[2] = limit(NY, "jmin");
    c20w[3] = limit(NY, "jmax");
    i0 = c20w[0] < 0 ? 0 : c20w[0];
    i1 = c20w[1] > NX - 1 ? NX - 1 : c20w[1];
    j0 = c20w[2] < 0 ? 0 : c20w[2];
    j1 = c20w[3] > NY - 1 ? NY - 1 : c20w[3];
    t = ((unsigned) i0 + i1 + j0) & 3;
    mt = ((unsigned) i1 + j1) & 1;
    symnodes(0);
    gn = gridnodes_create(NX, NY, NX % 2 == 0 || NY % 2 == 0 ? t % 3 : t);
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            gridnodes_readnextpoint(gn, cx[j][i], cy[j][i]);
    gridnodes_setmaptype(gn, mt);
    c20src = gn;
    if (vh_try(c20do, &s)) {
        vh_check(i0 > i1 || j0 > j1, "a window that meets the grid is accepted");
        return;
    }
    vh_check(i0 <= i1 && j0 <= j1, "a window that does not meet the grid is rejected");
    vh_check(s != gn && gridnodes_getx(s) != gridnodes_getx(gn) && gridnodes_gety(s) != gridnodes_gety(gn), "the result does not share storage with the source");
    vh_check(gridnodes_getnx(s) == i1 - i0 + 1 && gridnodes_getny(s) == j1 - j0 + 1, "the result has the size of the clipped window");
    vh_check(gridnodes_getmaptype(s) == mt, "map type is kept");
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            vh_check(vh_same(gridnodes_getx(gn)[j][i], cx[j][i]) && vh_same(gridnodes_gety(gn)[j][i], cy[j][i]), "the source is not changed");
    /* independent of its source */
    gridnodes_destroy(gn);
    for (j = j0; j <= j1; ++j)
        for (i = i0; i <= i1; ++i)
            vh_check(vh_same(gridnodes_getx(s)[j - j0][i - i0], cx[j][i]) && vh_same(gridnodes_gety(s)[j - j0][i - i0], cy[j][i]), "nodes of the window are copied");
    gridnodes_destroy(s);
    vh_check(vh_live() == 0, "nothing is left allocated");
}

void h_c20_copy(void)
{
    gridnodes *gn, *s;
    int i, j;

    symnodes(1);
    gn = gridnodes_create(NX, NY, NT_NONE);
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            gridnodes_readnextpoint(gn, cx[j][i], cy[j][i]);
    gridnodes_setmaptype(gn, vh_int(0, 1, "map type"));
    s = gridnodes_copy(gn);
    vh_check(gridnodes_getnx(s) == NX && gridnodes_getny(s) == NY && gridnodes_getmaptype(s) == gridnodes_getmaptype(gn), "a copy has the same size and map type");
    if (vh_int(0, 1, "which one is changed")) {
        gridnodes_destroy(gn);
        for (j = 0; j < NY; ++j)
            for (i = 0; i < NX; ++i)
                vh_check(vh_same(gridnodes_getx(s)[j][i], cx[j][i]) && vh_same(gridnodes_gety(s)[j][i], cy[j][i]), "a copy is the same and independent");
        gridnodes_destroy(s);
    } else {
        gridnodes_getx(s)[NY - 1][NX - 1] = 77;
        gridnodes_gety(s)[NY - 1][NX - 1] = 77;
        gridnodes_destroy(s);
        for (j = 0; j < NY; ++j)
            for (i = 0; i < NX; ++i)
                vh_check(vh_same(gridnodes_getx(gn)[j][i], cx[j][i]) && vh_same(gridnodes_gety(gn)[j][i], cy[j][i]), "changing a copy does not change the source");
        gridnodes_destroy(gn);
    }
}

#if TOOLS >= 1
void h_c20_tool(void)
{
    int io = vh_int(0, 1, "-i given"), jo = vh_int(0, 1, "-j given");
    int w[4] = { 0, NX - 1, 0, NY - 1 };
    int ct, i, j, rc, ok, argc = 0;
    char ib[40], jb[40];
    char* argv[12];
    FILE* f;

    if (io) {
        w[0] = vh_int(-1, NX, "imin");
        w[1] = vh_int(-1, NX, "imax");
    }
    if (jo) {
        w[2] = vh_int(-1, NY, "jmin");
        w[3] = vh_int(-1, NY, "jmax");
    }
    ct = (w[0] + w[1] + w[2] + w[3] + io + 8) % 3;
    symnodes(0);
    writenodes("g.txt");
    sprintf(ib, "%d:%d", w[0], w[1]);
    sprintf(jb, "%d:%d", w[2], w[3]);
    argv[argc++] = "subgrid";
    if ((w[1] + w[3]) & 1)
        argv[argc++] = "g.txt";
    if (jo) {
        argv[argc++] = "-j";
        argv[argc++] = jb;
    }
    if (ct != CT_XY)
        argv[argc++] = ct == CT_X ? "-x" : "-y";
    if (io) {
        argv[argc++] = "-i";
        argv[argc++] = ib;
    }
    if (!((w[1] + w[3]) & 1))
        argv[argc++] = "-";
    if (w[0] == 1)
        argv[argc++] = "-v";
    argv[argc] = NULL;
    rc = vh_main(subgrid_main, argc, argv, "g.txt", "out.txt", "err.txt");
    for (i = 0; i < 4; i += 2)
        if (w[i] < 0)
            w[i] = 0;
    if (w[1] > NX - 1)
        w[1] = NX - 1;
    if (w[3] > NY - 1)
        w[3] = NY - 1;
    ok = w[0] <= w[1] && w[2] <= w[3];
    vh_check((rc == 0) == ok, "exit status is 0 iff the window meets the grid");
    if (!ok) {
        vh_check(isempty("out.txt"), "nothing is written for a window that does not meet the grid");
        return;
    }
    f = fopen("out.txt", "r");
    {
        int nx, ny;
        char buf[256], c[8];

        vh_check(fgets(buf, 256, f) != NULL && sscanf(buf, "## %d x %d%1s", &nx, &ny, c) == 2 && nx == w[1] - w[0] + 1 && ny == w[3] - w[2] + 1, "header gives the size of the window");
    }
    for (j = w[2]; j <= w[3]; ++j)
        for (i = w[0]; i <= w[1]; ++i)
            vh_check(nextis(f, cx[j][i], cy[j][i], ct), "nodes of the window are written in order");
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
}

#endif

/* ------------------------------------------------------------- C23 */
#if !defined(NKIND)
#define NKIND 13
#endif
/* writes a line, says whether it is a valid node */
static int nodeline(FILE* f, int kind, double x, double y, const char* nl)
{
    switch (kind) {
    case 0:
        fprintf(f, "%.17g %.17g%s", x, y, nl);
        return 1;
    case 1:
        fprintf(f, "%s", nl);
        return 0;
    case 2:
        fprintf(f, "%.17g %.17g some text 5 6%s", x, y, nl);
        return 1;
    case 3:
        fprintf(f, "NaN %.17g%s", y, nl);
        return 0;
    case 4:
        fprintf(f, "%.17g NaN%s", x, nl);
        return 0;
    case 5:
        fprintf(f, "# %.17g %.17g%s", x, y, nl);
        return 0;
    case 6:
        fprintf(f, "NaN NaN%s", nl);
        return 0;
    case 7:
        fprintf(f, "  %.17g\t %.17g \t%s", x, y, nl);
        return 1;
    case 8:
        fprintf(f, "%.17g%s", x, nl);
        return 0;
    case 9:
        fprintf(f, "   \t %s", nl);
        return 0;
    case 10:
        fprintf(f, "abc %.17g %.17g%s", x, y, nl);
        return 0;
    case 11:
        fprintf(f, "nan -nan # %.17g%s", y, nl);
        return 0;
    case 12:
        fprintf(f, "%.17g %.17g#%s", x, y, nl);
        return 1;
    }
    return 0;
}

void h_c23(void)
{
    FILE* f;
    gridnodes* gn;
    int ct = vh_int(0, 2, "coordinates written");
    int nonl = vh_int(0, 1, "last line without newline");
    int nx, ny, i, j, k;
    char buf[256], c[8];

    f = fopen("g.txt", "w");
    fprintf(f, "## %d x %d\n", NX, NY);
    for (j = 0, k = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i, ++k) {
            double x = vh_real(-10, 10, "x"), y = vh_real(-10, 10, "y");
            int last = nonl && k == NX * NY - 1;
            int kind = vh_int(0, NKIND - 1, "kind of line");

            if (last && kind == 1)
                kind = 9;       /* an empty last line without newline is no line */
            if (nodeline(f, kind, x, y, last ? "" : "\n")) {
                cx[j][i] = x;
                cy[j][i] = y;
            } else
                cx[j][i] = cy[j][i] = NAN;
        }
    fclose(f);
    gn = gridnodes_read("g.txt", NT_NONE);
    vh_check(gridnodes_getnx(gn) == NX && gridnodes_getny(gn) == NY, "size is that of the header");
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            if (isnan(cx[j][i]))
                vh_check(isnan(gridnodes_getx(gn)[j][i]) && isnan(gridnodes_gety(gn)[j][i]), "an invalid node is NaN in both coordinates");
            else
                vh_check(vh_near(gridnodes_getx(gn)[j][i], cx[j][i], 0.0) && vh_near(gridnodes_gety(gn)[j][i], cy[j][i], 0.0), "a valid node is read as it is");
    gridnodes_write(gn, "out.txt", ct);
    gridnodes_destroy(gn);
    vh_check(vh_files() == 0 && vh_live() == 0, "files are closed and memory released");
    f = fopen("out.txt", "r");
    vh_check(fgets(buf, 256, f) != NULL && sscanf(buf, "## %d x %d%1s", &nx, &ny, c) == 2 && nx == NX && ny == NY, "header is reproduced");
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            vh_check(nextis(f, cx[j][i], cy[j][i], ct), "nodes are written in order");
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
}

void h_c23_digits(void)
{
    static const double v[10] = { 123456.789012345, -0.000123456789012345, 98765432109876.5, 1.0e+300, 0.1, 1.23456789012345e-200, -179.999999999999, 0.0, 4503599.62737049, -1.0e-15 };
    int ct = vh_int(0, 2, "coordinates written");
    int a = vh_int(0, 9, "x"), b = vh_int(0, 9, "y");
    char buf[256], ref[256];
    gridnodes* gn;
    FILE* f = fopen("g.txt", "w");

    fprintf(f, "## 2 x 1\n%.17g %.17g\n%.17g %.17g\n", v[a], v[b], v[b], v[a]);
    fclose(f);
    gn = gridnodes_read("g.txt", NT_NONE);
    vh_check(gridnodes_getx(gn)[0][0] == v[a] && gridnodes_gety(gn)[0][0] == v[b] && gridnodes_getx(gn)[0][1] == v[b], "values are read with full precision");
    gridnodes_write(gn, "out.txt", ct);
    f = fopen("out.txt", "r");
    vh_check(fgets(buf, 256, f) != NULL && strcmp(buf, "## 2 x 1\n") == 0, "header is reproduced");
    if (ct == CT_XY)
        sprintf(ref, "%.15g %.15g\n", v[a], v[b]);
    else
        sprintf(ref, "%.15g\n", ct == CT_X ? v[a] : v[b]);
    vh_check(fgets(buf, 256, f) != NULL && strcmp(buf, ref) == 0, "15 significant digits are written");
    fclose(f);
    gridnodes_destroy(gn);
}

/* ------------------------------------------------------------- C24 */
static const char* headers[] = {
    /* 0-3: acceptable */
    "## 3 x 3\n", "##  3  x 3  and some text\n", "## 3 x 1\n", "## 1 x 3\n",
    /* 4-6: not acceptable for double density */
    "## 2 x 3\n", "## 3 x 2\n", "## 2 x 2\n",
    /* never acceptable */
    NULL, "\n", "# 3 x 3\n", "## 3 3\n", "3 x 3\n", "## x 3\n", "## 3 x\n", "## 3 by 3\n", "## 0 x 3\n", "## 3 x 0\n", "## -3 x 3\n", "## 3 x -1\n", "## -3 x -3\n",
    "## 0 x 0\n", "## 65536 x 65536\n", "## 100000 x 100000\n", "## 46341 x 46341\n", "## 2147483647 x 3\n", "## 3 x 2147483647\n", "## 65537 x 65536\n", "#", "##", "## 3",
    "NaN NaN\n", "## abc x def\n", "1 2\n", "LONG", "LONG3"
};

#define NHEAD ((int) (sizeof(headers) / sizeof(headers[0])))
static const char* tools[] = { "getnodes", "subgrid", "getbound", "xy2ij", "insertgrid" };

static int dims[7][2] = { {3, 3}, {3, 3}, {3, 1}, {1, 3}, {2, 3}, {3, 2}, {2, 2} };

static void longline(FILE* f, const char* s, int n)
{
    int k;

    for (k = 0; k < n; ++k)
        fputs(s, f);
}

static NODETYPE c24type;
static void c24read(void* arg)
{
    *(gridnodes**) arg = gridnodes_read("g.txt", c24type);
}

/* any header, any number of lines */
static void c24file(int h, int lines)
{
    FILE* f = fopen("g.txt", "w");
    int k;

    if (headers[h] == NULL)
        ;
    else if (strcmp(headers[h], "LONG") == 0) {
        longline(f, "#", 11000);
        fputs("\n", f);
    } else if (strcmp(headers[h], "LONG3") == 0) {
        longline(f, " ", 10237);
        fputs("## 3 x 3\n", f);
    } else
        fputs(headers[h], f);
    for (k = 0; k < lines; ++k)
        fprintf(f, "%d %d\n", k % 3, k / 3);
    fclose(f);
}

void h_c24(void)
{
    int h = vh_int(0, NHEAD - 1, "header");
    int n = h < 7 ? dims[h][0] * dims[h][1] : 9;
    int lines = headers[h] == NULL ? 0 : vh_int(0, n + 1, "number of lines");
    gridnodes* gn = NULL;
    int q;

    c24type = vh_int(0, 3, "node type");
    c24file(h, lines);
    q = vh_try(c24read, &gn);
    if (h > 6 || lines < n || (c24type == NT_DD && h > 3))
        vh_check(q, "malformed grid input is rejected");
    else {
        vh_check(!q, "well-formed grid input is accepted");
        vh_check(gridnodes_getnx(gn) == dims[h][0] && gridnodes_getny(gn) == dims[h][1], "the size is that of the header");
        gridnodes_destroy(gn);
    }
}

#if TOOLS >= 2
void h_c24_tools(void)
{
    int h = vh_int(0, NHEAD - 1, "header");
    int tool = vh_int(0, 4, "tool");
    int n = h < 7 ? dims[h][0] * dims[h][1] : 9;
    int lines = headers[h] == NULL ? 0 : h > 6 ? 9 : vh_int(n - 2, n, "number of lines");
    int dd = (tool == 0 || tool == 2) && vh_int(0, 1, "double density");
    int rc;
    char* argv[12];
    int argc = 0;
    FILE* f;

    c24file(h, lines);
    f = fopen("pts.txt", "w");
    fprintf(f, "0.5 0.5\n");
    fclose(f);
    f = fopen("m.txt", "w");
    fprintf(f, "## 3 x 3\n0 0\n1 0\n2 0\n0 1\n1 1\n2 1\n0 2\n1 2\n2 2\n");
    fclose(f);
    argv[argc++] = (char*) tools[tool];
    if (tool == 0) {
        argv[argc++] = "g.txt";
        argv[argc++] = "-i";
        argv[argc++] = dd ? "DD" : "CO";
        argv[argc++] = "-o";
        argv[argc++] = dd ? "CE" : "CO";
    } else if (tool == 1)
        argv[argc++] = "g.txt";
    else if (tool == 2) {
        argv[argc++] = "g.txt";
        argv[argc++] = "-i";
        argv[argc++] = dd ? "DD" : "CO";
    } else if (tool == 3) {
        argv[argc++] = "-g";
        argv[argc++] = "g.txt";
        argv[argc++] = "-o";
        argv[argc++] = "pts.txt";
    } else {
        argv[argc++] = "m.txt";
        argv[argc++] = "g.txt";
        argv[argc++] = "0";
        argv[argc++] = "0";
    }
    argv[argc] = NULL;
    rc = vh_main(tool == 0 ? getnodes_main : tool == 1 ? subgrid_main : tool == 2 ? getbound_main : tool == 3 ? xy2ij_main : insertgrid_main,
                 argc, argv, "g.txt", "out.txt", "err.txt");
    if (h > 6 || lines < n || (dd && h > 3)) {
        vh_check(rc != 0, "a tool fails on malformed grid input");
        vh_check(isempty("out.txt"), "nothing is written as result");
        vh_check(!isempty("err.txt"), "the error is reported");
    } else if (tool == 1 || (tool == 0 && (h < 2 || !dd)))
        vh_check(rc == 0 && !isempty("out.txt"), "well-formed grid input is accepted");
}
#endif

/* lines of arbitrary and excessive length: no access out of bounds */
void h_c24_long(void)
{
    static const int len[5] = { 10238, 10239, 10240, 10241, 25000 };
    static const char* s[3] = { "1", " ", "9 " };
    FILE* f = fopen("g.txt", "w");
    int k = vh_int(0, 4, "length"), c = vh_int(0, 2, "character"), where = vh_int(0, 2, "where"), j;
    gridnodes* gn = NULL;

    if (where == 0)
        longline(f, s[c], len[k]);
    fprintf(f, "## 2 x 1\n");
    for (j = 0; j < 2; ++j) {
        if (where == j + 1)
            longline(f, s[c], len[k]);
        fprintf(f, "1 2\n");
    }
    fclose(f);
    c24type = NT_NONE;
    if (!vh_try(c24read, &gn)) {
        vh_check(gridnodes_getnx(gn) == 2 && gridnodes_getny(gn) == 1, "the size is that of the header");
        gridnodes_destroy(gn);
    }
    vh_check(1, "no invalid access");
}

/* C23: long lines are lines, too */
void h_c23_long(void)
{
    static const int len[6] = { 120, 250, 1000, 2100, 5000, 10200 };
    static const char* t[4] = { "x", " ", "9 ", "# 7 7 " };
    double x = vh_real(-10, 10, "x"), y = vh_real(-10, 10, "y");
    int l = len[vh_int(0, 5, "length")], c = vh_int(0, 3, "text"), kind = vh_int(0, 3, "kind of line"), at = vh_int(0, 2, "which line"), k;
    FILE* f = fopen("g.txt", "w");
    gridnodes* gn;

    fprintf(f, "## 3 x 1\n");
    for (k = 0; k < 3; ++k) {
        double vx = k == at ? x : k + 1, vy = k == at ? y : 5 - k;

        if (k == at && kind == 3) {
            int n;

            /* leading blanks */
            for (n = 0; n < l; ++n)
                fputc(' ', f);
        } else if (k == at && kind == 2) {
            vx = vy = NAN;
            fprintf(f, "# ");
        }
        if (!isnan(vx))
            fprintf(f, "%.17g %.17g ", vx, vy);
        if (k == at && kind != 3) {
            int n;

            for (n = 0; n < l; n += strlen(t[c]))
                fputs(t[c], f);
        }
        fputc('\n', f);
    }
    fclose(f);
    gn = gridnodes_read("g.txt", NT_NONE);
    vh_check(gridnodes_getnx(gn) == 3 && gridnodes_getny(gn) == 1, "size is that of the header");
    for (k = 0; k < 3; ++k) {
        double vx = k == at ? x : k + 1, vy = k == at ? y : 5 - k, rx = gridnodes_getx(gn)[0][k], ry = gridnodes_gety(gn)[0][k];

        if (k == at && kind == 2)
            vh_check(isnan(rx) && isnan(ry), "a long comment is an invalid node");
        else
            vh_check(vh_near(rx, vx, 0.0) && vh_near(ry, vy, 0.0), "every line is one node, however long");
    }
    gridnodes_destroy(gn);
}

/* ------------------------------------------------------------- C31 */
static const char* masklines[] = { "0\n", "1\n", "\n", "2\n", "00\n", "01\n", "10\n", " 0\n", "0 \n", "-0\n", "1\r\n", "x\n", "1.0\n", "+1\n", "LONG0\n", "0 1\n" };

#define NML ((int) (sizeof(masklines) / sizeof(masklines[0])))
static void c31do(void* arg)
{
    *(int***) arg = gu_readmask("mask.txt", NX, NY);
}

void h_c31_lines(void)
{
    int n = vh_int(0, NX * NY + 1, "number of lines");
    int nonl = vh_int(0, 1, "last line without newline");
    int val[NX * NY + 1], good = n >= NX * NY, k, q;
    int** m = NULL;
    FILE* f = fopen("mask.txt", "w");

    for (k = 0; k < n; ++k) {
        int kind = vh_int(0, NML - 1, "kind of line");
        char s[20];

        strcpy(s, masklines[kind]);
        if (strcmp(s, "LONG0\n") == 0) {
            longline(f, "0", 10239);
            strcpy(s, "0\n");
        }
        if (nonl && k == n - 1)
            s[strlen(s) - 1] = 0;
        fputs(s, f);
        val[k] = kind;
        if (k < NX * NY && kind > 1)
            good = 0;
    }
    fclose(f);
    q = vh_try(c31do, &m);
    vh_check(!q == good, "a mask is accepted iff it holds enough lines of 0 or 1");
    if (q)
        return;
    for (k = 0; k < NX * NY; ++k)
        vh_check(m[k / NX][k % NX] == val[k], "values are returned in row-major order");
    gu_free2d(m);
    vh_check(vh_files() == 0 && vh_live() == 0, "files are closed and memory released");
}

/* all short byte strings over an alphabet */
void h_c31_bytes(void)
{
    static const char abc[8] = { '0', '1', '\n', ' ', '\r', '2', '\0', '\t' };
    int n = vh_int(0, NB, "length"), val[NX * NY], good = 1, nul = 0, k, p, q;
    char t[NB + 1];
    int** m = NULL;
    FILE* f = fopen("mask.txt", "w");

    for (k = 0; k < n; ++k) {
        t[k] = abc[vh_int(0, 7, "byte")];
        fputc(t[k], f);
        nul |= t[k] == 0;
    }
    fclose(f);
    for (k = 0, p = 0; k < NX * NY && good; ++k, p += 2) {
        good = p < n && (t[p] == '0' || t[p] == '1') && (p + 1 >= n || t[p + 1] == '\n');
        val[k] = good ? t[p] - '0' : 0;
    }
    q = vh_try(c31do, &m);
    if (!nul)
        vh_check(!q == good, "a mask is accepted iff it holds enough lines of 0 or 1");
    if (q)
        return;
    if (!nul)
        for (k = 0; k < NX * NY; ++k)
            vh_check(m[k / NX][k % NX] == val[k], "values are returned in row-major order");
    gu_free2d(m);
}
