/* C22: setbathy */
#include "toolh.h"

int setbathy_main(int argc, char* argv[]);

#if !defined(NX)
#define NX 2
#endif
#if !defined(NY)
#define NY 2
#endif

static const char* lines[] = { "1.25", "", "NaN", "  -3 4 text", "## 2 x 2", "\t7 ", "# comment", "-0.10", "%d %s%n", "12345678901234567890.123456789" };

static int same(FILE* f, const char* s)
{
    char buf[400];
    int n = 0, c;

    while (*s) {
        c = fgetc(f);
        if (c != (unsigned char) *s)
            return 0;
        s++;
    }
    return 1;
}

static void run(int win)
{
    int w[4] = { 0, NX - 1, 0, NY - 1 };
    int io = vh_int(0, 1, "-i given"), jo = vh_int(0, 1, "-j given");
    int dopt, off, trail, nonl, nlines, verb, i, j, k, rc, argc = 0, seed;
    char ib[40], jb[40], db[40], ob[20], exp[40];
    char* argv[16];
    FILE* f;

    if (io) {
        w[0] = vh_int(-1, NX, "imin");
        w[1] = vh_int(-1, NX, "imax");
    }
    if (jo) {
        w[2] = vh_int(-1, NY, "jmin");
        w[3] = vh_int(-1, NY, "jmax");
    }
    seed = w[0] + 2 * w[1] + 3 * w[2] + 5 * w[3] + 11;
    if (win) {
        dopt = seed & 1;
        off = seed / 2 % 3;
        trail = seed / 3 % 3;
        nonl = seed / 5 & 1;
        nlines = NX * NY;
    } else {
        dopt = vh_int(0, 1, "-d given");
        off = vh_int(0, 2, "lines skipped");
        trail = vh_int(0, 2, "lines after");
        nonl = vh_int(0, 1, "last line without newline");
        nlines = vh_int(0, NX * NY, "lines of data");
        if (nlines < NX * NY)
            trail = 0;
    }
    verb = seed % 7 == 0;
    f = fopen("b.txt", "w");
    for (k = 0; k < off; ++k)
        fprintf(f, "%s\n", lines[(seed + k + 4) % 10]);
    if (!dopt)
        fprintf(f, "## %d x %d\n", NX, NY);
    for (k = 0; k < nlines; ++k) {
        int last = nonl && k == nlines - 1 && trail == 0;
        const char* s = lines[(seed + k) % 10];

        /* an empty last line without newline is no line */
        fprintf(f, "%s%s", last && *s == 0 ? "9" : s, last ? "" : "\n");
    }
    for (k = 0; k < trail; ++k)
        fprintf(f, "after%d%s", k, k == trail - 1 && nonl ? "" : "\n");
    fclose(f);
    sprintf(ib, "%d:%d", w[0], w[1]);
    sprintf(jb, "%d:%d", w[2], w[3]);
    sprintf(db, "%dx%d", NX, NY);
    sprintf(ob, "%d", off);
    argv[argc++] = "setbathy";
    if (seed & 1)
        argv[argc++] = "b.txt";
    if (io) {
        argv[argc++] = "-i";
        argv[argc++] = ib;
    }
    if (dopt) {
        argv[argc++] = "-d";
        argv[argc++] = db;
    }
    argv[argc++] = "-z";
    argv[argc++] = "-77.50x%d";
    if (off || (seed & 2)) {
        argv[argc++] = "-o";
        argv[argc++] = ob;
    }
    if (jo) {
        argv[argc++] = "-j";
        argv[argc++] = jb;
    }
    if (verb)
        argv[argc++] = "-v";
    if (!(seed & 1))
        argv[argc++] = (seed & 2) ? "-" : "b.txt";
    argv[argc] = NULL;
    rc = vh_main(setbathy_main, argc, argv, "b.txt", "out.txt", "err.txt");
    if (nlines < NX * NY) {
        vh_check(rc != 0, "missing data is an error");
        return;
    }
    vh_check(rc == 0, "exit status is 0");
    f = fopen("out.txt", "r");
    for (k = 0; k < off; ++k) {
        sprintf(exp, "%s\n", lines[(seed + k + 4) % 10]);
        vh_check(same(f, exp), "skipped lines pass through unchanged");
    }
    for (j = 0, k = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i, ++k) {
            int last = nonl && k == nlines - 1 && trail == 0;
            const char* s = lines[(seed + k) % 10];

            if ((!io || (i >= w[0] && i <= w[1])) && (!jo || (j >= w[2] && j <= w[3])))
                vh_check(same(f, "-77.50x%d\n"), "lines in the window are replaced");
            else {
                sprintf(exp, "%s%s", last && *s == 0 ? "9" : s, last ? "" : "\n");
                vh_check(same(f, exp), "lines outside the window are unchanged");
            }
        }
    for (k = 0; k < trail; ++k) {
        sprintf(exp, "after%d%s", k, k == trail - 1 && nonl ? "" : "\n");
        vh_check(same(f, exp), "trailing lines pass through unchanged");
    }
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
}

void h_window(void)
{
    run(1);
}

void h_stream(void)
{
    run(0);
}

/* long lines pass through whole: skipped, outside the window, after the data */
static const int lens[] = { 255, 511, 1023, 1024, 2047, 4095, 5000, 8191, 10237, 10238 };

static char longc(int k)
{
    return "3 x.#5"[k % 6];
}

static void putlong(FILE* f, int n)
{
    int k;

    for (k = 0; k < n; ++k)
        fputc(longc(k), f);
}

static int samelong(FILE* f, int n)
{
    int k;

    for (k = 0; k < n; ++k)
        if (fgetc(f) != longc(k))
            return 0;
    return 1;
}

void h_long(void)
{
    int n = lens[vh_int(0, 9, "length")], where = vh_int(0, 4, "where"), nl = vh_int(0, 1, "newline at the end"), k, rc;
    char* argv[] = { "setbathy", "b.txt", "-z", "7", "-i", "0:0", "-j", "0:1", "-o", "1", NULL };
    static const char* exp[6] = { "first\n", "", "7\n", "b\n", "7\n", "after" };
    static const char* data[6] = { "first\n", "## 2 x 2\n", "a\n", "b\n", "c\n", "after" };
    static const int at[5] = { 0, 2, 3, 4, 6 }; /* skipped, in, out, in, after */
    FILE* f = fopen("b.txt", "w");

    for (k = 0; k < 6; ++k) {
        if (k == 5)
            fputs("d\n", f);
        if (k == at[where] || (k == 5 && where == 4)) {
            putlong(f, n);
            if (k < 5)
                fputc('\n', f);
        } else
            fputs(data[k], f);
    }
    if (nl)
        fputc('\n', f);
    fclose(f);
    argv[10] = NULL;
    rc = vh_main(setbathy_main, 10, argv, "b.txt", "out.txt", "err.txt");
    vh_check(rc == 0, "exit status is 0");
    f = fopen("out.txt", "r");
    for (k = 0; k < 6; ++k) {
        if (k == 5)
            vh_check(same(f, "d\n"), "lines outside the window are unchanged");
        if ((k == at[where] || (k == 5 && where == 4)) && (k == 0 || k == 3 || k == 5)) {
            vh_check(samelong(f, n), "long lines pass through unchanged");
            if (k < 5)
                vh_check(fgetc(f) == '\n', "long lines pass through unchanged");
        } else
            vh_check(same(f, exp[k]), "the lines in the window are replaced, others unchanged");
    }
    if (nl)
        vh_check(fgetc(f) == '\n', "the end of the input is unchanged");
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
}

/* errors */
void h_errors(void)
{
    static const char* head[] = { "", "\n", "## 0 x 2\n", "## 2 x 0\n", "## -1 x 2\n", "## 2 x -1\n", "# 2 x 2\n", "2 x 2\n", "## 2\n", "## a x b\n", "1\n", "## 65536 x 65536\n", "## 2 2\n" };
    static char* dim[] = { "0x2", "2x0", "2x-1", "65536x65536", "2", "abc", "2,2" };
    int kind = vh_int(0, 3, "kind of error"), rc, argc = 0, k;
    char* argv[12];
    FILE* f = fopen("b.txt", "w");

    argv[argc++] = "setbathy";
    argv[argc++] = "b.txt";
    if (kind == 0)
        fputs(head[vh_int(0, 12, "header")], f);
    else if (kind == 1) {
        argv[argc++] = "-d";
        argv[argc++] = dim[vh_int(0, 6, "dimensions")];
    } else if (kind == 2)
        fputs("## 2 x 2\n", f);
    else {
        argv[argc++] = "-o";
        argv[argc++] = "9";
    }
    if (kind != 2) {
        argv[argc++] = "-z";
        argv[argc++] = "5";
    }
    for (k = 0; k < 4; ++k)
        fprintf(f, "%d\n", k);
    fclose(f);
    argv[argc] = NULL;
    rc = vh_main(setbathy_main, argc, argv, "b.txt", "out.txt", "err.txt");
    if (kind == 1) {
        /* (an unreadable -d prints the usage) */
        FILE* o = fopen("out.txt", "r");
        char buf[200];

        vh_check(rc != 0 || (fgets(buf, 200, o) != NULL && strstr(buf, "Usage") != NULL), "unusable dimensions end with an error or the usage");
        fclose(o);
        return;
    }
    vh_check(rc != 0 && !isempty("err.txt"), "it ends with an error");
    f = fopen("out.txt", "r");
    {
        char buf[200];

        while (fgets(buf, 200, f) != NULL)
            vh_check(kind == 3 && strcmp(buf, "5\n") != 0, "nothing is made up");
    }
    fclose(f);
}
