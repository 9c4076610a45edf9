/* C27: xy2ij */
#include "toolh.h"

int xy2ij_main(int argc, char* argv[]);

#if !defined(NL)
#define NL 2
#endif

static const double gx[3] = { 0, 1, 4 }, gy[3] = { 0, 2, 3 };

/* a rectangular grid of 2 x 2 cells, the last one invalid */
static void mkgrid(int dd)
{
    double x[25], y[25];
    int i, j;

    if (!dd) {
        for (j = 0; j < 3; ++j)
            for (i = 0; i < 3; ++i) {
                x[j * 3 + i] = i == 2 && j == 2 ? NAN : gx[i];
                y[j * 3 + i] = gy[j];
            }
        writegrid("g.txt", 3, 3, x, y);
    } else {
        for (j = 0; j < 5; ++j)
            for (i = 0; i < 5; ++i) {
                x[j * 5 + i] = i == 4 && j == 4 ? NAN : i % 2 ? (gx[i / 2] + gx[i / 2 + 1]) / 2 : gx[i / 2];
                y[j * 5 + i] = j % 2 ? (gy[j / 2] + gy[j / 2 + 1]) / 2 : gy[j / 2];
            }
        writegrid("g.txt", 5, 5, x, y);
    }
}

/* 0: fails, 1: converted, 2: "NaN NaN" without failing */
static int expected(int reverse, double a, double b, double* ea, double* eb)
{
    if (isnan(a) || isnan(b))
        return 0;
    if (!reverse) {
        if (a < 0 || a > 4 || b < 0 || b > 3)
            return 0;
        if (a > 1 && b > 2)
            return 0;
        *ea = a <= 1 ? a : 1 + (a - 1) / 3;
        *eb = b <= 2 ? b / 2 : 1 + (b - 2);
        return 1;
    }
    if (a < 0 || a > 2 || b < 0 || b > 2)
        return 0;
    if (a > 1 && b > 1)
        return 2;
    *ea = a <= 1 ? a : 1 + (a - 1) * 3;
    *eb = b <= 1 ? b * 2 : 2 + (b - 1);
    return 1;
}

static const char* copied[5] = { "# 0.5 0.5 comment", "", "0.5", "abc 0.5 0.5", "   \t" };
static const char* rests[4] = { "", "7.5 rest  of the line ", "# %d %s", "NaN" };

/* is the next line the pair given and the rest */
static int nextpair(FILE* f, int nan, double a, double b, const char* rest)
{
    char buf[400], s[128], t[128];
    int n = 0, k;

    if (fgets(buf, 400, f) == NULL)
        return 0;
    k = (int) strlen(buf);
    if (k == 0 || buf[k - 1] != '\n')
        return 0;
    buf[k - 1] = 0;
    if (sscanf(buf, "%100s %100s%n", s, t, &n) < 2)
        return 0;
    if (nan) {
        if (strcmp(s, "NaN") != 0 || strcmp(t, "NaN") != 0)
            return 0;
    } else if (!vh_near(atof(s), a, 1.0e-7) || !vh_near(atof(t), b, 1.0e-7))
        return 0;
    while (buf[n] == ' ' || buf[n] == '\t')
        n++;
    return strcmp(buf + n, rest) == 0;
}

/* the numbers reported in verbose mode: the last three in the text */
static void reported(int total, int good)
{
    FILE* f = fopen("err.txt", "r");
    long v[3] = { -1, -1, -1 };
    int c, in = 0;

    while ((c = fgetc(f)) != EOF) {
        if (c >= '0' && c <= '9') {
            if (!in) {
                v[0] = v[1];
                v[1] = v[2];
                v[2] = 0;
            }
            v[2] = v[2] * 10 + (c - '0');
            in = 1;
        } else
            in = 0;
    }
    fclose(f);
    vh_check(v[0] == total && v[1] == good && v[2] == total - good, "verbose mode reports the numbers of points, converted and failed");
}

void h_stream(void)
{
    int reverse = vh_int(0, 1, "-r"), force = vh_int(0, 1, "-f");
    int sym = vh_int(0, NL - 1, "line with any point");
    int kind[NL], kt, dd, nonl, verb, sum = 0, k, rc, argc = 0, failed = 0, total = 0, good = 0;
    double a[NL], b[NL];
    const char* rest[NL];
    char* argv[16];
    FILE* f;

    for (k = 0; k < NL; ++k) {
        /* 0: any point, 1: inside, 2: outside, 3: NaN, 4...: copied */
        kind[k] = k == sym ? 0 : vh_int(1, 8, "kind of line");
        sum += (k + 1) * kind[k];
    }
    kt = vh_int(0, 1, "-k");
    dd = (sum + reverse) & 1;
    nonl = (sum / 2 + force) & 1;
    verb = sum % 5 == 0;
    f = fopen("p.txt", "w");
    for (k = 0; k < NL; ++k) {
        const char* nl = nonl && k == NL - 1 ? "" : "\n";

        rest[k] = rests[(sum + k) & 3];
        a[k] = b[k] = NAN;
        if (kind[k] == 0) {
            a[k] = vh_real(-1, 5, "first coordinate");
            b[k] = vh_real(-1, 4, "second coordinate");
        } else if (kind[k] == 1) {
            a[k] = reverse ? 0.25 : 2.5;
            b[k] = reverse ? 1.5 : 0.5;
        } else if (kind[k] == 2) {
            a[k] = reverse ? -0.5 : 3.5;
            b[k] = 2.75;
        }
        if (kind[k] <= 2)
            fprintf(f, "%s%.17g %.17g%s%s%s", sum & 1 ? " " : "", a[k], b[k], *rest[k] ? "  " : "", rest[k], nl);
        else if (kind[k] == 3)
            fprintf(f, "NaN NaN %s%s", rest[k], nl);
        else
            fprintf(f, "%s%s", copied[kind[k] - 4], nl);
    }
    fclose(f);
    mkgrid(dd);
    argv[argc++] = "xy2ij";
    if (force)
        argv[argc++] = "-f";
    argv[argc++] = "-o";
    argv[argc++] = (sum & 2) ? "p.txt" : "-";
    if (kt)
        argv[argc++] = "-k";
    if (!dd || (sum & 4)) {
        argv[argc++] = "-i";
        argv[argc++] = dd ? "dd" : "CO";
    }
    if (verb)
        argv[argc++] = "-v";
    argv[argc++] = "-g";
    argv[argc++] = "g.txt";
    if (reverse)
        argv[argc++] = "-r";
    argv[argc] = NULL;
    rc = vh_main(xy2ij_main, argc, argv, "p.txt", "out.txt", "err.txt");
    f = fopen("out.txt", "r");
    for (k = 0; k < NL && !failed; ++k) {
        if (kind[k] <= 3) {
            double ea = NAN, eb = NAN;
            int r;

            if (kind[k] == 3 && reverse && !force) {
                /* NaN indices: either way is fine */
                fclose(f);
                return;
            }
            r = expected(reverse, a[k], b[k], &ea, &eb);
            total++;
            good += r == 1;
            if (r == 0 && !force)
                failed = 1;
            else
                vh_check(nextpair(f, r != 1, ea, eb, rest[k]), "the converted pair is followed by the rest of the line");
        } else {
            char buf[200], exp[200];

            sprintf(exp, "%s%s", copied[kind[k] - 4], nonl && k == NL - 1 ? "" : "\n");
            if (*exp)
                vh_check(fgets(buf, 200, f) != NULL && strcmp(buf, exp) == 0, "other lines are copied unchanged");
        }
    }
    if (failed)
        vh_check(rc != 0 && !isempty("err.txt"), "a point that cannot be converted ends the run with an error");
    else
        vh_check(rc == 0, "exit status is 0");
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
    if (verb && !failed)
        reported(total, good);
}

/* all digits of the result are written */
void h_digits(void)
{
    static const double v[6] = { 123456.789012345, -0.000123456789012345, 98765432109876.5, -179.999999999999, 0.1, 4503599.62737049 };
    int a = vh_int(0, 5, "x"), b = vh_int(0, 5, "y"), k = vh_int(0, 3, "node");
    char* argv[] = { "xy2ij", "-r", "-g", "g.txt", "-o", "p.txt", "-i", "CO", NULL };
    double x[4] = { 0, 1, 0, 1 }, y[4] = { 0, 0, 1, 1 };
    char ref[100], buf[100];
    FILE* f;
    int rc;

    for (rc = 0; rc < 4; ++rc) {
        x[rc] = v[a] + (rc & 1) * fabs(v[a]) / 2;
        y[rc] = v[b] + (rc >> 1) * fabs(v[b]) / 2;
    }
    x[k] = v[a];
    y[k] = v[b];
    writegrid("g.txt", 2, 2, x, y);
    f = fopen("p.txt", "w");
    fprintf(f, "%d %d\n", k & 1, k >> 1);
    fclose(f);
    rc = vh_main(xy2ij_main, 8, argv, "p.txt", "out.txt", "err.txt");
    vh_check(rc == 0, "exit status is 0");
    sprintf(ref, "%.15g %.15g", v[a], v[b]);
    f = fopen("out.txt", "r");
    vh_check(fgets(buf, 100, f) != NULL && strncmp(buf, ref, strlen(ref)) == 0, "15 significant digits are written");
    fclose(f);
}

/* long lines: the rest of a point, or a line without one */
static char longc(int k)
{
    return "3 x.#5"[k % 6];
}

void h_long(void)
{
    static const int lens[] = { 255, 511, 1023, 1024, 2047, 4095, 5000, 8191, 10228, 10229 };
    int n = lens[vh_int(0, 9, "length")], kind = vh_int(0, 2, "kind of line"), nl = vh_int(0, 1, "newline at the end"), k, rc;
    int reverse = vh_int(0, 1, "-r");
    char* argv[] = { "xy2ij", "-f", "-g", "g.txt", "-o", "p.txt", "-i", "CO", reverse ? "-r" : NULL, NULL };
    static const char* head[3] = { "0.5 1 ", "-9 8.5 ", "comment: " };
    FILE* f = fopen("p.txt", "w");
    char buf[64];

    fputs("0.5 1 one\n", f);
    fputs(head[kind], f);
    for (k = 0; k < n; ++k)
        fputc(longc(k), f);
    fputs("\n1 2 three", f);
    if (nl)
        fputc('\n', f);
    fclose(f);
    mkgrid(0);
    rc = vh_main(xy2ij_main, 8 + reverse, argv, "p.txt", "out.txt", "err.txt");
    vh_check(rc == 0, "exit status is 0");
    f = fopen("out.txt", "r");
    vh_check(nextpair(f, 0, 0.5, reverse ? 2 : 0.5, "one"), "the converted pair is followed by the rest of the line");
    if (kind == 0) {
        double a, b;

        vh_check(fscanf(f, "%lf %lf ", &a, &b) == 2 && a == 0.5 && vh_near(b, reverse ? 2 : 0.5, 1.0e-7), "the pair of a long line is converted");
    } else if (kind == 1)
        vh_check(fgets(buf, 9, f) != NULL && strcmp(buf, "NaN NaN ") == 0, "the pair of a long line is converted");
    else
        vh_check(fgets(buf, 10, f) != NULL && strcmp(buf, head[2]) == 0, "other lines are copied unchanged");
    for (k = 0; k < n; ++k)
        vh_check(fgetc(f) == longc(k), "the rest of a long line is written");
    vh_check(fgetc(f) == '\n', "the rest of a long line is written");
    vh_check(nextpair(f, 0, 1, reverse ? 3 : 1, "three"), "the next line is converted");
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
}
