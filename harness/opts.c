/* C34: command lines of the utilities.
 *
 * A reference parser (from the documentation) decides for a command line made
 * of symbolically chosen words whether it is acceptable and what its settings
 * are. An unacceptable one must end with an error or with the usage, help or
 * version text, and write no data; an acceptable one must write what the same
 * utility writes for these settings given one by one in a fixed order, the
 * defaults spelled out, without "-v". */
#include "vh.h"
#include <strings.h>
#define GETBOUND 1
#define GETNODES 2
#define SUBGRID 3
#define INSERTGRID 4
#define SETBATHY 5
#define XY2IJ 6
#define GRIDBATHY 7

enum { FLAG, TYPE, STR, INT, NUM2, STR2, DIM, RULE, HELP, VERB };

typedef struct {
    char c;                     /* letter */
    int kind;
    int slot;
    const char* types;          /* node types accepted */
    char* def;                  /* documented default */
} opt;

/* words: 'files' come first; groups are complete options */
#if TOOL == GETBOUND
#define MAIN getbound_main
#define NAME "getbound"
static opt opts[] = { {'i', TYPE, 0, "ddco", "dd"}, {'c', FLAG, 1}, {'r', FLAG, 2}, {'h', HELP}, {'v', VERB}, {0} };
static char* words[] = { "g.txt", "h.txt", "-", "-i", "DD", "cO", "ce", "-c", "-r", "-v", "-h", "-q", "", "--", "d", "no.txt" };
static char* groups[][4] = { {"g.txt"}, {"h.txt"}, {"-i", "co"}, {"-i", "Dd"}, {"-c"}, {"-r"}, {"-v"}, {"-"} };
#define POS 1                   /* the last file name counts */
#elif TOOL == GETNODES
#define MAIN getnodes_main
#define NAME "getnodes"
static opt opts[] = { {'i', TYPE, 0, "ddcoce", "dd"}, {'o', TYPE, 1, "ddcoce", "dd"}, {'x', FLAG, 2}, {'y', FLAG, 2}, {'m', STR, 3}, {'h', HELP}, {'v', VERB}, {0} };
static char* words[] = { "g.txt", "-", "-i", "-o", "DD", "Co", "ce", "-m", "m.txt", "-x", "-y", "-v", "-h", "-q", "", "cen" };
static char* groups[][4] = { {"g.txt"}, {"h.txt"}, {"-i", "co"}, {"-i", "Dd"}, {"-o", "cE"}, {"-o", "CO"}, {"-x"}, {"-y"}, {"-m", "m.txt"}, {"-v"} };
#define POS 1
#elif TOOL == SUBGRID
#define MAIN subgrid_main
#define NAME "subgrid"
static opt opts[] = { {'i', STR, 0}, {'j', STR, 1}, {'x', FLAG, 2}, {'y', FLAG, 2}, {'h', HELP}, {'v', VERB}, {0} };
static char* words[] = { "g.txt", "h.txt", "-", "-i", "0:1", "1:2", "-j", "-x", "-y", "-v", "-h", "-q", "" };
static char* groups[][4] = { {"g.txt"}, {"h.txt"}, {"-i", "0:1"}, {"-i", "1:2"}, {"-j", "1:1"}, {"-j", "1:2"}, {"-x"}, {"-y"}, {"-v"}, {"-"} };
#define POS 1
#elif TOOL == INSERTGRID
#define MAIN insertgrid_main
#define NAME "insertgrid"
static opt opts[] = { {'i', TYPE, 4, "ddcoce", NULL}, {'m', FLAG, 5}, {'h', HELP}, {'v', VERB}, {0} };
static char* words[] = { "g.txt", "h.txt", "-", "1", "2", "-i", "co", "DD", "ce", "x", "-m", "-v", "-h", "-q" };
static char* groups[][4] = { {"h.txt"}, {"1"}, {"2"}, {"-"}, {"-i", "co"}, {"-i", "dD"}, {"-i", "CE"}, {"-m"}, {"-v"} };
#define POS 2                   /* two files and two numbers */
#elif TOOL == SETBATHY
#define MAIN setbathy_main
#define NAME "setbathy"
static opt opts[] = { {'i', STR, 0}, {'j', STR, 1}, {'d', DIM, 2}, {'o', STR, 3, NULL, "0"}, {'z', STR, 4}, {'v', VERB}, {0} };
static char* words[] = { "b.txt", "c.txt", "-", "-i", "0:1", "1:2", "-j", "-d", "2x2", "-o", "1", "-z", "-7", "-v", "-q", "" };
static char* groups[][4] = { {"b.txt"}, {"c.txt"}, {"-i", "0:0"}, {"-i", "1:2"}, {"-j", "1:1"}, {"-d", "2x3"}, {"-d", "3x2"}, {"-o", "1"}, {"-z", "-7"}, {"-z", "8"}, {"-v"} };
#define POS 1
#elif TOOL == XY2IJ
#define MAIN xy2ij_main
#define NAME "xy2ij"
static opt opts[] = { {'g', STR, 0}, {'o', STR, 1}, {'i', TYPE, 2, "ddco", "dd"}, {'f', FLAG, 3}, {'k', FLAG, 4}, {'r', FLAG, 5}, {'h', HELP}, {'v', VERB}, {0} };
static char* words[] = { "g.txt", "p.txt", "-g", "-o", "-i", "co", "DD", "Ce", "-f", "-k", "-r", "-v", "-h", "-q", "" };
static char* groups[][4] = { {"-g", "g.txt"}, {"-g", "h.txt"}, {"-o", "p.txt"}, {"-o", "q.txt"}, {"-i", "cO"}, {"-i", "DD"}, {"-f"}, {"-k"}, {"-r"}, {"-v"}, {"-o", "-"} };
#define POS 0                   /* no other words */
#else
#define MAIN gridbathy_main
#define NAME "gridbathy"
static opt opts[] = { {'b', STR, 0}, {'g', STR, 1}, {'i', TYPE, 2, "ddco", "dd"}, {'a', RULE, 3, NULL, "0"}, {'n', INT, 4, NULL, "3"}, {'c', STR2, 5}, {'m', STR, 6}, {'r', NUM2, 7, NULL, "-1.0e300"}, {'x', FLAG, 8}, {'h', HELP}, {'v', VERB}, {0} };
static char* words[] = { "b", "m.txt", "-i", "co", "ce", "-a", "4", "5", "-n", "0", "-c", "-m", "-r", "2", "-x", "-v", "-h", "-q", "" };
static char* groups[][4] = { {"-g", "h.txt"}, {"-b", "e.txt"}, {"-i", "Co"}, {"-i", "dd"}, {"-a", "4"}, {"-a", "0"}, {"-n", "1"}, {"-n", "3"}, {"-c", "0", "0"}, {"-m", "m.txt"}, {"-r", "2", "5"}, {"-x"}, {"-v"} };
#define POS 0
#endif

#define NW ((int) (sizeof(words) / sizeof(words[0])))
#define NG ((int) (sizeof(groups) / sizeof(groups[0])))
#define NSLOT 10

int MAIN(int argc, char* argv[]);

static char* file[4];           /* positional words */
static char* val[NSLOT][3];

static int isnum(const char* s)
{
    if (*s == '-')
        s++;
    if (*s == 0)
        return 0;
    for (; *s; ++s)
        if (*s < '0' || *s > '9')
            return 0;
    return 1;
}

static int typeok(const char* s, const char* list)
{
    for (; *list; list += 2)
        if (strlen(s) == 2 && (s[0] | 32) == list[0] && (s[1] | 32) == list[1])
            return 1;
    return 0;
}

/* 1 if this command line is to be run */
static int parse(int argc, char* argv[])
{
    int i, k, nf = 0, verb = 0;

    for (i = 1; i < argc; ++i) {
        char* w = argv[i];

        if (w[0] != '-' || w[1] == 0) {
            if (POS == 0)
                return 0;
            if (POS == 1)
                file[0] = w;
            else {
                if (nf == 4 || (w[0] == '-' && nf >= 2))
                    return 0;
                file[nf++] = w;
            }
            continue;
        }
        for (k = 0; opts[k].c != 0 && opts[k].c != w[1]; ++k);
        if (opts[k].c == 0 || opts[k].kind == HELP)
            return 0;
        if (opts[k].kind == VERB) {
            verb = 1;
            continue;
        }
        val[opts[k].slot][0] = w;
        if (opts[k].kind == FLAG)
            continue;
        if (++i == argc)
            return 0;
        val[opts[k].slot][1] = argv[i];
        if (opts[k].kind == TYPE && !typeok(argv[i], opts[k].types))
            return 0;
        if (opts[k].kind == INT && !isnum(argv[i]))
            return 0;
        if (opts[k].kind == DIM) {
            int a, b;

            if (sscanf(argv[i], "%dx%d", &a, &b) != 2)
                return 0;
        }
        if (opts[k].kind == RULE && isnum(argv[i]) && (atoi(argv[i]) < 0 || atoi(argv[i]) > 4))
            return 0;
        if (opts[k].kind == NUM2 || opts[k].kind == STR2) {
            if (++i == argc)
                return 0;
            val[opts[k].slot][2] = argv[i];
            if (opts[k].kind == NUM2 && (!isnum(argv[i - 1]) || !isnum(argv[i])))
                return 0;
        }
    }
    if (verb && argc == 2)
        return 0;
#if TOOL == SETBATHY
    if (val[4][1] == NULL)
        return 0;
#elif TOOL == XY2IJ || TOOL == GRIDBATHY
    if (val[0][1] == NULL || val[1][1] == NULL)
        return 0;
#endif
#if TOOL == GRIDBATHY
    if (val[4][1] != NULL && atoi(val[4][1]) <= 0)
        return 0;
    if (val[7][1] != NULL && atoi(val[7][1]) >= atoi(val[7][2]))
        return 0;
#endif
    if (POS == 1 && file[0] == NULL)
        return 0;
    if (POS == 2 && nf < 4)
        return 0;
    return 1;
}

/* lower case copies of the node types */
static char* canon(const char* s)
{
    static char* t[] = { "dd", "co", "ce" };
    int k;

    for (k = 0; k < 3; ++k)
        if (typeok(s, t[k]))
            return t[k];
    return NULL;
}

static int canonical(char* out[])
{
    int k, n = 0, s;

    out[n++] = NAME;
    for (k = 0; k < (POS == 1 ? 1 : POS == 2 ? 4 : 0); ++k)
        out[n++] = file[k];
    for (s = 0; s < NSLOT; ++s)
        for (k = 0; opts[k].c != 0; ++k) {
            static char o[NSLOT][3];

            if (opts[k].kind == HELP || opts[k].kind == VERB || opts[k].slot != s || (val[s][0] != NULL && val[s][0][1] != opts[k].c) || (val[s][0] == NULL && opts[k].def == NULL))
                continue;
            o[s][0] = '-';
            o[s][1] = opts[k].c;
            o[s][2] = 0;
            out[n++] = o[s];
            if (opts[k].kind == FLAG)
                continue;
            if (val[s][0] == NULL) {
                out[n++] = opts[k].def;
                if (opts[k].kind == NUM2)
                    out[n++] = "1.0e300";
            } else {
                out[n++] = opts[k].kind == TYPE ? canon(val[s][1]) : val[s][1];
                if (val[s][2] != NULL)
                    out[n++] = val[s][2];
            }
        }
    out[n] = NULL;
    return n;
}

static void put(const char* fname, const char* text)
{
    FILE* f = fopen(fname, "w");

    fputs(text, f);
    fclose(f);
}

static void files(int verb)
{
#if TOOL == XY2IJ || TOOL == GRIDBATHY
    double t = 0.25;
#else
    double t = TOOL == GETNODES && verb ? 0.25 : vh_real(0, 0.5, "node");       /* (statistics need arc cosines) */
#endif
    double w = vh_real(1.2, 1.8, "value");
    FILE* f;
    int k;

    for (k = 0; k < 2; ++k) {
        f = fopen(k ? "h.txt" : "g.txt", "w");
        fprintf(f, "## 3 x 3\n%.17g 0\n1 0\n2 0\n0 1\n1 1\n2 1\n0 2\n1 2\n%d 2\n", t, k ? 3 : 2);
        fclose(f);
    }
    put("m.txt", "1\n0\n1\n1\n");
    f = fopen("b.txt", "w");
    fprintf(f, "## 2 x 3\n%.17g\n2\n3\n4\n5\n6\n", w);
    fclose(f);
    put("c.txt", "## 2 x 2\n11\n12\n13\n14\n15\n16\n");
    f = fopen("p.txt", "w");
    fprintf(f, "%.17g 0.75 a\n0.5 1.25\ntext\n", w);
    fclose(f);
    put("q.txt", "1.25 0.5\n7 7\n1.5 1.75 b\n");
    f = fopen("d.txt", "w");
    fprintf(f, "0.5 0.5 %.17g\n1.5 0.5 3\n0.5 1.5 4\n1.25 1.25 5\n", w);
    fclose(f);
    put("e.txt", "0.5 0.5 7\n1.5 0.5 6\n0.5 1.5 5\n1.25 1.25 9\n");
    /* what the stand-ins of the interpolation libraries answer with */
    put("ans.txt", "function\n");
}

static void run(int argc, char* argv[])
{
    static char a[300], b[300];
    char* cargv[40];
    int rc, rc2, cargc, ok, k, verb = 0;
    FILE *f, *g;

    argv[argc] = NULL;
    for (k = 1; k < argc; ++k)
        verb |= argv[k][0] == '-' && argv[k][1] == 'v';
    files(verb);
    ok = parse(argc, argv);
    rc = vh_main(MAIN, argc, argv, "g.txt", "out.txt", "err.txt");
    if (!ok) {
        f = fopen("out.txt", "r");
        a[0] = 0;
        if (fgets(a, 300, f) == NULL)
            vh_check(rc != 0, "an unacceptable command line ends with an error or the usage");
        else
            vh_check(strstr(a, "Usage") != NULL || strstr(a, "version") != NULL, "an unacceptable command line gives no data");
        fclose(f);
        return;
    }
    cargc = canonical(cargv);
    rc2 = vh_main(MAIN, cargc, cargv, "g.txt", "out2.txt", "err2.txt");
    vh_check(rc == rc2, "the same exit status in whatever way the settings are given");
    f = fopen("out.txt", "r");
    g = fopen("out2.txt", "r");
    for (;;) {
        int e1 = fscanf(f, "%250s", a), e2 = fscanf(g, "%250s", b);

        vh_check(e1 == e2, "the same output in whatever way the settings are given");
        if (e1 != 1)
            break;
        vh_check(strcmp(a, b) == 0 || vh_near(atof(a), atof(b), 1.0e-12), "the same output in whatever way the settings are given");
    }
    fclose(f);
    fclose(g);
    f = fopen("out.txt", "r");
    if (fgets(a, 300, f) != NULL)
        vh_check(strstr(a, "Usage") == NULL && strstr(a, "version") == NULL, "an acceptable command line is run");
    fclose(f);
}

static int start(char* argv[])
{
    int n = 0;

    argv[n++] = NAME;
#if TOOL == GRIDBATHY
    argv[n++] = "-b";
    argv[n++] = "d.txt";
    argv[n++] = "-g";
    argv[n++] = "g.txt";
#endif
    return n;
}

/* any words */
void h_words(void)
{
    char* argv[20];
    int n = vh_int(0, NWORD, "words"), k, argc = 0;
    int pre = vh_int(0, 1, "required ones given");

    if (pre) {
        argc = start(argv);
#if TOOL == XY2IJ
        argv[argc++] = "-g";
        argv[argc++] = "g.txt";
        argv[argc++] = "-o";
        argv[argc++] = "p.txt";
#elif TOOL == SETBATHY
        argv[argc++] = "-z";
        argv[argc++] = "5";
        argv[argc++] = "b.txt";
#elif TOOL == INSERTGRID
        argv[argc++] = "g.txt";
        argv[argc++] = "h.txt";
        argv[argc++] = "1";
#elif TOOL != GRIDBATHY
        argv[argc++] = "g.txt";
#endif
    } else
        argv[argc++] = NAME;
    for (k = 0; k < n; ++k)
        argv[argc++] = words[vh_int(0, NW - 1, "word")];
    run(argc, argv);
}

/* complete options in any order, repeated or not */
void h_groups(void)
{
    char* argv[40];
    int n = NGROUP, k, l, argc = start(argv), at = vh_int(0, n, "place of the required ones");

    for (k = 0; k <= n; ++k) {
        char** g;

        if (k == at) {
#if TOOL == XY2IJ
            argv[argc++] = "-g";
            argv[argc++] = "h.txt";
            argv[argc++] = "-o";
            argv[argc++] = "p.txt";
#elif TOOL == SETBATHY
            argv[argc++] = "-z";
            argv[argc++] = "5";
            argv[argc++] = "b.txt";
#elif TOOL == INSERTGRID
            argv[argc++] = "g.txt";
#elif TOOL != GRIDBATHY
            argv[argc++] = "g.txt";
#endif
        }
        if (k == n)
            break;
        g = groups[vh_int(0, NG - 1, "option")];
        for (l = 0; l < 4 && g[l] != NULL; ++l)
            argv[argc++] = g[l];
    }
    run(argc, argv);
}
