/* Stand-ins for libnn and libcsa: they record what reaches them in "rec.txt"
 * and answer from the table in "ans.txt" (x y z per line). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <nn.h>
#include <csa.h>

#define MAXA 2400

char* nn_version = "0";
char* csa_version = "0";
NN_RULE nn_rule = SIBSON;

struct csa { int n, ready; };
struct delaunay { int n; };
struct nnpi { delaunay* d; };
struct lpi { delaunay* d; };

static FILE* rec = NULL;
static int na = -1, cursor = 0;
static double ax[MAXA], ay[MAXA], az[MAXA];

static int near(double a, double b)
{
    return a - b <= 1.0e-8 && b - a <= 1.0e-8;
}

static void note(const char* s)
{
    if (rec == NULL)
        rec = fopen("rec.txt", "w");
    fprintf(rec, "%s\n", s);
}

static void answer(point* p, int how)
{
    char buf[512];
    int k, i;

    if (na < 0) {
        FILE* f = fopen("ans.txt", "r");

        for (na = 0; na < MAXA && fgets(buf, 512, f) != NULL; ++na)
            if (sscanf(buf, "%lf %lf %lf", &ax[na], &ay[na], &az[na]) != 3)
                break;
        fclose(f);
    }
    if (na == 0) {
        /* an empty table: a function of the place and the method */
        p->z = p->x * p->x - 2.0 * p->y * p->x - 0.25 + 100.0 * how;
        return;
    }
    p->z = 777777.0;
    if (!(p->x - p->x == 0) || !(p->y - p->y == 0)) {
        note("BAD not a number asked for");
        return;
    }
    for (i = 0; i < na; ++i) {
        k = (cursor + i) % na;
        if (near(p->x, ax[k]) && near(p->y, ay[k])) {
            p->z = az[k];
            cursor = (k + 1) % na;
            return;
        }
    }
    note("BAD location asked for");
}

static void notepoints(const char* who, int n, point points[])
{
    int i;

    note(who);
    for (i = 0; i < n; ++i)
        fprintf(rec, "P %.17g %.17g %.17g\n", points[i].x, points[i].y, points[i].z);
}

void points_read(char* fname, int dim, int* n, point** points)
{
    FILE* f = fopen(fname, "r");
    char buf[512];

    *n = 0;
    *points = malloc(MAXA * sizeof(point));
    while (*n < MAXA && fgets(buf, 512, f) != NULL) {
        point* p = &(*points)[*n];

        if (sscanf(buf, "%lf %lf %lf", &p->x, &p->y, &p->z) != 3)
            break;
        (*n)++;
    }
    fclose(f);
    note(dim == 3 ? "read" : "BAD dimension");
}

csa* csa_create(void)
{
    return calloc(1, sizeof(csa));
}

void csa_destroy(csa* a)
{
    free(a);
}

void csa_addpoints(csa* a, int n, point points[])
{
    if (a->ready)
        note("BAD points added after the spline was calculated");
    a->n += n;
    notepoints("csa", n, points);
}

void csa_calculatespline(csa* a)
{
    a->ready = 1;
}

void csa_approximatepoint(csa* a, point* p)
{
    if (!a->ready)
        note("BAD spline not calculated");
    answer(p, 0);
}

delaunay* delaunay_build(int np, point points[], int ns, int segments[], int nh, double holes[])
{
    delaunay* d = calloc(1, sizeof(delaunay));

    d->n = np;
    notepoints("delaunay", np, points);
    if (ns != 0 || nh != 0)
        note("BAD segments or holes");
    return d;
}

void delaunay_destroy(delaunay* d)
{
    free(d);
}

nnpi* nnpi_create(delaunay* d)
{
    nnpi* nn = calloc(1, sizeof(nnpi));

    nn->d = d;
    note("nnpi");
    return nn;
}

void nnpi_destroy(nnpi* nn)
{
    free(nn);
}

void nnpi_interpolate_point(nnpi* nn, point* p)
{
    static int said = 0;

    if (!said)
        note(nn_rule == SIBSON ? "sibson" : "non-sibson");
    said = 1;
    answer(p, nn_rule == SIBSON ? 2 : 1);
}

lpi* lpi_build(delaunay* d)
{
    lpi* l = calloc(1, sizeof(lpi));

    l->d = d;
    note("lpi");
    return l;
}

void lpi_destroy(lpi* l)
{
    free(l);
}

void lpi_interpolate_point(lpi* l, point* p)
{
    answer(p, 3);
}
