/* C12, C13: larger k-d trees */
#include <stdint.h>
#include "vh.h"
#include "kdtree.h"

#if !defined(ND)
#define ND 2
#endif
#if !defined(HOW)
#define HOW vh_int(0, 1, "manner of insertion") * 3
#endif
#if !defined(NP)
#define NP 300
#endif

static double P[NP][ND];
static kdtree* tree;
static int np = NP;

static unsigned int rnd(unsigned int a, unsigned int b)
{
    unsigned int h = a * 2654435761u ^ b * 2246822519u ^ 0x9e3779b9u;

    h ^= h >> 15;
    h *= 2246822519u;
    h ^= h >> 13;
    h *= 3266489917u;
    return h ^ h >> 16;
}

/* clouds: many coincident points, clusters, sorted points (a deep tree), a lattice */
static void build(void)
{
    int c = vh_int(0, 4, "cloud"), how = HOW, i, k, n1;
    double** src;

    if (c == 3)
        np = NP / 2;
    if (c == 4)
        np = NP / 3;
    for (i = 0; i < np; ++i)
        for (k = 0; k < ND; ++k)
            switch (c) {
            case 0:
                P[i][k] = (int) (rnd(i, k) % 1000) * 0.125 - 60;
                break;
            case 1:
                P[i][k] = (int) (rnd(i % (NP - NP / 4), k) % 16) - 8;
                break;
            case 2:
                P[i][k] = (int) (rnd(i % 6, k + 50) % 100) - 50 + (int) (rnd(i, k) % 8) * (i % 11 ? 0.25 : 6);
                break;
            case 3:
                P[i][k] = k == 0 ? i / 2 - 30 : (int) (rnd(i, k) % 50) - 25;
                break;
            default:
                P[i][k] = (k == 0 ? i % 10 : k == 1 ? i / 10 : rnd(i, 7) % 3) * 4.0 - 20;
            }
    tree = kd_create(ND);
    n1 = how == 0 ? np : how < 3 ? 0 : np / 3;
    for (i = 0; i < n1; ++i)
        kd_insertnode(tree, P[i], i);
    if (n1 < np) {
        src = malloc(ND * sizeof(double*));
        for (k = 0; k < ND; ++k) {
            src[k] = malloc((np - n1) * sizeof(double));
            for (i = n1; i < np; ++i)
                src[k][i - n1] = P[i][k];
        }
        kd_insertnodes(tree, np - n1, src, how >= 2);
        for (k = 0; k < ND; ++k)
            free(src[k]);
        free(src);
    }
    vh_check((int) kd_getsize(tree) == np, "size of the tree is the number of points");
}

static double dist2(const double* a, const double* b)
{
    double d = 0.0;
    int k;

    for (k = 0; k < ND; ++k)
        d += (a[k] - b[k]) * (a[k] - b[k]);
    return d;
}

static int which(size_t id)
{
    size_t o;
    int k;

    vh_check(id < (size_t) np, "the node returned is a node of the tree");
    o = kd_getnodeorigid(tree, id);
    vh_check(o < (size_t) np, "the node returned carries an identifier that was inserted");
    for (k = 0; k < ND; ++k)
        vh_check(kd_getnodecoords(tree, id)[k] == P[o][k], "the node returned carries its coordinates");
    return (int) o;
}

/* any query on a line */
void h_near(void)
{
    int l, i, k;
    double q[ND], t;

    build();
    l = vh_int(0, 2, "line");
    vh_checkpoint();
    t = vh_real(-90, 90, "query");
    for (k = 0; k < ND; ++k)
        q[k] = l == 0 ? (k == 0 ? t : 3 - 2 * k) : l == 1 ? (k == 1 || ND == 1 ? t : -4.0625) : k == 0 ? t : k == 1 ? 5 - 0.5 * t : 1 + 0.25 * t;
    k = which(kd_findnearestnode(tree, q));
    for (i = 0; i < np; ++i)
        if (i != k)
            vh_check(dist2(P[k], q) <= dist2(P[i], q), "no point is nearer than the one returned");
    kd_destroy(tree);
}

/* any range */
void h_range(void)
{
    int c, i, k, n = 0, ordered, lo;
    double q[ND], range, d, last = 0.0;
    char seen[NP];
    kdset* set;
    size_t id;

    build();
    ordered = vh_int(0, 1, "ordered");
    c = vh_int(0, 3, "query");
    lo = vh_int(0, 4, "range");
    if (c < 2)
        for (k = 0; k < ND; ++k)
            q[k] = P[c * (np / 2) + 5][k];
    else
        for (k = 0; k < ND; ++k)
            q[k] = c == 2 ? 2.5 * k + 1 : 90 - k;
    vh_checkpoint();
    range = lo == 0 ? 0.0 : lo == 1 ? vh_real(0, 2.5, "range") : lo == 2 ? vh_real(28, 30, "range") : lo == 3 ? 45 : 400;
    set = kd_findnodeswithinrange(tree, q, range, ordered);
    memset(seen, 0, sizeof(seen));
    while ((id = kdset_read(set, &d)) != SIZE_MAX) {
        k = which(id);
        vh_check(!seen[k], "each point is reported once");
        seen[k] = 1;
        vh_check(vh_near(d * d, dist2(P[k], q), 1.0e-9), "reported distance is the distance");
        if (ordered)
            vh_check(last <= d, "ordered results come in non-decreasing distance");
        last = d;
        n++;
        vh_check(n <= np, "result set is not larger than the tree");
    }
    vh_check(isnan(d), "distance past the end is NaN");
    vh_check((int) kdset_getsize(set) == n, "size of the set is the number of results");
    for (i = 0; i < np; ++i)
        vh_check((dist2(P[i], q) <= range * range) == seen[i], "exactly the points within the range are found");
    kdset_free(set);
    kd_destroy(tree);
}
