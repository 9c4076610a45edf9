/* C12, C13, C14: k-d tree */
#include <stdint.h>
#include "vh.h"
#include "kdtree.h"

#if !defined(NP)
#define NP 3
#endif
#if !defined(ND)
#define ND 2
#endif
#define NTOT 64
#if !defined(NOP)
#define NOP 3
#endif

static double P[NTOT][ND];      /* points the tree must hold */
static size_t ID[NTOT];         /* and their identifiers */
static int np = 0;
static kdtree* tree;

static double dist2(const double* a, const double* b)
{
    double d = 0.0;
    int k;

    for (k = 0; k < ND; ++k)
        d += (a[k] - b[k]) * (a[k] - b[k]);
    return d;
}

/* insert n points one by one or in bulk */
static void insert(int n, double p[][ND], int how, size_t id0)
{
    int i, k;

    if (how == 0) {
        for (i = 0; i < n; ++i) {
            double* c = malloc(ND * sizeof(double));

            memcpy(c, p[i], ND * sizeof(double));
            kd_insertnode(tree, c, id0 + 7 * i);
            free(c);
            if (isfinite(p[i][0])) {
                memcpy(P[np], p[i], sizeof(P[0]));
                ID[np++] = id0 + 7 * i;
            }
        }
    } else {
        double** src = malloc(ND * sizeof(double*));
        size_t n0 = kd_getsize(tree);

        for (k = 0; k < ND; ++k) {
            src[k] = malloc(n * sizeof(double));
            for (i = 0; i < n; ++i)
                src[k][i] = p[i][k];
        }
        kd_insertnodes(tree, n, src, how == 2);
        for (i = 0; i < n; ++i)
            if (isfinite(p[i][0])) {
                memcpy(P[np], p[i], sizeof(P[0]));
                ID[np++] = n0 + i;
            }
        for (k = 0; k < ND; ++k)
            free(src[k]);
        free(src);
    }
}

/* index of a node in P by its identifier (unique ones only), checking its coordinates */
static int which(size_t id)
{
    int i, k;

    vh_check(id < kd_getsize(tree), "the node returned is a node of the tree");
    for (i = 0; i < np; ++i)
        if (ID[i] == kd_getnodeorigid(tree, id))
            break;
    vh_check(i < np, "the node returned carries an identifier that was inserted");
    for (k = 0; k < ND; ++k)
        vh_check(vh_same(kd_getnodecoords(tree, id)[k], P[i][k]), "the node returned carries its coordinates");
    return i;
}

/* a fixed cloud with coincident points and ties, inserted in any of many orders */
static const double cloud[8][3] = {
    {4, 4, 1}, {1, 6, 3}, {7, 2, 0}, {4, 1, 5}, {4, 4, 1}, {6, 6, 2}, {2, 2, 7}, {1, 1, 4}
};

static void permuted(double p[][ND])
{
#if NP == 5 || NP == 3
    static const int st[4] = { 1, 2, 4, 4 };
#else
    static const int st[4] = { 1, NP - 1, NP > 6 ? 3 : 1, NP > 6 ? NP - 3 : 1 };
#endif
    int first = vh_int(0, NP - 1, "first point");
#if defined(FEW)
    int step = 1;
#else
    int step = st[vh_int(0, NP == 5 || NP > 6 ? 3 : 1, "order")];
#endif
    int i, k;

    for (i = 0; i < NP; ++i)
        for (k = 0; k < ND; ++k)
            p[i][k] = cloud[(first + step * i) % NP][k];
}

static void anypoints(int n, double p[][ND])
{
    int i, k;

    for (i = 0; i < n; ++i)
        for (k = 0; k < ND; ++k)
            p[i][k] = vh_real(-10, 10, "point");
}

static void build(int any)
{
    double p[NP][ND];
#if defined(FEW)
    int how = 3 * vh_int(0, 1, "manner of insertion");
#else
    int how = vh_int(0, 3, "manner of insertion");
#endif

    if (any == 3) {
        for (int i = 0; i < NP; ++i)
            for (int k = 0; k < ND; ++k)
                p[i][k] = vh_int(0, 1, "point");
    } else if (any)
        anypoints(NP, p);
    else
        permuted(p);
    tree = kd_create(ND);
    if (how < 3)
        insert(NP, p, how, 1000000);
    else {
        /* mixed */
        insert(1, p, 1, 0);
        insert(NP - 1, p + 1, 0, 500);
    }
    vh_check((int) kd_getsize(tree) == NP, "size of the tree is the number of points");
}

static void nearest(int any)
{
    double q[ND];
    size_t id;
    int i, k;

    build(any);
    for (k = 0; k < ND; ++k)
        q[k] = vh_real(-20, 20, "query");
    id = kd_findnearestnode(tree, q);
    k = which(id);
    for (i = 0; i < np; ++i)
        if (i != k)
            vh_check(dist2(P[k], q) <= dist2(P[i], q), "no point is nearer than the one returned");
    kd_destroy(tree);
}

void h_near_any(void)
{
    nearest(1);
}

void h_near_lattice(void)
{
    nearest(3);
}

/* given query */
void h_near_query(void)
{
    double q[2] = { 1.0, -2.0 };
    int i, k;

    build(1);
    k = which(kd_findnearestnode(tree, q));
    for (i = 0; i < np; ++i)
        if (i != k)
            vh_check(dist2(P[k], q) <= dist2(P[i], q), "no point is nearer than the one returned");
    kd_destroy(tree);
}

void h_near_cloud(void)
{
    nearest(0);
}

static void inrange(int any)
{
    static const double qs[4][3] = { {4, 4, 1}, {0, 0, 0}, {3, 5, 2}, {9, -1, 4} };
    double q[ND];
    double range, d, last = 0.0;
    kdset* set;
    int ordered = vh_int(0, 1, "ordered");
    int count[NTOT];
    size_t id;
    int i, k, n = 0;

    build(any == 1);
    if (any == 1) {
        for (k = 0; k < ND; ++k)
            q[k] = vh_real(-20, 20, "query");
        range = vh_int(0, 1, "range zero") ? 0.0 : vh_real(0, 50, "range");
    } else if (any == 2) {
        /* any point of a line, given range */
        double t = vh_real(-20, 20, "query");

        for (k = 0; k < ND; ++k)
            q[k] = k == 0 ? t : k == 1 ? 5 - 0.5 * t : 1 + 0.25 * t;
        range = 5.0;
    } else {
        int c = vh_int(0, 3, "query");

        for (k = 0; k < ND; ++k)
            q[k] = qs[c][k];
        range = vh_real(0, 20, "range");
    }
    set = kd_findnodeswithinrange(tree, q, range, ordered);
    for (i = 0; i < np; ++i)
        count[i] = 0;
    vh_check(kdset_getsize(set) <= (size_t) np, "result set is not larger than the tree");
    while ((id = kdset_read(set, &d)) != SIZE_MAX) {
        k = which(id);
        count[k]++;
        vh_check(count[k] == 1, "each point is reported once");
        vh_check(d >= 0.0 && vh_near(d * d, dist2(P[k], q), 1.0e-6), "reported distance is the distance");
        if (ordered) {
            vh_check(n == 0 || last <= d, "ordered results come in non-decreasing distance");
            last = d;
        }
        n++;
    }
    vh_check(isnan(d), "distance past the end is NaN");
    d = 0.0;
    vh_check(kdset_read(set, &d) == SIZE_MAX && isnan(d), "reading past the end again gives the end marker and NaN");
    vh_check((int) kdset_getsize(set) == n, "size of the set is the number of results");
    for (i = 0; i < np; ++i)
        vh_check((dist2(P[i], q) <= range * range) == (count[i] == 1), "exactly the points within the range are found");
    kdset_free(set);
    kd_destroy(tree);
}

void h_range_any(void)
{
    inrange(1);
}

void h_range_cloud(void)
{
    inrange(0);
}

void h_range_query(void)
{
    inrange(2);
}

/* exact ties: points exactly at the range along axes and diagonals (concrete) */
void h_range_tie(void)
{
    static double p[7][2] = { {0, 0}, {5, 0}, {-5, 0}, {0, 5}, {3, 4}, {3, -4}, {5.5, 0} };
    double q[2] = { 0, 0 };
    int first = vh_int(0, 6, "first point");
    int i, r;
    double d;
    kdset* set;

    tree = kd_create(2);
    for (i = 0; i < 7; ++i)
        kd_insertnode(tree, p[(first + i) % 7], i);
    r = vh_int(0, 2, "range");
    set = kd_findnodeswithinrange(tree, q, r == 0 ? 5.0 : r == 1 ? 0.0 : 4.9, 1);
    vh_check((int) kdset_getsize(set) == (r == 0 ? 6 : 1), "points exactly at the range are found");
    for (i = 0; i < (r == 0 ? 6 : 1); ++i) {
        kdset_read(set, &d);
        vh_check(d == (i == 0 ? 0.0 : 5.0), "reported distance is the distance");
    }
    kdset_free(set);
    kd_destroy(tree);
}

void h_empty(void)
{
    double q[2], d = 1.0;
    kdset* set;

    q[0] = vh_real(-10, 10, "query");
    q[1] = vh_real(-10, 10, "query");
    tree = kd_create(2);
    if (vh_int(0, 1, "skipped points only")) {
        double p[2] = { NAN, 1.0 };

        kd_insertnode(tree, p, 3);
        p[0] = INFINITY;
        kd_insertnode(tree, p, 4);
    }
    vh_check(kd_getsize(tree) == 0, "tree is empty");
    set = kd_findnodeswithinrange(tree, q, vh_real(0, 100, "range"), vh_int(0, 1, "ordered"));
    vh_check(kdset_getsize(set) == 0, "query on an empty tree returns an empty set");
    vh_check(kdset_read(set, &d) == SIZE_MAX && isnan(d), "reading an empty set gives the end marker and NaN");
    kdset_free(set);
    kd_destroy(tree);
}

/* every stored node against every point given, counted; box; findable */
static void holds(int find)
{
    double* mm = kd_getminmax(tree);
    int i, j, k;

    vh_check((int) kd_getsize(tree) == np, "size of the tree is the number of points with finite first coordinate");
    for (i = 0; i < np; ++i) {
        int n = 0, m = 0;

        /* identifiers of bulk-inserted points may repeat if points have been skipped */
        for (j = 0; j < np; ++j) {
            if (kd_getnodeorigid(tree, j) == ID[i]) {
                int same = 1;

                for (k = 0; k < ND; ++k)
                    same = same && vh_same(kd_getnodecoords(tree, j)[k], P[i][k]);
                n += same;
            }
            if (ID[j] == ID[i]) {
                int same = 1;

                for (k = 0; k < ND; ++k)
                    same = same && vh_same(P[j][k], P[i][k]);
                m += same;
            }
        }
        vh_check(n == m, "every point is held exactly once, with its coordinates and identifier");
    }
    if (np > 0)
        for (k = 0; k < ND; ++k) {
            int lo = 0, hi = 0;

            for (i = 0; i < np; ++i) {
                vh_check(mm[k] <= P[i][k] && mm[ND + k] >= P[i][k], "bounding rectangle holds the points");
                lo |= mm[k] == P[i][k];
                hi |= mm[ND + k] == P[i][k];
            }
            vh_check(lo && hi, "bounding rectangle is tight");
        }
    for (i = 0; find && i < np; ++i) {
        kdset* set = kd_findnodeswithinrange(tree, P[i], 0.0, 0);
        double d;
        size_t id;
        int found = 0;

        while ((id = kdset_read(set, &d)) != SIZE_MAX)
            found |= kd_getnodeorigid(tree, id) == ID[i];
        vh_check(found, "every point is found by a range search at its position");
        kdset_free(set);
        id = kd_findnearestnode(tree, P[i]);
        vh_check(id < (size_t) np && dist2(kd_getnodecoords(tree, id), P[i]) == 0.0, "nearest node to a point of the tree is at its position");
    }
}

/* any mix of three insertions */
void h_mix(void)
{
    int op, i, k;
    int where = vh_int(0, 4, "position of the non-finite point");
    int bad = where % 3;
    int total = 0;

    tree = kd_create(ND);
    for (op = 0; op < NOP; ++op) {
        double p[2][ND];
        int how = vh_int(0, 2, "manner of insertion");
        int n = how == 0 ? 1 : 2;

        for (i = 0; i < n; ++i, ++total)
            for (k = 0; k < ND; ++k)
                p[i][k] = vh_real(-10, 10, "point");
        for (i = 0; i < n; ++i)
            if (total - n + i == where)
                p[i][0] = bad == 0 ? NAN : bad == 1 ? INFINITY : -INFINITY;
        insert(n, p, how, 1000 + 100 * op);
        if (kd_getsize(tree) > 0)
            (void) kd_findnearestnode(tree, P[0]);
    }
    /* identifiers from bulk insertion count from the size of the tree; those of single ones are ours */
    holds(0);
    kd_destroy(tree);
}

/* the same with the points of the cloud, and search */
void h_mixfind(void)
{
    double p[8][ND];
    int a = vh_int(1, 7, "first batch"), b = vh_int(0, 2, "how"), c = vh_int(0, 2, "how");
    int nanat = vh_int(0, 8, "point with NaN");
    int i, k;

    for (i = 0; i < 8; ++i)
        for (k = 0; k < ND; ++k)
            p[i][k] = cloud[i][k] + 1.0e-3 * i;
    if (nanat < 8)
        p[nanat][0] = NAN;
    p[5][ND - 1] = vh_real(-10, 10, "point");
    tree = kd_create(ND);
    insert(a, p, b, 1000);
    insert(8 - a, p + a, c, 2000);
    holds(1);
    kd_destroy(tree);
}

/* growth of the storage */
void h_grow(void)
{
    int seq = vh_int(0, 7, "sequence");
    static const int plan[8][4] = {
        /* n single, n bulk, n single, n bulk */
        {1024, 0, 3, 0}, {1023, 5, 2, 3}, {0, 10, 12, 0}, {1020, 4, 1, 0}, {3, 1025, 30, 1}, {1, 1, 1, 1}, {2050, 1, 1, 0}, {0, 2048, 2, 1}
    };
    int n = 0, part, i;
    static double all[2300][2];
    static char seen[2300];
    double x0, x1, y0, y1;
    double* mm;

    tree = kd_create(2);
    for (part = 0; part < 4; ++part) {
        int m = plan[seq][part];

        if (m == 0)
            continue;
        for (i = 0; i < m; ++i) {
            /* low-discrepancy points keep the tree shallow */
            int t = n + i + 1, r = 0, b;

            for (b = 0; b < 12; ++b)
                r |= ((t >> b) & 1) << (11 - b);
            all[n + i][0] = r;
            all[n + i][1] = (t * 1181) % 2311;
        }
        if (part % 2 == 0) {
            for (i = 0; i < m; ++i)
                kd_insertnode(tree, all[n + i], n + i);
        } else {
            double** src = malloc(2 * sizeof(double*));

            src[0] = malloc(m * sizeof(double));
            src[1] = malloc(m * sizeof(double));
            for (i = 0; i < m; ++i) {
                src[0][i] = all[n + i][0];
                src[1][i] = all[n + i][1];
            }
            kd_insertnodes(tree, m, src, seq % 2);
            free(src[0]);
            free(src[1]);
            free(src);
        }
        n += m;
    }
    vh_check((int) kd_getsize(tree) == n, "size of the tree is the number of points");
    x0 = y0 = 1.0e30;
    x1 = y1 = -1.0e30;
    for (i = 0; i < n; ++i) {
        size_t o = kd_getnodeorigid(tree, i);

        vh_check(o < (size_t) n && !seen[o], "every point is held exactly once");
        seen[o] = 1;
        vh_check(kd_getnodecoords(tree, i)[0] == all[o][0] && kd_getnodecoords(tree, i)[1] == all[o][1], "point keeps its coordinates and identifier");
        if (all[i][0] < x0)
            x0 = all[i][0];
        if (all[i][0] > x1)
            x1 = all[i][0];
        if (all[i][1] < y0)
            y0 = all[i][1];
        if (all[i][1] > y1)
            y1 = all[i][1];
    }
    mm = kd_getminmax(tree);
    vh_check(mm[0] == x0 && mm[1] == y0 && mm[2] == x1 && mm[3] == y1, "bounding rectangle is that of the points");
    for (i = 0; i < n; i += (n > 100 ? 97 : 1)) {
        size_t id = kd_findnearestnode(tree, all[i]);

        vh_check(id < (size_t) n && kd_getnodeorigid(tree, id) == (size_t) i, "nearest node to a point of the tree is that point");
    }
    kd_destroy(tree);
}

/* identifiers of any size */
void h_bigid(void)
{
    static const size_t big[4] = { 0, 2147483648UL, 4294967296UL, (size_t) -2 };
    double p[2] = { 1, 2 };
    size_t id = big[vh_int(0, 3, "identifier")];

    tree = kd_create(2);
    kd_insertnode(tree, p, id);
    vh_check(kd_getnodeorigid(tree, kd_findnearestnode(tree, p)) == id, "identifier is kept whatever its size");
    kd_destroy(tree);
}
