/* C29: lifetimes of k-d trees, their result sets and polylines */
#include <stdint.h>
#include "vh.h"
#include "kdtree.h"
#include "poly.h"

/* ------------------------------------------------------------- k-d trees */
static kdtree* t[2];
static kdset* s[2];
static int nt[2], ns[2];

static void kdstep(int k)
{
    int w = vh_int(0, 1, "which"), i, j;
    double q[2];

    switch (vh_int(0, 5, "operation")) {
    case 0:
        vh_assume(t[w] == NULL);
        t[w] = kd_create(2);
        nt[w] = 0;
        break;
    case 1:
        vh_assume(t[w] != NULL);
        q[0] = vh_real(-9, 9, "x");
        q[1] = k;
        kd_insertnode(t[w], q, 100 + nt[w]);
        nt[w]++;
        break;
    case 2:
        {
            double c[2][3] = { {1, vh_real(-9, 9, "x"), 5}, {2, 7, -3} };
            double* src[2] = { c[0], c[1] };

            vh_assume(t[w] != NULL);
            kd_insertnodes(t[w], 3, src, vh_int(0, 1, "randomise"));
            nt[w] += 3;
        }
        break;
    case 3:
        {
            double d = 0;
            int r = vh_int(0, 1, "range"), nread = vh_int(0, 2, "results read");

            vh_assume(t[w] != NULL && s[w] == NULL);
            q[0] = 1;
            q[1] = 2;
            s[w] = kd_findnodeswithinrange(t[w], q, r ? 100.0 : 0.5, vh_int(0, 1, "ordered"));
            ns[w] = kdset_getsize(s[w]);
            vh_check(r ? ns[w] == nt[w] : ns[w] <= nt[w], "size of the result");
            for (i = 0; i < nread; ++i)
                vh_check((kdset_read(s[w], &d) != SIZE_MAX) == (i < ns[w]), "results are read one by one");
        }
        break;
    case 4:
        vh_assume(s[w] != NULL);
        vh_check(kdset_getsize(s[w]) == (size_t) ns[w], "a result set stays what it is");
        kdset_free(s[w]);
        s[w] = NULL;
        break;
    case 5:
        vh_assume(t[w] != NULL);
        kd_destroy(t[w]);
        t[w] = NULL;
        break;
    }
    for (j = 0; j < 2; ++j)
        if (t[j] != NULL) {
            q[0] = 0.25;
            q[1] = 1;
            vh_check(kd_getsize(t[j]) == (size_t) nt[j], "size of the tree");
            vh_check(nt[j] == 0 || kd_findnearestnode(t[j], q) < (size_t) nt[j], "the tree stays usable");
        }
}

void h_kd(void)
{
    int k;

    t[0] = kd_create(2);
    for (k = 0; k < NSTEP; ++k)
        kdstep(k);
    for (k = 0; k < 2; ++k) {
        if (t[k] != NULL)
            kd_destroy(t[k]);
        kdset_free(s[k]);
    }
    vh_check(vh_live() == 0, "everything is released");
}

/* ------------------------------------------------------------- polylines */
static poly* p[2];

static void polystep(int k)
{
    int w = vh_int(0, 1, "which"), i;
    double a = k ? 1.75 * k - 3 : vh_real(-9, 9, "x");
    FILE* f;

    vh_assume(p[w] != NULL);
    switch (vh_int(0, 12, "operation")) {
    case 0:
        poly_addpoint(p[w], a, k);
        break;
    case 1:
        poly_addpointat(p[w], vh_int(0, 2, "index"), a, k + 0.5);
        break;
    case 2:
        vh_assume(p[1 - w] != NULL);
        poly_append(p[w], p[1 - w]);
        break;
    case 3:
        vh_assume(p[1 - w] == NULL);
        p[1 - w] = poly_copy(p[w]);
        break;
    case 4:
        vh_assume(p[1 - w] != NULL);
        poly_destroy(p[w]);
        p[w] = NULL;
        break;
    case 5:
        vh_assume(p[w]->n > 0);
        poly_deletepoint(p[w], vh_int(0, 1, "index") * (p[w]->n - 1));
        break;
    case 6:
        poly_despike(p[w], 1.5);
        break;
    case 7:
        poly_resample(p[w], 0.5);
        break;
    case 8:
        poly_reverse(p[w]);
        break;
    case 9:
        poly_close(p[w]);
        break;
    case 10:
        poly_clear(p[w]);
        break;
    case 11:
        poly_compact(p[w], 1.0e-9);
        break;
    case 12:
        f = fopen("p.txt", "w");
        poly_write(p[w], f);
        fclose(f);
        f = fopen("p.txt", "r");
        poly_read(p[w], f);
        fclose(f);
        break;
    }
    for (i = 0; i < 2; ++i)
        if (p[i] != NULL) {
            vh_check(p[i]->n >= 0 && p[i]->n <= p[i]->nallocated, "the points fit in the storage");
            (void) poly_containspoint(p[i], 0.25, 0.5);
            (void) poly_findindex(p[i], 1, 0);
            if (p[i]->n > 0)
                (void) poly_isclosed(p[i], 0.0);
        }
}

void h_poly(void)
{
    int n = vh_int(0, 1, "points") * 5, k;

    p[0] = poly_create();
    for (k = 0; k < n; ++k)
        poly_addpoint(p[0], (k + 1) % 4 / 2, k % 4 / 2 * 2);
    vh_checkpoint();
    for (k = 0; k < NSTEP; ++k)
        polystep(k);
    for (k = 0; k < 2; ++k)
        if (p[k] != NULL)
            poly_destroy(p[k]);
    vh_check(vh_live() == 0 && vh_files() == 0, "everything is released");
}
