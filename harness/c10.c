/* C10: polyline editing operations behave as operations on a list of points
 * (one operation, or two, from an arbitrary valid state) */
#include "vh.h"
#include "poly.h"

#if !defined(MAXN)
#define MAXN 3
#endif
#if !defined(APN)
#define APN 2
#endif
#define CAP (2 * MAXN + 4)

typedef struct {
    int n;
    double x[CAP];
    double y[CAP];
} list;

static double num(const char* name)
{
    return vh_real(-100, 100, name);
}

/* an arbitrary polyline: any number of points, any spare room, exact extent */
static poly* anypoly(list* l, int maxn)
{
    poly* pl = poly_create();
    int n = vh_int(0, maxn, "n");
    int na = vh_int(1, maxn + 2, "allocated");
    int i;

    vh_assume(na >= n);
    vh_check(pl->n == 0 && pl->nallocated > 0, "a new polyline is empty");
    free(pl->x);
    free(pl->y);
    pl->x = malloc(na * sizeof(double));
    pl->y = malloc(na * sizeof(double));
    pl->nallocated = na;
    poly_clear(pl);
    l->n = n;
    for (i = 0; i < maxn; ++i)
        if (i < n) {
            l->x[i] = pl->x[i] = num("x");
            l->y[i] = pl->y[i] = num("y");
            if (i == 0) {
                pl->e.xmin = pl->e.xmax = l->x[0];
                pl->e.ymin = pl->e.ymax = l->y[0];
            } else {
                if (l->x[i] < pl->e.xmin)
                    pl->e.xmin = l->x[i];
                if (l->x[i] > pl->e.xmax)
                    pl->e.xmax = l->x[i];
                if (l->y[i] < pl->e.ymin)
                    pl->e.ymin = l->y[i];
                if (l->y[i] > pl->e.ymax)
                    pl->e.ymax = l->y[i];
            }
        }
    pl->n = n;
    return pl;
}

static void l_insert(list* l, int at, double x, double y)
{
    int i;

    for (i = l->n; i > at; --i) {
        l->x[i] = l->x[i - 1];
        l->y[i] = l->y[i - 1];
    }
    l->x[at] = x;
    l->y[at] = y;
    l->n++;
}

static void same(poly* pl, list* l)
{
    int i;
    double x0 = 0, x1 = 0, y0 = 0, y1 = 0;

    vh_check(pl->n == l->n, "number of points equals that of the list");
    vh_check(pl->nallocated >= pl->n && pl->nallocated > 0, "allocated size covers the points");
    /* the storage really has the size it is recorded with */
    if (pl->n < pl->nallocated) {
        pl->x[pl->nallocated - 1] = 0.0;
        pl->y[pl->nallocated - 1] = 0.0;
    }
    for (i = 0; i < CAP; ++i)
        if (i < l->n) {
            vh_check(pl->x[i] == l->x[i] && pl->y[i] == l->y[i], "points equal those of the list, in order");
            if (i == 0 || l->x[i] < x0)
                x0 = l->x[i];
            if (i == 0 || l->x[i] > x1)
                x1 = l->x[i];
            if (i == 0 || l->y[i] < y0)
                y0 = l->y[i];
            if (i == 0 || l->y[i] > y1)
                y1 = l->y[i];
        }
    if (l->n > 0)
        vh_check(pl->e.xmin == x0 && pl->e.xmax == x1 && pl->e.ymin == y0 && pl->e.ymax == y1, "extent is the bounding box of the points");
}

static void finish(poly* pl, list* l)
{
    same(pl, l);
    poly_destroy(pl);
    vh_reach();
}

void h_add(void)
{
    list l;
    poly* pl = anypoly(&l, MAXN);
    double x = num("px"), y = num("py");

    poly_addpoint(pl, x, y);
    l_insert(&l, l.n, x, y);
    finish(pl, &l);
}

static poly* g_pl;
static double g_x, g_y;
static int g_at;

static void do_add(void* p)
{
    poly_addpoint(g_pl, g_x, g_y);
}

static void do_addat(void* p)
{
    poly_addpointat(g_pl, g_at, g_x, g_y);
}

void h_addnan(void)
{
    list l;
    int at = vh_int(-1, 3, "index");

    g_pl = anypoly(&l, 2);
    g_x = vh_maybe_nan(num("px"), "px is NaN");
    g_y = vh_maybe_nan(num("py"), "py is NaN");
    g_at = at;
    vh_assume(isnan(g_x) || isnan(g_y));
    if (at < 0)
        vh_check(vh_try(do_add, NULL), "adding a NaN point is refused");
    else
        vh_check(vh_try(do_addat, NULL), "inserting a NaN point is refused");
    finish(g_pl, &l);
}

void h_addat(void)
{
    list l;
    poly* pl = anypoly(&l, MAXN);
    double x = num("px"), y = num("py");
    int at = vh_int(-2, MAXN + 2, "index");

    poly_addpointat(pl, at, x, y);
    if (at >= 0)
        l_insert(&l, at < l.n ? at : l.n, x, y);
    finish(pl, &l);
}

void h_delete(void)
{
    list l;
    poly* pl = anypoly(&l, MAXN);
    int at = vh_int(0, MAXN - 1, "index");
    int i;

    vh_assume(at < l.n);
    poly_deletepoint(pl, at);
    for (i = 0; i < MAXN - 1; ++i)
        if (i >= at && i < l.n - 1) {
            l.x[i] = l.x[i + 1];
            l.y[i] = l.y[i + 1];
        }
    l.n--;
    finish(pl, &l);
}

void h_append(void)
{
    list l, l2;
    poly* pl = anypoly(&l, APN);
    poly* pl2 = anypoly(&l2, APN);
    int i;

    poly_append(pl, pl2);
    for (i = 0; i < APN; ++i)
        if (i < l2.n)
            l_insert(&l, l.n, l2.x[i], l2.y[i]);
    same(pl2, &l2);
    poly_destroy(pl2);
    finish(pl, &l);
}

void h_reverse(void)
{
    list l, r;
    poly* pl = anypoly(&l, MAXN);
    int i;

    poly_reverse(pl);
    r.n = l.n;
    for (i = 0; i < MAXN; ++i)
        if (i < l.n) {
            r.x[i] = l.x[l.n - 1 - i];
            r.y[i] = l.y[l.n - 1 - i];
        }
    finish(pl, &r);
}

void h_close(void)
{
    list l;
    poly* pl = anypoly(&l, MAXN);
    int closed = l.n > 1 && l.x[0] == l.x[l.n - 1] && l.y[0] == l.y[l.n - 1];

    vh_check(poly_isclosed(pl, 0.0) == closed, "closed iff the first point is repeated at the end");
    poly_close(pl);
    if (!closed && l.n > 0)
        l_insert(&l, l.n, l.x[0], l.y[0]);
    if (l.n > 0)
        vh_check(poly_isclosed(pl, 0.0), "closed after closing");
    finish(pl, &l);
}

void h_clear(void)
{
    list l;
    poly* pl = anypoly(&l, MAXN);
    double x = num("px"), y = num("py");

    poly_clear(pl);
    l.n = 0;
    same(pl, &l);
    /* and it can be used again */
    poly_addpoint(pl, x, y);
    l_insert(&l, 0, x, y);
    finish(pl, &l);
}

void h_create(void)
{
    list l;
    poly* pl = poly_create();
    int i;

    l.n = 0;
    for (i = 0; i < MAXN; ++i) {
        double x = num("px"), y = num("py");

        poly_addpoint(pl, x, y);
        l_insert(&l, l.n, x, y);
        same(pl, &l);
    }
    finish(pl, &l);
}

void h_copy(void)
{
    list l, l2;
    poly* pl = anypoly(&l, MAXN);
    poly* pl2 = poly_copy(pl);
    double x = num("px"), y = num("py");

    l2 = l;
    same(pl2, &l2);
    /* the copy is independent in both directions */
    poly_addpoint(pl2, x, y);
    l_insert(&l2, l2.n, x, y);
    same(pl, &l);
    poly_destroy(pl);
    finish(pl2, &l2);
}

void h_find(void)
{
    list l;
    poly* pl = anypoly(&l, MAXN);
    double x = num("px"), y = num("py");
    int k = poly_findindex(pl, x, y);
    int i, first = -1;

    for (i = MAXN - 1; i >= 0; --i)
        if (i < l.n && l.x[i] == x && l.y[i] == y)
            first = i;
    vh_check(k == first, "find returns the first point with these coordinates or -1");
    finish(pl, &l);
}

/* growth of a polyline made by the public constructor, crossing its initial size */
#if !defined(GROW)
#define GROW 70
#endif
void h_grow(void)
{
    poly* pl = poly_create();
    int na = pl->nallocated;
    int i;

    for (i = 0; i < GROW; ++i)
        poly_addpoint(pl, (double) i, (double) (GROW - i));
    for (i = 0; i < GROW; ++i)
        vh_check(pl->x[i] == (double) i && pl->y[i] == (double) (GROW - i), "points survive growth");
    vh_check(pl->n == GROW && pl->nallocated >= GROW, "size after growth");
    pl->x[pl->nallocated - 1] = 0.0;
    pl->y[pl->nallocated - 1] = 0.0;
    poly_destroy(pl);
    vh_reach();
}

/* signed area (real arithmetic) */
#if !defined(NV)
#define NV 4
#endif
void h_area(void)
{
    poly* pl = poly_create();
    double x[NV], y[NV], a = 0.0;
    int i;

    for (i = 0; i < NV; ++i) {
        x[i] = vh_real(-10, 10, "x");
        y[i] = vh_real(-10, 10, "y");
        poly_addpoint(pl, x[i], y[i]);
    }
    for (i = 0; i < NV; ++i) {
        int j = (i + 1) % NV;

        a += x[i] * y[j] - x[j] * y[i];
    }
    vh_check(vh_near(poly_area(pl), a / 2.0, 1.0e-9), "area is the signed shoelace area, positive for counterclockwise");
    poly_close(pl);
    vh_check(vh_near(poly_area(pl), a / 2.0, 1.0e-9), "closing the polygon does not change its area");
    poly_reverse(pl);
    vh_check(vh_near(poly_area(pl), -a / 2.0, 1.0e-9), "reversing changes the sign of the area");
    poly_destroy(pl);
}
