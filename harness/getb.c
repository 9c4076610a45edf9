/* C07: getbound */
#include "gridh.h"
#include "toolh.h"

int getbound_main(int argc, char* argv[]);

static double tx[MAXN], ty[MAXN];

/* does the outline of valid cells have this step with a valid cell on one side */
static int isedge(int j1, int i1, int j2, int i2)
{
    if (j1 == j2 && abs(i1 - i2) == 1) {
        int i = i1 < i2 ? i1 : i2;

        return cellat(j1, i) != cellat(j1 - 1, i);
    }
    if (i1 == i2 && abs(j1 - j2) == 1) {
        int j = j1 < j2 ? j1 : j2;

        return cellat(j, i1) != cellat(j, i1 - 1);
    }
    return 0;
}

void h_getbound(void)
{
    int vi[4 * NX * NY], vj[4 * NX * NY], hit[NY][NX];
    int dd = vh_int(0, 1, "double density");
    int rflag = vh_int(0, 1, "indices");
    int compact = vh_int(0, 1, "compact");
    int bent = vh_int(0, 1, "bent");
    double d = vh_real(1, 10, "spacing");
    double e = bent ? vh_real(0.01, 1, "bend") : 0.0;
    int nx = dd ? 2 * NX - 1 : NX, ny = dd ? 2 * NY - 1 : NY;
    int argc = 0, i, j, k, n, rc, nedge = 0;
    char* argv[8];
    char buf[200];
    FILE* f;

    pickcells(1);
    if (ncell > 0)
        vh_assume(simplyconnected());
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            sx[j][i] = i * d + (j == 1 ? e : 0.0);
            sy[j][i] = 2.0 * j;
        }
    if (dd) {
        for (j = 0, k = 0; j < ny; ++j)
            for (i = 0; i < nx; ++i, ++k) {
                if (i % 2 == 0 && j % 2 == 0) {
                    tx[k] = sx[j / 2][i / 2];
                    ty[k] = sy[j / 2][i / 2];
                    if (!ok[j / 2][i / 2])
                        tx[k] = ty[k] = NAN;
                } else if ((i + j) % 3 == 0)
                    tx[k] = ty[k] = NAN;
                else {
                    tx[k] = i * 0.5;
                    ty[k] = j;
                }
            }
    } else
        for (j = 0, k = 0; j < ny; ++j)
            for (i = 0; i < nx; ++i, ++k) {
                tx[k] = ok[j][i] ? sx[j][i] : NAN;
                ty[k] = ok[j][i] ? sy[j][i] : NAN;
            }
    writegrid("g.txt", nx, ny, tx, ty);
    argv[argc++] = "getbound";
    if (compact)
        argv[argc++] = "-c";
    argv[argc++] = bent ? "-" : "g.txt";
    if (!dd || bent) {
        argv[argc++] = "-i";
        argv[argc++] = dd ? "dd" : "CO";
    }
    if (rflag)
        argv[argc++] = "-r";
    argv[argc] = NULL;
    rc = vh_main(getbound_main, argc, argv, "g.txt", "out.txt", "err.txt");
    vh_check(rc == 0, "exit status is 0");
    f = fopen("out.txt", "r");
    vh_check(fgets(buf, 200, f) != NULL && sscanf(buf, "## %d", &n) == 1 && n >= 0 && n < 4 * NX * NY, "header gives the number of vertices");
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            nedge += (i < MX && isedge(j, i, j, i + 1)) + (j < MY && isedge(j, i, j + 1, i));
    memset(hit, 0, sizeof(hit));
    for (k = 0; k < n; ++k) {
        double a, b;

        vh_check(fgets(buf, 200, f) != NULL && sscanf(buf, "%lf %lf", &a, &b) == 2, "one line per vertex");
        vi[k] = -1;
        for (j = 0; j < NY; ++j)
            for (i = 0; i < NX; ++i)
                if (rflag ? (a == i && b == j) : (ok[j][i] && vh_near(b, sy[j][i], 1.0e-9) && vh_near(a, sx[j][i], 1.0e-9))) {
                    vi[k] = i;
                    vj[k] = j;
                }
        vh_check(vi[k] >= 0, "vertices are grid nodes");
        hit[vj[k]][vi[k]]++;
    }
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
    if (ncell == 0) {
        vh_check(n == 0, "an empty grid has an empty boundary");
        return;
    }
    if (!compact) {
        vh_check(n == nedge + 1 && vi[0] == vi[n - 1] && vj[0] == vj[n - 1], "polygon is closed and has one vertex per boundary edge");
        for (k = 1; k < n; ++k)
            vh_check(isedge(vj[k - 1], vi[k - 1], vj[k], vi[k]), "polygon follows the boundary");
        return;
    }
    if (n > 1 && vi[0] == vi[n - 1] && vj[0] == vj[n - 1]) {
        hit[vj[0]][vi[0]]--;
        n--;
    }
    /* a node of the outline is kept iff the outline turns there */
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            int l = i > 0 && isedge(j, i - 1, j, i), r = i < NX - 1 && isedge(j, i, j, i + 1);
            int lo = j > 0 && isedge(j - 1, i, j, i), up = j < NY - 1 && isedge(j, i, j + 1, i);
            int turns = (l || r) && (lo || up);

            if (lo && up && bent && !rflag && (j == 1 || j == 2))
                turns = 1;
            vh_check(hit[j][i] == turns, "nodes between other vertices are left out, others kept");
        }
    /* and the order is that of the outline: every next vertex is reached along the boundary */
    for (k = 0; k < n; ++k) {
        int i2 = vi[(k + 1) % n], j2 = vj[(k + 1) % n], di, dj;

        i = vi[k];
        j = vj[k];
        di = (i2 > i) - (i2 < i);
        dj = (j2 > j) - (j2 < j);
        vh_check((di == 0) != (dj == 0), "vertices are joined along grid lines");
        while (i != i2 || j != j2) {
            vh_check(isedge(j, i, j + dj, i + di), "sides are made of boundary edges");
            i += di;
            j += dj;
        }
    }
}
