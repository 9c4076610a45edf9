/* helpers shared by the grid harnesses */
#if !defined(GRIDH_H)
#define GRIDH_H
#include "vh.h"
#include "gridnodes.h"
#include "gridmap.h"
#include "gucommon.h"

#if !defined(NX)
#define NX 3                    /* nodes */
#endif
#if !defined(NY)
#define NY 3
#endif
#define MX (NX - 1)             /* cells */
#define MY (NY - 1)

static double sx[NY][NX], sy[NY][NX];   /* nodes given */
static int ok[NY][NX];                  /* node valid */
static int cell[NY][NX];                /* cell valid (all four corners) */
static int ncell;

static void getcells(void)
{
    int i, j;

    ncell = 0;
    for (j = 0; j < MY; ++j)
        for (i = 0; i < MX; ++i) {
            cell[j][i] = ok[j][i] && ok[j][i + 1] && ok[j + 1][i] && ok[j + 1][i + 1];
            ncell += cell[j][i];
        }
}

#if defined(BIG)
static unsigned int rnd(unsigned int a, unsigned int b, unsigned int c)
{
    unsigned int h = a * 2654435761u ^ b * 40503u ^ c * 2246822519u ^ 0x9e3779b9u;

    h ^= h >> 15;
    h *= 2246822519u;
    h ^= h >> 13;
    h *= 3266489917u;
    return h ^ h >> 16;
}
#endif

/* every pattern of invalid nodes; for big grids: some at random, or none, and any one node */
static void anynodes(void)
{
    int i, j;
#if defined(BIG)
    int p = vh_int(0, 3, "pattern"), k = vh_int(-1, (NX * NY - 1) / 7, "node flipped") * 7 + p;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            ok[j][i] = (p == 0 || rnd(p, i, j) % (6 * p * p) != 0) != (k == j * NX + i);
    getcells();
    return;
#endif

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            ok[j][i] = vh_int(0, 1, "node valid");
    getcells();
}

/* cell by the template if there is one: 1 - in the set, 0 - not, ? - may be */
static int anycell(int j, int i)
{
#if defined(TEMPLATE)
    if (TEMPLATE[j * MX + i] != '?')
        return TEMPLATE[j * MX + i] == '1';
#endif
    return vh_int(0, 1, "cell valid");
}

/* every set of cells (simply: without the ones that touch themselves at a node); a node is valid iff one of its cells is in the set */
#if defined(BIG)
static int spiralled[MY][MX], region;

static int outside(int j, int i)
{
    return j < 0 || i < 0 || j >= MY || i >= MX;
}

/* arms of one cell with gaps of two */
static void mkspiral(void)
{
    int j = 0, i = 0, dj = 0, di = 1, moved = 1, k, l;

    spiralled[0][0] = 1;
    while (moved) {
        for (moved = 0;; moved = 1) {
            int free = !outside(j + dj, i + di);

            for (k = 1; k <= 3 && free; ++k)
                for (l = -1; l <= 1; ++l) {
                    int jj = j + k * dj + l * di, ii = i + k * di + l * dj;

                    free = free && (outside(jj, ii) || !spiralled[jj][ii] || (k == 1 && l != 0 && spiralled[j + l * di][i + l * dj]));
                }
            if (!free)
                break;
            j += dj;
            i += di;
            spiralled[j][i] = 1;
        }
        k = dj;
        dj = di;
        di = -k;
    }
}

/* families of simply connected regions */
static int pattern(int p, int j, int i)
{
    int w = MX, h = MY;

    if (p & 8) {                /* transposed */
        int t = i;

        i = j;
        j = t;
        w = MY;
        h = MX;
    }
    if (p & 16)
        i = w - 1 - i;
    if (p & 32)
        j = h - 1 - j;
    switch (p & 7) {
    case 0:
        return 1;
    case 1:                    /* disc */
        i = (2 * i + 1 - w) * h;
        j = (2 * j + 1 - h) * w;
        return i * i + j * j <= w * w * h * h;
    case 2:                    /* comb */
        return j < 1 || i % 4 == 1;
    case 3:                    /* comb of wide teeth of different length */
        return j < 2 || (i % 5 < 3 && j < h - (i / 5 * 3) % 5);
    case 4:                    /* diagonal band */
        return abs(i * h - j * w) < 2 * (w > h ? w : h);
    case 5:                    /* spiral */
        return (p & 8) ? spiralled[i][j] : spiralled[j][i];
    case 6:                    /* meander */
        return i % 3 == 0 || (i % 6 < 3 ? j == h - 1 : j == 0);
    default:                   /* a slot from one side */
        return !(j > h / 3 && j < h / 3 + 3 && i > 1);
    }
}
#endif

static void pickcells(int simply)
{
    static int in[NY][NX];
    int i, j, same = 1;
#if defined(BIG)
    int p = vh_int(0, 15, "region");

    region = p;
    /* some of the mirrored ones */
    p += (p * 5 % 4) * 16;
    mkspiral();
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            ok[j][i] = 0;
    for (j = 0; j < MY; ++j)
        for (i = 0; i < MX; ++i)
            if (pattern(p, j, i) && (simply || rnd(1, i, j) % 17 != 0))
                ok[j][i] = ok[j][i + 1] = ok[j + 1][i] = ok[j + 1][i + 1] = 1;
    getcells();
    return;
#endif

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            ok[j][i] = 0;
    for (j = 0; j < MY; ++j)
        for (i = 0; i < MX; ++i) {
            in[j][i] = anycell(j, i);
            if (in[j][i])
                ok[j][i] = ok[j][i + 1] = ok[j + 1][i] = ok[j + 1][i + 1] = 1;
            if (simply && i > 0 && j > 0 && in[j][i] == in[j - 1][i - 1] && in[j - 1][i] == in[j][i - 1] && in[j][i] != in[j - 1][i])
                vh_assume(0);
        }
    getcells();
    for (j = 0; j < MY; ++j)
        for (i = 0; i < MX; ++i)
            same &= cell[j][i] == in[j][i];
    /* (a cell is valid iff its nodes are: a set that adds other cells is not one, and the bigger one is tried as well) */
    vh_assume(same);
}

static int cellat(int j, int i)
{
    return j >= 0 && i >= 0 && j < MY && i < MX && cell[j][i];
}

/* flood fill over the cells (in = 1) or the other ones with a margin around (in = 0) */
static int component(int in)
{
    static int lab[NY + 2][NX + 2];
    static int stack[(NY + 2) * (NX + 2)];
    int w = MX + 2, h = MY + 2;
    int total = 0, found = 0, sp = 0, i, j;

    for (j = 0; j < h; ++j)
        for (i = 0; i < w; ++i) {
            lab[j][i] = (cellat(j - 1, i - 1) == in);
            total += lab[j][i];
            if (lab[j][i] && sp == 0) {
                stack[0] = j * w + i;
                sp = 1;
            }
        }
    if (total == 0)
        return 1;
    lab[stack[0] / w][stack[0] % w] = 2;
    while (sp > 0) {
        int k = stack[--sp], d;

        j = k / w;
        i = k % w;
        found++;
        for (d = 0; d < 4; ++d) {
            int jj = j + (d == 0) - (d == 1), ii = i + (d == 2) - (d == 3);

            if (jj >= 0 && ii >= 0 && jj < h && ii < w && lab[jj][ii] == 1) {
                lab[jj][ii] = 2;
                stack[sp++] = jj * w + ii;
            }
        }
    }
    return found == total;
}

/* the valid cells form one simply connected region bounded by a simple curve */
static int simplyconnected(void)
{
    int i, j;

    if (ncell == 0)
        return 0;
    for (j = 0; j < MY - 1; ++j)
        for (i = 0; i < MX - 1; ++i) {
            int a = cell[j][i], b = cell[j][i + 1], c = cell[j + 1][i], d = cell[j + 1][i + 1];

            if ((a && d && !b && !c) || (b && c && !a && !d))
                return 0;       /* touches itself at a node */
        }
    return component(1) && component(0);
}

static gridnodes* mkgrid(NODETYPE t)
{
    gridnodes* gn = gridnodes_create(NX, NY, t);
    int i, j;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i)
            gridnodes_readnextpoint(gn, ok[j][i] ? sx[j][i] : NAN, ok[j][i] ? sy[j][i] : NAN);
    return gn;
}

/* does the node belong to a valid cell */
static int hascell(int j, int i)
{
    return cellat(j, i) || cellat(j - 1, i) || cellat(j, i - 1) || cellat(j - 1, i - 1);
}
#endif
