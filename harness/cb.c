/* C20, C30, C31: bit-precise (cbmc) */
#include <stdint.h>
#include "vh.h"
#include "gridnodes.h"
#include "gucommon.h"

#if !defined(NX)
#define NX 3
#endif
#if !defined(NY)
#define NY 3
#endif

/* ------------------------------------------------------------- C20 subgrid */
static double sx[NY][NX], sy[NY][NX];

static int clip(int v, int lo, int hi)
{
    return v < lo ? lo : v > hi ? hi : v;
}

void h_c20(void)
{
    NODETYPE t = vh_int(0, 3, "node type");
    int mt = vh_int(0, 1, "map type");
    gridnodes* gn = gridnodes_create(NX, NY, t);
    gridnodes* s;
    int imin, imax, jmin, jmax, i0, i1, j0, j1, i, j;

    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            sx[j][i] = vh_double("x");
            sy[j][i] = vh_double("y");
            gridnodes_readnextpoint(gn, sx[j][i], sy[j][i]);
        }
    gridnodes_setmaptype(gn, mt);
    imin = vh_anyint("imin");
    imax = vh_anyint("imax");
    jmin = vh_anyint("jmin");
    jmax = vh_anyint("jmax");
    i0 = imin < 0 ? 0 : imin;
    i1 = imax > NX - 1 ? NX - 1 : imax;
    j0 = jmin < 0 ? 0 : jmin;
    j1 = jmax > NY - 1 ? NY - 1 : jmax;
    if (i0 > i1 || j0 > j1) {
        vh_quit_ends();
        s = gridnodes_subgrid(gn, imin, imax, jmin, jmax);
        vh_check(0, "a window that does not meet the grid is rejected");
        return;
    }
    s = gridnodes_subgrid(gn, imin, imax, jmin, jmax);
    vh_check(s != gn && gridnodes_getx(s) != gridnodes_getx(gn) && gridnodes_gety(s) != gridnodes_gety(gn), "the result does not share storage with the source");
    vh_check(gridnodes_getnx(s) == i1 - i0 + 1 && gridnodes_getny(s) == j1 - j0 + 1, "the result has the size of the clipped window");
    vh_check(gridnodes_getmaptype(s) == mt, "map type is kept");
    for (j = 0; j < NY; ++j)
        for (i = 0; i < NX; ++i) {
            if (j >= j0 && j <= j1 && i >= i0 && i <= i1)
                vh_check(vh_same(gridnodes_getx(s)[j - j0][i - i0], sx[j][i]) && vh_same(gridnodes_gety(s)[j - j0][i - i0], sy[j][i]), "nodes of the window are copied");
            vh_check(vh_same(gridnodes_getx(gn)[j][i], sx[j][i]) && vh_same(gridnodes_gety(gn)[j][i], sy[j][i]), "the source is not changed");
        }
    /* independent of its source */
    gridnodes_getx(s)[0][0] = 77.0;
    gridnodes_gety(s)[0][0] = 77.0;
    vh_check(vh_same(gridnodes_getx(gn)[j0][i0], sx[j0][i0]) && vh_same(gridnodes_gety(gn)[j0][i0], sy[j0][i0]), "changing the result does not change the source");
    gridnodes_destroy(gn);
    gridnodes_getx(s)[j1 - j0][i1 - i0] = 78.0;
    gridnodes_gety(s)[j1 - j0][i1 - i0] = 78.0;
    gridnodes_destroy(s);
    vh_reach();
}

/* ------------------------------------------------------------- C30 */
static size_t want[3];
static int counted = 0;

/* stands in for malloc() in gucommon.c: records the size asked for, has no memory */
void* vh_malloc(size_t n)
{
    unsigned __int128 need = (unsigned __int128) want[0] * sizeof(void*) + (unsigned __int128) want[0] * want[1] * want[2];

    counted++;
    vh_check((unsigned __int128) n >= need, "the allocation is never smaller than the array");
    return NULL;
}

void* vh_calloc(size_t a, size_t b)
{
    unsigned __int128 need = (unsigned __int128) want[0] * sizeof(void*) + (unsigned __int128) want[0] * want[1] * want[2];

    counted++;
    vh_check((unsigned __int128) a * b >= need || (unsigned __int128) a * b > SIZE_MAX, "the allocation is never smaller than the array");
    return NULL;
}

static size_t anysize(const char* name)
{
    size_t a = (unsigned) vh_anyint(name);
    size_t b = (unsigned) vh_anyint(name);

    return a << 32 | b;
}

#if !defined(UNIT)
#define UNIT 8
#endif
#if !defined(ASIZE)
#define ASIZE 3
#endif
/* ANY: which of the dimensions is any 64-bit number */
#if !defined(ANY)
#define ANY 0
#endif
void h_c30_size(void)
{
    want[ANY] = anysize("any size");
    want[1 - ANY] = ASIZE;
    want[2] = UNIT;
    vh_quit_ends();
    (void) gu_alloc2d(want[0], want[1], want[2]);
    vh_check(0, "no array without memory");
}

/* zero sizes */
void h_c30_zero(void)
{
    size_t s[3];

    s[0] = vh_int(0, 3, "nj");
    s[1] = vh_int(0, 3, "ni");
    s[2] = vh_int(0, 3, "unit");
    vh_assume(s[0] == 0 || s[1] == 0 || s[2] == 0);
    vh_quit_ends();
    (void) gu_alloc2d(s[0], s[1], s[2]);
    vh_check(0, "a zero size is refused");
}

void h_c30_layout(void)
{
    int nj = NY, ni = NX, j, i, k;
    char** p;

    p = gu_alloc2d(nj, ni, UNIT);
    for (j = 0; j < nj; ++j) {
        if (j > 0)
            vh_check(p[j] == p[j - 1] + (size_t) ni * UNIT, "a row starts right after the previous one");
        for (i = 0; i < ni * UNIT; ++i)
            vh_check(p[j][i] == 0, "elements are zero");
    }
    /* fill from the end, so that an overlap is seen */
    for (j = nj - 1; j >= 0; --j)
        for (i = ni * UNIT - 1; i >= 0; --i)
            p[j][i] = (char) (1 + (j * ni * UNIT + i) % 100);
    for (j = 0; j < nj; ++j)
        for (i = 0; i < ni * UNIT; ++i)
            vh_check(p[j][i] == (char) (1 + (j * ni * UNIT + i) % 100), "rows do not overlap one another or the row table");
    gu_free2d(p);
    vh_reach();
}

/* ------------------------------------------------------------- C31 */
#if !defined(NB)
#define NB 8
#endif
static unsigned char text[NB + 1];
static int ntext, tpos;

/* stand-ins for the input functions (cbmc only) */
FILE* vhc_fopen(const char* p, const char* m)
{
    static char f[8];

    tpos = 0;
    return (FILE*) f;
}

int vhc_fclose(FILE* f)
{
    return 0;
}

int vhc_fgetc(FILE* f)
{
    return tpos < ntext ? text[tpos++] : EOF;
}

int vhc_feof(FILE* f)
{
    return tpos >= ntext;
}

char* vhc_fgets(char* s, int size, FILE* f)
{
    int n;

    if (tpos >= ntext || size < 2)
        return NULL;
    /* (every write is at a constant place) */
    for (n = 0; n <= NB; ++n) {
        if (n >= size - 1 || tpos >= ntext) {
            s[n] = 0;
            return s;
        }
        s[n] = (char) text[tpos++];
        if (s[n] == '\n') {
            s[n + 1] = 0;
            return s;
        }
    }
    return s;
}

void h_c31(void)
{
    int val[NX * NY], good = 1, nul = 0, k, p;
    int** m;

#if defined(LEN)
    ntext = LEN;
#else
    ntext = vh_int(0, NB, "length");
#endif
    for (k = 0; k < NB; ++k) {
        text[k] = (unsigned char) vh_int(0, 255, "byte");
        if (k < ntext && text[k] == 0)
            nul = 1;
    }
    for (k = 0, p = 0; k < NX * NY; ++k) {
        /* one line */
        if (!good)
            continue;
        if (p < ntext && (text[p] == '0' || text[p] == '1') && (p + 1 >= ntext || text[p + 1] == '\n')) {
            val[k] = text[p] - '0';
            p += 2;
        } else
            good = 0;
    }
#if !defined(VH_CBMC)
    {
        FILE* f = fopen("mask.txt", "w");

        fwrite(text, 1, ntext, f);
        fclose(f);
    }
#endif
    if (nul || !good)
        vh_quit_ends();
    m = gu_readmask("mask.txt", NX, NY);
    if (nul)
        return;                 /* only no invalid access is required */
    vh_check(good, "anything but lines of 0 or 1 is rejected");
    for (k = 0; k < NX * NY; ++k)
        vh_check(m[k / NX][k % NX] == val[k], "values are returned in row-major order");
#if !defined(VH_CBMC)
    gu_free2d(m);
#endif
    vh_reach();
}
