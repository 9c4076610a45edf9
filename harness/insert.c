/* C21: insertgrid */
#include "toolh.h"

int insertgrid_main(int argc, char* argv[]);

#if !defined(NX1)
#define NX1 2
#endif
#if !defined(NY1)
#define NY1 2
#endif
#if !defined(NX2)
#define NX2 2
#endif
#if !defined(NY2)
#define NY2 1
#endif

#if !defined(FEW)
#define FEW 0
#endif

static double ax[MAXN], ay[MAXN], bx[MAXN], by[MAXN], rx[MAXN], ry[MAXN];

static void run(int mode)
{
    int i0, j0, merge, type, nx, ny, i, j, k, rc, argc = 0;
    char ib[20], jb[20];
    char* argv[12];
    FILE* f;

    i0 = vh_int(0, NX1 + 1, "i0");
    j0 = vh_int(0, NY1 + 1, "j0");
    merge = vh_int(0, 1, "merge");
    type = mode ? vh_int(1, 3, "node type") : 0;
    nx = i0 + NX2 > NX1 ? i0 + NX2 : NX1;
    ny = j0 + NY2 > NY1 ? j0 + NY2 : NY1;
    for (k = 0; k < NX1 * NY1; ++k) {
        ax[k] = vh_real(0, 10, "x of A");
        ay[k] = vh_real(0, 10, "y of A");
        if (!FEW || k % 2 == 0)
            ax[k] = vh_maybe_nan(ax[k], "A invalid");
    }
    for (k = 0; k < NX2 * NY2; ++k) {
        bx[k] = vh_real(20, 30, "x of B");
        by[k] = vh_real(20, 30, "y of B");
        bx[k] = vh_maybe_nan(bx[k], "B invalid");
    }
    writegrid("a.txt", NX1, NY1, ax, ay);
    writegrid("b.txt", NX2, NY2, bx, by);
    for (j = 0; j < ny; ++j)
        for (i = 0; i < nx; ++i) {
            int inb = i >= i0 && i < i0 + NX2 && j >= j0 && j < j0 + NY2, ina = i < NX1 && j < NY1;
            int kb = (j - j0) * NX2 + i - i0, ka = j * NX1 + i;
            int k = j * nx + i;

            if (merge && inb && isnan(bx[kb]))
                inb = 0;
            rx[k] = inb ? bx[kb] : ina ? ax[ka] : NAN;
            ry[k] = inb ? by[kb] : ina ? ay[ka] : NAN;
        }
    if (type == NT_COR)
        validate_co(nx, ny, rx, ry);
    else if (type == NT_DD && nx % 2 && ny % 2)
        validate_dd(nx, ny, rx, ry);
    sprintf(ib, "%d", i0);
    sprintf(jb, "%d", j0);
    argv[argc++] = "insertgrid";
    if (merge && (i0 & 1))
        argv[argc++] = "-m";
    argv[argc++] = (j0 & 1) ? "-" : "a.txt";
    argv[argc++] = "b.txt";
    argv[argc++] = ib;
    argv[argc++] = jb;
    if (type) {
        argv[argc++] = "-i";
        argv[argc++] = tnames[type];
    }
    if (merge && !(i0 & 1))
        argv[argc++] = "-m";
    if (i0 == 1)
        argv[argc++] = "-v";
    argv[argc] = NULL;
    rc = vh_main(insertgrid_main, argc, argv, "a.txt", "out.txt", "err.txt");
    if (type == NT_DD && (nx % 2 == 0 || ny % 2 == 0)) {
        vh_check(rc != 0 && isempty("out.txt"), "a grid of even size is not a double density grid");
        return;
    }
    vh_check(rc == 0, "exit status is 0");
    f = fopen("out.txt", "r");
    vh_check(nextheader(f, nx, ny), "the result covers both grids");
    for (k = 0; k < nx * ny; ++k)
        vh_check(nextnode(f, rx[k], ry[k], CT_XY), "every node comes from where it should");
    vh_check(fgetc(f) == EOF, "nothing else is written");
    fclose(f);
}

void h_plain(void)
{
    run(0);
}

void h_typed(void)
{
    run(1);
}

/* offsets at the end of the range of int */
void h_far(void)
{
    static char* big[2] = { "2147483647", "2147483646" };
    int a = vh_int(0, 1, "offset"), which = vh_int(0, 1, "which"), rc;
    char* argv[6] = { "insertgrid", "a.txt", "b.txt", "0", "0", NULL };

    ax[0] = ay[0] = bx[0] = by[0] = 1;
    writegrid("a.txt", 1, 1, ax, ay);
    bx[1] = by[1] = 2;
    writegrid("b.txt", which ? 1 : 2, which ? 2 : 1, bx, by);
    argv[3 + which] = big[a];
    rc = vh_main(insertgrid_main, 5, argv, "a.txt", "out.txt", "err.txt");
    vh_check(rc != 0 && isempty("out.txt"), "a result too big is refused");
}
