/* Native side of vh.h: replays a recorded list of inputs against the real code. */
#define _GNU_SOURCE
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <signal.h>
#include "vh.h"

extern void VH_ENTRY(void);

static double* in;
static size_t nin = 0, pos = 0;
static double tolscale = 1.0;
static jmp_buf* jb = NULL;
static int live = 0;
static int quitends = 0;

static void done(int code, const char* msg)
{
    fflush(NULL);
    dprintf(2, "VH: %s\n", msg);
    _exit(code);
}

static double next(void)
{
    if (pos >= nin)
        return 0.0;             /* inputs the symbolic path never asked for */
    return in[pos++];
}

double vh_real(double lo, double hi, const char* name)
{
    double v = next();

    (void) name;
    if (!(v >= lo && v <= hi))
        v = lo;
    return v;
}

int vh_int(int lo, int hi, const char* name)
{
    double v = next();

    (void) name;
    if (!(v >= lo && v <= hi))
        return lo;
    return (int) v;
}

double vh_maybe_nan(double x, const char* name)
{
    (void) name;
    return next() != 0.0 ? (double) NAN : x;
}

double vh_double(const char* name)
{
    (void) name;
    return next();
}

int vh_anyint(const char* name)
{
    double v = next();

    (void) name;
    return v >= INT_MIN && v <= INT_MAX ? (int) v : 0;
}

void vh_quit_ends(void)
{
    quitends = 1;
}

void vh_noquit(void)
{
    quitends = 0;
}

void vh_assume(int c)
{
    if (!c)
        done(77, "assumption failed");
}

void vh_check(int c, const char* name)
{
    if (!c) {
        char buf[512];

        snprintf(buf, sizeof(buf), "CHECK FAILED: %s", name);
        done(42, buf);
    }
}

void vh_note(const char* name, double x)
{
    fprintf(stderr, "note: %s = %.17g\n", name, x);
}

void vh_checkpoint(void)
{
}

double vh_tol(double t)
{
    return t * tolscale;
}

int vh_same(double a, double b)
{
    if (isnan(a) || isnan(b))
        return isnan(a) && isnan(b);
    return a == b;
}

int vh_live(void)
{
    return live;
}

int vh_files(void)
{
    return 0;
}

static int exitcode = 0;

void vh_exit(int code)
{
    exitcode = code;
    if (jb != NULL)
        longjmp(*jb, 1);
    fflush(NULL);
    if (quitends)
        done(0, "quit as allowed");
    dprintf(2, "VH: EXIT called with %d\n", code);
    _exit(43);
}

int vh_try(void (*fn) (void*), void* arg)
{
    jmp_buf b;
    jmp_buf* old = jb;
    volatile int r = 0;

    jb = &b;
    if (setjmp(b) == 0)
        fn(arg);
    else
        r = 1;
    jb = old;
    return r;
}

static int inchild = 0;
int vh_main(int (*fn) (int, char**), int argc, char** argv, const char* ip, const char* op, const char* ep)
{
    pid_t p;
    int st;

    fflush(NULL);
    p = fork();
    if (p == 0) {
        jmp_buf b;
        int rc;

        alarm(20);
        inchild = 1;
        if (freopen(ip ? ip : "/dev/null", "r", stdin) == NULL || freopen(op, "w", stdout) == NULL || freopen(ep, "w", stderr) == NULL)
            _exit(44);
        /* an exit() inside the program ends up here */
        jb = &b;
        if (setjmp(b) == 0)
            rc = fn(argc, argv);
        else
            rc = exitcode;
        fflush(NULL);
        _exit(rc & 255);
    }
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st))
        done(99, WTERMSIG(st) == SIGALRM ? "program did not terminate" : "program crashed");
    if (WEXITSTATUS(st) == 99) {
        char buf[4000];
        FILE* f = fopen(ep, "r");
        size_t n = f ? fread(buf, 1, sizeof(buf) - 1, f) : 0;

        buf[n] = 0;
        dprintf(2, "%s\n", buf);
        done(99, "sanitizer report in the program");
    }
    return WEXITSTATUS(st);
}

static int so[4], se[4], nc = 0;
void vh_capture_begin(const char* err)
{
    int fd;

    fflush(NULL);
    so[nc] = dup(1);
    se[nc] = dup(2);
    nc++;
    fd = open(err, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
}

void vh_capture_end(void)
{
    fflush(NULL);
    nc--;
    dup2(so[nc], 1);
    dup2(se[nc], 2);
    close(so[nc]);
    close(se[nc]);
}

void* __real_malloc(size_t n);
void* __real_calloc(size_t a, size_t b);
void* __real_realloc(void* p, size_t n);
void __real_free(void* p);
char* __real_strdup(const char* s);

void* __wrap_malloc(size_t n)
{
    void* p = __real_malloc(n);

    if (p)
        live++;
    return p;
}

void* __wrap_calloc(size_t a, size_t b)
{
    void* p = __real_calloc(a, b);

    if (p)
        live++;
    return p;
}

void* __wrap_realloc(void* p, size_t n)
{
    void* q = __real_realloc(p, n);

    if (p == NULL && q != NULL)
        live++;
    if (p != NULL && q == NULL && n == 0)
        live--;
    return q;
}

void __wrap_free(void* p)
{
    if (p)
        live--;
    __real_free(p);
}

char* __wrap_strdup(const char* s)
{
    live++;
    return __real_strdup(s);
}

int main(int argc, char** argv)
{
    FILE* f;
    char buf[256];
    size_t cap = 64;
    char* t = getenv("VH_TOLSCALE");

    if (t)
        tolscale = atof(t);
    if (argc < 2 || (f = fopen(argv[1], "r")) == NULL) {
        fprintf(stderr, "usage: %s <replay file>\n", argv[0]);
        return 2;
    }
    in = __real_malloc(cap * sizeof(double));
    while (fgets(buf, sizeof(buf), f)) {
        if (buf[0] == '#')
            continue;
        if (nin == cap)
            in = __real_realloc(in, (cap *= 2) * sizeof(double));
        in[nin++] = strtod(buf, NULL);
    }
    fclose(f);
    live = 0;
    VH_ENTRY();
    fflush(NULL);
    dprintf(2, "VH: all checks passed\n");
    _exit(0);
}
