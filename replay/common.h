/* Executable contracts: shared machinery.  Used only when an obligation is not
 * discharged (or a function is outside the verifier's reach). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdarg.h>
#include <stdint.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <limits.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sanitizer/common_interface_defs.h>
#include "guquit.h"
#include "gucommon.h"
#include "gridnodes.h"

#pragma GCC diagnostic ignored "-Wunused-function"
#pragma GCC diagnostic ignored "-Wformat-truncation"

static uint64_t rs = 1;
static uint64_t rnd64(void)
{
    uint64_t z = (rs += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static int rndi(int n) { return n <= 0 ? 0 : (int) (rnd64() % (uint64_t) n); }
static double rndu(void) { return (rnd64() >> 11) * (1.0 / 9007199254740992.0); }

#define CASEMAX (1 << 20)
static char casebuf[CASEMAX];
static size_t casen;
static const char* outname;
static const char* prop;
static long ncases, ndistinct;
static double budget = 20;
static struct timespec t00;

static void case_reset(void) { casen = 0; casebuf[0] = 0; alarm(20); }
static void casef(const char* fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    int k = vsnprintf(casebuf + casen, CASEMAX - casen, fmt, a);
    va_end(a);
    if (k > 0 && casen + k < CASEMAX)
        casen += k;
}
static void writeout(const char* msg)
{
    int fd = open(outname, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0)
        return;
    dprintf(fd, "property %s: failing input found on the real code\n%s\ninput:\n%s\n", prop, msg, casebuf);
    close(fd);
}
static void fail(const char* fmt, ...)
{
    char m[4000];
    va_list a;
    va_start(a, fmt);
    vsnprintf(m, sizeof m, fmt, a);
    va_end(a);
    writeout(m);
    printf("FAIL %s\n", m);
    fflush(stdout);
    _exit(1);
}
static void on_death(void)
{
    writeout("the code performs an undefined operation (sanitizer report follows the VIOLATION line)");
    _exit(1);
}
static void on_alarm(int s)
{
    (void) s;
    writeout("the call does not terminate within 20 s");
    _exit(1);
}
static void on_segv(int s)
{
    (void) s;
    writeout("the code crashes (signal)");
    _exit(1);
}

static jmp_buf qjb;
static int qarmed;
static char qmsg[1000];
static void quitfn(char* format, ...)
{
    va_list a;
    va_start(a, format);
    vsnprintf(qmsg, sizeof qmsg, format, a);
    va_end(a);
    if (!qarmed)
        fail("unexpected refusal: %s", qmsg);
    longjmp(qjb, 1);
}
/* runs stmt; refused = 1 if gu_quit was called */
#define TRY(refused, stmt) do { qarmed = 1; if (setjmp(qjb) == 0) { stmt; refused = 0; } else refused = 1; qarmed = 0; } while (0)

static double elapsed(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (t.tv_sec - t00.tv_sec) + (t.tv_nsec - t00.tv_nsec) * 1e-9;
}
static int more(void) { return elapsed() < budget; }

static int same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (isnan(a) && isnan(b)); }
static int bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

static void init(int argc, char** argv)
{
    prop = argc > 1 ? argv[1] : "?";
    rs = argc > 2 ? strtoull(argv[2], NULL, 10) * 7919 + 13 : 1;
    budget = argc > 3 ? atof(argv[3]) : 10;
    outname = argc > 4 ? argv[4] : "/dev/stdout";
    clock_gettime(CLOCK_MONOTONIC, &t00);
    __sanitizer_set_death_callback(on_death);
    signal(SIGALRM, on_alarm);
    gu_setquitfn((gu_quitfn) quitfn);
}
static int done(void)
{
    printf("OK cases=%ld distinct=%ld\n", ncases, ndistinct);
    return 0;
}

/* ---------------------------------------------------------------- grids */
typedef struct { int nx, ny; double* x; double* y; } G;
#define GX(g, j, i) ((g)->x[(long) (j) * (g)->nx + (i)])
#define GY(g, j, i) ((g)->y[(long) (j) * (g)->nx + (i)])
static G* g_new(int nx, int ny)
{
    G* g = malloc(sizeof *g);
    g->nx = nx;
    g->ny = ny;
    g->x = calloc((size_t) nx * ny, sizeof(double));
    g->y = calloc((size_t) nx * ny, sizeof(double));
    return g;
}
static void g_free(G* g) { free(g->x); free(g->y); free(g); }
static G* g_copy(G* a)
{
    G* g = g_new(a->nx, a->ny);
    memcpy(g->x, a->x, sizeof(double) * a->nx * a->ny);
    memcpy(g->y, a->y, sizeof(double) * a->nx * a->ny);
    return g;
}
static void g_print(const char* name, G* g)
{
    casef("%s: %d x %d nodes (x,y by row):\n", name, g->nx, g->ny);
    for (int j = 0; j < g->ny; ++j) {
        for (int i = 0; i < g->nx; ++i)
            casef(" (%.17g,%.17g)", GX(g, j, i), GY(g, j, i));
        casef("\n");
    }
}
static gridnodes* g_make(G* g, int type)
{
    gridnodes* gn = gridnodes_create(g->nx, g->ny, type);
    double** x = gridnodes_getx(gn);
    double** y = gridnodes_gety(gn);
    for (int j = 0; j < g->ny; ++j)
        for (int i = 0; i < g->nx; ++i) {
            x[j][i] = GX(g, j, i);
            y[j][i] = GY(g, j, i);
        }
    return gn;
}
static G* g_get(gridnodes* gn)
{
    G* g = g_new(gridnodes_getnx(gn), gridnodes_getny(gn));
    double** x = gridnodes_getx(gn);
    double** y = gridnodes_gety(gn);
    for (int j = 0; j < g->ny; ++j)
        for (int i = 0; i < g->nx; ++i) {
            GX(g, j, i) = x[j][i];
            GY(g, j, i) = y[j][i];
        }
    return g;
}
/* values: mildly deformed regular grid; NaN with probability p (in both coordinates; sometimes y only stale) */
static void g_fill(G* g, double p)
{
    double sx = 1 + rndi(5), sy = 1 + rndi(5), rot = rndi(4) * 0.4, def = rndi(3) * 0.2;
    for (int j = 0; j < g->ny; ++j)
        for (int i = 0; i < g->nx; ++i) {
            double a = (i + def * (rndu() - 0.5)) * sx, b = (j + def * (rndu() - 0.5)) * sy;
            GX(g, j, i) = a * cos(rot) - b * sin(rot) + 3;
            GY(g, j, i) = a * sin(rot) + b * cos(rot) - 2;
            if (rndu() < p) {
                GX(g, j, i) = NAN;
                GY(g, j, i) = NAN;
            }
        }
}
/* nodes are valid by their x: a stale y at an invalid node, or a missing y at a valid one */
static void g_stale(G* g)
{
    if (rndi(4) == 0)
        for (int k = 1 + rndi(3); k > 0; --k) {
            long q = rndi(g->nx * g->ny);
            if (isnan(g->x[q]))
                g->y[q] = 5;
            else
                g->y[q] = NAN;
        }
}
static void g_pattern(G* g, uint64_t mask)
{
    for (long k = 0; k < (long) g->nx * g->ny; ++k) {
        int inv = (mask >> (k % 64)) & 1;
        g->x[k] = inv ? NAN : k % g->nx + 0.25 * k;
        g->y[k] = inv ? NAN : k / g->nx - 0.5 * k;
    }
}
