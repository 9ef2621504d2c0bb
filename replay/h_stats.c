/* C21: the statistics are printed by gridnodes_calcstats() when gu_verbose is set */
#include "common.h"

extern int gu_verbose;

static char text[4000];
static void calc(gridnodes* gn)
{
    static int fd = -1;
    if (fd < 0)
        fd = memfd_create("err", 0);
    if (ftruncate(fd, 0))
        fail("no scratch file");
    lseek(fd, 0, SEEK_SET);
    int keep = dup(2);
    fflush(stderr);
    dup2(fd, 2);
    gu_verbose = 1;
    gridnodes_calcstats(gn);
    gu_verbose = 0;
    fflush(stderr);
    dup2(keep, 2);
    close(keep);
    ssize_t n = pread(fd, text, sizeof text - 1, 0);
    text[n < 0 ? 0 : n] = 0;
}

/* number after the k-th ending of a text */
static const char* find(const char* what)
{
    const char* p = strstr(text, what);
    if (p == NULL)
        fail("the statistics lack \"%s\":\n%s", what, text);
    return p + strlen(what);
}

static double dev(double ax, double ay, double bx, double by)
{
    return fabs(90 - fabs(atan2(ax * by - ay * bx, ax * bx + ay * by)) * 180 / M_PI);
}

static void near(const char* what, double got, double want, double tol)
{
    if (isfinite(want) ? !(fabs(got - want) <= tol) : isfinite(got))
        fail("%s is %g instead of %g", what, got, want);
}

static void c21(void)
{
    int type = rndi(12) == 0 ? (rndi(2) ? NT_CEN : NT_NONE) : rndi(2) ? NT_DD : NT_COR;
    int nx = 1 + rndi(8), ny = 1 + rndi(8);
    if (type == NT_DD)
        nx |= 1, ny |= 1;
    G* g = g_new(nx, ny);
    g_fill(g, rndi(3) * 0.12);
    case_reset();
    casef("gridnodes_calcstats(), node type %s\n", nodetype2str[type]);
    g_print("grid", g);
    gridnodes* gn = g_make(g, type);
    int pre = rndi(2);
    gridnodes* ref = g_make(g, type);
    if (type == NT_DD || type == NT_COR)
        gridnodes_validate(ref);
    if (pre && (type == NT_DD || type == NT_COR)) {
        casef("validated before\n");
        gridnodes_validate(gn);
    }
    int again = 1 + rndi(2);
    int mt = gridnodes_getmaptype(gn);
    G* v = g_get(ref);
    while (again-- > 0) {
        calc(gn);
        G* w = g_get(gn);
        if (w->nx != nx || w->ny != ny || gridnodes_getmaptype(gn) != mt)
            fail("the grid changed size or settings");
        for (long k = 0; k < (long) nx * ny; ++k)
            if (!bits(w->x[k], v->x[k]) || !bits(w->y[k], v->y[k]))
                fail("node %ld changed from (%.17g,%.17g) to (%.17g,%.17g)", k, v->x[k], v->y[k], w->x[k], w->y[k]);
        g_free(w);
        if (type != NT_DD && type != NT_COR)
            continue;
        int s = type == NT_DD ? 2 : 1, nce1 = (nx - 1) / s, nce2 = (ny - 1) / s, n = 0;
        double *D = calloc((size_t) nce1 * nce2 + 1, sizeof(double)), *A = calloc((size_t) nce1 * nce2 + 1, sizeof(double)), md = 0, ma = 1, sd = 0, sa = 0, sx = 0, sy = 0;
        for (int j = 0; j < nce2; ++j)
            for (int i = 0; i < nce1; ++i) {
                double x[4], y[4];
                int ok = 1;
                D[j * nce1 + i] = A[j * nce1 + i] = NAN;
                for (int k = 0; k < 4; ++k) {
                    int b = s * (j + (k == 2 || k == 3)), a = s * (i + (k == 1 || k == 2));    /* around the cell */
                    x[k] = GX(v, b, a);
                    y[k] = GY(v, b, a);
                    ok &= !isnan(x[k]);
                }
                if (!ok)
                    continue;
                double m = 0;
                for (int k = 0; k < 4; ++k) {
                    int p = (k + 3) % 4, q = (k + 1) % 4;
                    double d = dev(x[p] - x[k], y[p] - y[k], x[q] - x[k], y[q] - y[k]);
                    sd += d / 4;
                    if (d > m)
                        m = d;
                }
                double u = hypot((x[0] + x[1] - x[2] - x[3]) / 2, (y[0] + y[1] - y[2] - y[3]) / 2), t = hypot((x[0] + x[3] - x[1] - x[2]) / 2, (y[0] + y[3] - y[1] - y[2]) / 2);
                double r = u > t ? u / t : t / u;
                D[j * nce1 + i] = m;
                A[j * nce1 + i] = r;
                md = m > md ? m : md;
                ma = r > ma ? r : ma;
                sa += r;
                sx += (hypot(x[1] - x[0], y[1] - y[0]) + hypot(x[3] - x[2], y[3] - y[2])) / 2;
                sy += (hypot(x[3] - x[0], y[3] - y[0]) + hypot(x[2] - x[1], y[2] - y[1])) / 2;
                n++;
            }
        double val, val2;
        int i, j;
        if (sscanf(find("maximum deviation from orthogonality ="), "%lf deg, in cell (%d,%d)", &val, &i, &j) != 3)
            fail("cannot read the maximum deviation:\n%s", text);
        near("the maximum deviation from orthogonality", val, md, 6e-4);
        if (i == -1 && j == -1 ? md > 1e-5 : i < 0 || i >= nce1 || j < 0 || j >= nce2 || !(D[j * nce1 + i] >= md - 1e-5))
            fail("the maximum deviation, %g, is not that of the reported cell (%d,%d)", md, i, j);
        if (sscanf(find("maximum aspect ratio ="), "%lf, in cell (%d,%d)", &val, &i, &j) != 3)
            fail("cannot read the maximum aspect ratio:\n%s", text);
        near("the maximum aspect ratio", val, ma, 6e-4);
        if (i == -1 && j == -1 ? ma > 1 + 1e-9 : i < 0 || i >= nce1 || j < 0 || j >= nce2 || !(A[j * nce1 + i] >= ma - 1e-9))
            fail("the maximum aspect ratio, %g, is not that of the reported cell (%d,%d)", ma, i, j);
        near("the mean deviation from orthogonality", atof(find("mean deviation from orthogonality =")), sd / n, 6e-4);
        near("the mean aspect ratio", atof(find("mean aspect ratio =")), sa / n, 6e-4);
        if (sscanf(find("mean cell size ="), "%lf x %lf", &val, &val2) != 2)
            fail("cannot read the mean cell size:\n%s", text);
        near("the mean cell width", val, sx / n, 6e-3 * sx / n);
        near("the mean cell height", val2, sy / n, 6e-3 * sy / n);
        free(D);
        free(A);
        ncases++;
    }
    g_free(g);
    g_free(v);
    gridnodes_destroy(gn);
    gridnodes_destroy(ref);
}

int main(int argc, char** argv)
{
    init(argc, argv);
    while (more()) {
        c21();
        ndistinct++;
    }
    return done();
}
