/* C04, C05, C09, C10, C11, C20 */
#include "common.h"
#include "poly.h"
#include "gridmap.h"
#include "gridaverager.h"

static int close_to(double a, double b, double scale) { return (isnan(a) && isnan(b)) || fabs(a - b) <= 1e-9 * (1 + scale); }

static double scale_of(G* g)
{
    double s = 0;
    for (long k = 0; k < (long) g->nx * g->ny; ++k) {
        if (isfinite(g->x[k]))
            s = fmax(s, fabs(g->x[k]));
        if (isfinite(g->y[k]))
            s = fmax(s, fabs(g->y[k]));
    }
    return s;
}

static int allvalid(G* g)
{
    for (long k = 0; k < (long) g->nx * g->ny; ++k)
        if (isnan(g->x[k]) || isnan(g->y[k]))
            return 0;
    return 1;
}

/* arbitrary finite values, no geometry */
static void g_any(G* g, double p)
{
    for (long k = 0; k < (long) g->nx * g->ny; ++k) {
        g->x[k] = rndi(9) ? (rndu() - 0.5) * 200 : rndi(5) - 2;
        g->y[k] = rndi(9) ? (rndu() - 0.5) * 200 : rndi(5) - 2;
        if (rndu() < p)
            g->x[k] = g->y[k] = NAN;
    }
}

/* bilinear value of array A (by row) at cell (j,i), offsets u, v; only nodes of nonzero weight take part */
static double bil(G* g, double* A, int i, int j, double u, double v)
{
#define N(a, b) A[(long) (a) * g->nx + (b)]
    if (u == 0 && v == 0)
        return N(j, i);
    if (u == 0)
        return N(j, i) * (1 - v) + N(j + 1, i) * v;
    if (v == 0)
        return N(j, i) * (1 - u) + N(j, i + 1) * u;
    return N(j, i) * (1 - u) * (1 - v) + N(j, i + 1) * u * (1 - v) + N(j + 1, i) * (1 - u) * v + N(j + 1, i + 1) * u * v;
}

static double someindex(int n)
{
    switch (rndi(14)) {
    case 12: return nextafter(rndi(n + 1), rndi(2) ? -1e9 : 1e9);
    case 13: return rndi(n + 1) + (rndi(2) ? 1 : -1) * pow(10, -1 - rndi(14));
    case 0: return NAN;
    case 1: return -rndu() * 3;
    case 2: return n + rndu() * 3;
    case 3: return rndi(2) ? INFINITY : -INFINITY;
    case 4: return rndi(2) ? 1e300 : -1e300;
    case 5: return rndi(n + 1) + 0.5;
    case 6: return n;
    case 7: return rndi(2) ? -0.0 : nextafter(n, n + 1.0);
    case 8: case 9: return rndi(n + 1);
    default: return rndu() * n;
    }
}

/* heap copies of exactly the needed size, so that a stray read is seen */
static double** rows(G* g, double* a)
{
    double** r = malloc(sizeof(double*) * g->ny);
    double* d = malloc(sizeof(double) * g->nx * g->ny);
    memcpy(d, a, sizeof(double) * g->nx * g->ny);
    for (int j = 0; j < g->ny; ++j)
        r[j] = d + (long) j * g->nx;
    return r;
}
static void freerows(double** r) { free(r[0]); free(r); }

/* a map made by either constructor */
static gridmap* anymap(int n1, int n2, double** gx, double** gy, int bin)
{
    int type = bin ? GRIDMAP_TYPE_BINARY : GRIDMAP_TYPE_KDTREE;
    if (rndi(3))
        return gridmap_build(n1, n2, gx, gy, type);
    gridnodes* gn = gridnodes_create2(n1 + 1, n2 + 1, NT_COR, gx, gy);
    gridnodes_setmaptype(gn, type);
    gridmap* gm = gridmap_build2(gn);
    free(gn);
    return gm;
}

static void c09(void)
{
    int n1 = rndi(6), n2 = rndi(6);
    G* g = g_new(n1 + 1, n2 + 1);
    int bin = rndi(3) == 0 && n1 && n2;
    if (bin)
        g_fill(g, 0);
    else
        g_any(g, rndi(3) * 0.1);
    double sc = scale_of(g);
    double** gx = rows(g, g->x);
    double** gy = rows(g, g->y);
    case_reset();
    g_print("nodes", g);
    gridmap* gm = anymap(n1, n2, gx, gy, bin);
    size_t base = casen;
    for (int k = 0; k < 60; ++k) {
        double fi = someindex(n1), fj = someindex(n2), x = -7, y = -7;
        casen = base;
        casef("gridmap_fij2xy(fi=%.17g, fj=%.17g), %s map of %d x %d cells\n", fi, fj, bin ? "binary" : "kd-tree", n1, n2);
        int st = gridmap_fij2xy(gm, fi, fj, &x, &y);
        int in = fi >= 0 && fi <= n1 && fj >= 0 && fj <= n2;
        if ((st != 0) != in)
            fail("indices %s the grid reported as %s", in ? "inside" : "outside", st ? "success" : "failure");
        if (isnan(fi) || isnan(fj)) {
            if (!isnan(x) || !isnan(y))
                fail("NaN index gives (%.17g,%.17g)", x, y);
        } else {
            double ei = fi < 0 ? 0 : fi > n1 ? (n1 ? n1 - 1e-8 : 0) : fi, ej = fj < 0 ? 0 : fj > n2 ? (n2 ? n2 - 1e-8 : 0) : fj;
            int i = floor(ei), j = floor(ej);
            double u = ei - i, v = ej - j, wx = bil(g, g->x, i, j, u, v), wy = bil(g, g->y, i, j, u, v);
            if (!close_to(x, wx, sc) || !close_to(y, wy, sc))
                fail("result (%.17g,%.17g), bilinear interpolation is (%.17g,%.17g)", x, y, wx, wy);
            if (u == 0 && v == 0 && (!same(x, wx) || !same(y, wy)))
                fail("result (%.17g,%.17g) is not the node (%.17g,%.17g)", x, y, wx, wy);
        }
        ncases++;
    }
    gridmap_destroy(gm);
    freerows(gx);
    freerows(gy);
    g_free(g);
}

static double mean4(double* A, int nx, int j, int i, int dj, int di)
{
    double s = A[(long) j * nx + i];
    if (!dj && !di)
        return s;
    if (dj && di)
        return (s + A[(long) j * nx + i + 1] + A[(long) (j + 1) * nx + i] + A[(long) (j + 1) * nx + i + 1]) / 4;
    return (s + A[(long) (j + dj) * nx + i + di]) / 2;
}

static void c04(void)
{
    int nx = 1 + rndi(7), ny = 1 + rndi(7), bin = 0;
    G* g = g_new(nx, ny);
    g_fill(g, rndi(3) * 0.07);
    if (allvalid(g) && nx > 1 && ny > 1)
        bin = rndi(2);
    for (int t = 0; t < 2; ++t) {
        int type = t ? NT_DD : NT_CEN;
        int pre = rndi(2);
        case_reset();
        casef("gridnodes_transform() of a corner grid to %s (%s map, validated before: %d)\n", nodetype2str[type], bin ? "binary" : "kd-tree", pre);
        g_print("grid", g);
        gridnodes* ref = g_make(g, NT_COR);
        gridnodes_validate(ref);
        G* v = g_get(ref);
        gridnodes* gn = g_make(g, NT_COR);
        gridnodes_setmaptype(gn, bin ? GRIDMAP_TYPE_BINARY : GRIDMAP_TYPE_KDTREE);
        if (pre)
            gridnodes_validate(gn);
        gridnodes* r = NULL;
        int refused;
        TRY(refused, r = gridnodes_transform(gn, type));
        int w = t ? 2 * nx - 1 : nx - 1, h = t ? 2 * ny - 1 : ny - 1;
        if (refused) {
            if (w > 0 && h > 0)
                fail("the conversion is refused");
        } else {
            G* q = g_get(r);
            if (q->nx != w || q->ny != h)
                fail("result is %d x %d instead of %d x %d", q->nx, q->ny, w, h);
            if (gridnodes_getmaptype(r) != (bin ? GRIDMAP_TYPE_BINARY : GRIDMAP_TYPE_KDTREE))
                fail("map type lost");
            for (int j = 0; j < h; ++j)
                for (int i = 0; i < w; ++i) {
                    int a = t ? j / 2 : j, b = t ? i / 2 : i, da = t ? j % 2 : 1, db = t ? i % 2 : 1;
                    double ex = mean4(v->x, nx, a, b, da, db), ey = mean4(v->y, nx, a, b, da, db);
                    if (!close_to(GX(q, j, i), ex, 100) || !close_to(GY(q, j, i), ey, 100) || (!da && !db && (!same(GX(q, j, i), ex) || !same(GY(q, j, i), ey))))
                        fail("result node (j=%d,i=%d) is (%.17g,%.17g), not (%.17g,%.17g)", j, i, GX(q, j, i), GY(q, j, i), ex, ey);
                }
            G* s = g_get(gn);
            for (long k = 0; k < (long) nx * ny; ++k)
                if (!bits(s->x[k], v->x[k]) || !bits(s->y[k], v->y[k]))
                    fail("source node %ld changed", k);
            int ea = -1, eb = -1;
            TRY(refused, (ea = gridnodes_getnce1(r), eb = gridnodes_getnce2(r)));
            if (refused || ea != nx - 1 || eb != ny - 1)
                fail("the result is not of type %s", nodetype2str[type]);
            g_free(s);
            g_free(q);
            gridnodes_destroy(r);
        }
        g_free(v);
        gridnodes_destroy(gn);
        gridnodes_destroy(ref);
        ncases++;
    }
    g_free(g);
}

/* nodes of the result that validation keeps, from which of them were valid before it */
static int kept(const char* v, int w, int h, int j, int i, int two)
{
#define V(a, b) ((a) >= 0 && (b) >= 0 && (a) < h && (b) < w && v[(long) (a) * w + (b)])
    if (!V(j, i))
        return 0;
    if (two && j % 2 && i % 2)
        return kept(v, w, h, j - 1, i - 1, 1) && kept(v, w, h, j - 1, i + 1, 1) && kept(v, w, h, j + 1, i - 1, 1) && kept(v, w, h, j + 1, i + 1, 1);
    if (two && i % 2)
        return kept(v, w, h, j, i - 1, 1) && kept(v, w, h, j, i + 1, 1);
    if (two && j % 2)
        return kept(v, w, h, j - 1, i, 1) && kept(v, w, h, j + 1, i, 1);
    int s = two ? 2 : 1;
    for (int a = -s; a <= s; a += 2 * s)
        for (int b = -s; b <= s; b += 2 * s)
            if (V(j + a, i) && V(j, i + b) && V(j + a, i + b))
                return 1;
    return 0;
}

static void c05(void)
{
    int big = rndi(40) == 0 ? 15 : 0, nx = 1 + rndi(8) + big, ny = 1 + rndi(8) + big, mode = rndi(4);
    G* g = g_new(nx, ny);
    if (mode)
        g_any(g, mode == 1 ? 0 : mode == 2 ? 0.15 : 0.45);
    else
        g_fill(g, rndi(3) * 0.1);
    for (int t = 0; t < 2; ++t) {
        int type = t ? NT_DD : NT_COR, pre = rndi(2);
        case_reset();
        casef("gridnodes_transform() of a centre grid to %s (validated before: %d)\n", nodetype2str[type], pre);
        g_print("grid", g);
        gridnodes* gn = g_make(g, NT_CEN);
        if (pre)
            gridnodes_validate(gn);
        G* v = g_get(gn);
        gridnodes* r = NULL;
        int refused;
        TRY(refused, r = gridnodes_transform(gn, type));
        if (refused)
            fail("the conversion is refused");
        int w = t ? 2 * nx + 1 : nx + 1, h = t ? 2 * ny + 1 : ny + 1;
        G* q = g_get(r);
        if (q->nx != w || q->ny != h)
            fail("result is %d x %d instead of %d x %d", q->nx, q->ny, w, h);
        char* near = calloc((long) w * h, 1);
        long* d2 = calloc((long) w * h, sizeof(long));
        for (int j = 0; j < h; ++j)
            for (int i = 0; i < w; ++i) {
                int a = t ? i - 1 : 2 * i - 1, b = t ? j - 1 : 2 * j - 1;
                long best = LONG_MAX;
                for (int k = 0; k + 1 < ny; ++k)
                    for (int l = 0; l + 1 < nx; ++l)
                        if (!isnan(GX(v, k, l)) && !isnan(GX(v, k + 1, l)) && !isnan(GX(v, k, l + 1)) && !isnan(GX(v, k + 1, l + 1))) {
                            long d = (long) (2 * l + 1 - a) * (2 * l + 1 - a) + (long) (2 * k + 1 - b) * (2 * k + 1 - b);
                            if (d < best)
                                best = d;
                        }
                d2[(long) j * w + i] = best;
                near[(long) j * w + i] = best < 9;
            }
        for (int j = 0; j < h; ++j)
            for (int i = 0; i < w; ++i) {
                int a = t ? i - 1 : 2 * i - 1, b = t ? j - 1 : 2 * j - 1, hit = 0;
                double x = GX(q, j, i), y = GY(q, j, i);
                if (!kept(near, w, h, j, i, t)) {
                    if (!isnan(x) || !isnan(y))
                        fail("result node (j=%d,i=%d) is (%.17g,%.17g), not NaN", j, i, x, y);
                    continue;
                }
                for (int k = 0; k + 1 < ny && !hit; ++k)
                    for (int l = 0; l + 1 < nx && !hit; ++l)
                        if (!isnan(GX(v, k, l)) && !isnan(GX(v, k + 1, l)) && !isnan(GX(v, k, l + 1)) && !isnan(GX(v, k + 1, l + 1))
                            && (long) (2 * l + 1 - a) * (2 * l + 1 - a) + (long) (2 * k + 1 - b) * (2 * k + 1 - b) == d2[(long) j * w + i])
                            hit = close_to(x, bil(v, v->x, l, k, a / 2.0 - l, b / 2.0 - k), 1000) && close_to(y, bil(v, v->y, l, k, a / 2.0 - l, b / 2.0 - k), 1000);
                if (!hit)
                    fail("result node (j=%d,i=%d) is (%.17g,%.17g), which none of the nearest complete blocks gives", j, i, x, y);
            }
        G* s = g_get(gn);
        for (long k = 0; k < (long) nx * ny; ++k)
            if (!bits(s->x[k], g->x[k]) || !bits(s->y[k], g->y[k]))
                fail("source node %ld changed", k);
        int ea = -1, eb = -1;
        TRY(refused, (ea = gridnodes_getnce1(r), eb = gridnodes_getnce2(r)));
        if (refused || ea != nx || eb != ny)
            fail("the result is not of type %s", nodetype2str[type]);
        free(near);
        free(d2);
        g_free(s);
        g_free(q);
        g_free(v);
        gridnodes_destroy(r);
        gridnodes_destroy(gn);
        ncases++;
    }
    g_free(g);
}

/* closed quadrilateral (even-odd, boundary included), with a tolerance band left undecided: 1, 0 or -1 */
static int inquad(const double* X, const double* Y, double x, double y, double tol)
{
    int in = 0;
    for (int k = 0; k < 4; ++k) {
        double x0 = X[k], y0 = Y[k], x1 = X[(k + 1) % 4], y1 = Y[(k + 1) % 4];
        double dx = x1 - x0, dy = y1 - y0, l2 = dx * dx + dy * dy, t = l2 > 0 ? ((x - x0) * dx + (y - y0) * dy) / l2 : 0;
        t = t < 0 ? 0 : t > 1 ? 1 : t;
        if (hypot(x0 + t * dx - x, y0 + t * dy - y) <= tol)
            return -1;
        if ((y0 <= y) != (y1 <= y) && x < x0 + (y - y0) / dy * dx)
            in = !in;
    }
    return in;
}
static void quad(G* g, int i, int j, double* X, double* Y)
{
    int di[] = { 0, 1, 1, 0 }, dj[] = { 0, 0, 1, 1 };
    for (int k = 0; k < 4; ++k) {
        X[k] = GX(g, j + dj[k], i + di[k]);
        Y[k] = GY(g, j + dj[k], i + di[k]);
    }
}

static double somewhere(G* g, double* A)
{
    double lo = INFINITY, hi = -INFINITY;
    for (long k = 0; k < (long) g->nx * g->ny; ++k)
        if (isfinite(A[k])) {
            lo = fmin(lo, A[k]);
            hi = fmax(hi, A[k]);
        }
    if (!(lo <= hi))
        lo = -1, hi = 1;
    return lo + (hi - lo) * (rndu() * 1.1 - 0.05);
}

static gridmap* somemap(G* g, double*** gx, double*** gy, int* bin, int simple)
{
    *bin = rndi(3) == 0 && simple && allvalid(g) && g->nx > 1 && g->ny > 1;
    *gx = rows(g, g->x);
    *gy = rows(g, g->y);
    case_reset();
    g_print("nodes", g);
    casef("%s map\n", *bin ? "binary" : "kd-tree");
    return anymap(g->nx - 1, g->ny - 1, *gx, *gy, *bin);
}

static void querypoint(G* g, double* x, double* y)
{
    int n1 = g->nx - 1, n2 = g->ny - 1;
    *x = somewhere(g, g->x);
    *y = somewhere(g, g->y);
    if (rndi(2) && n1 && n2) {
        int i = rndi(n1), j = rndi(n2);
        double u = rndi(6) ? rndu() : rndi(2), v = rndi(6) ? rndu() : rndi(2);
        *x = bil(g, g->x, i, j, u, v);
        *y = bil(g, g->y, i, j, u, v);
    }
    if (rndi(25) == 0) {
        double s[] = { NAN, INFINITY, -INFINITY, 1e308 };
        *(rndi(2) ? x : y) = s[rndi(4)];
    }
    if (rndi(30) == 0)
        *x = *y = 1e308;
}

static void c11(void)
{
    G* g = g_new(1 + rndi(6), 1 + rndi(6));
    int simple = rndi(3) > 0;
    if (simple)
        g_fill(g, rndi(4) * 0.1);
    else
        g_any(g, rndi(4) * 0.1);
    if (rndi(12) == 0)
        for (long k = 0; k < (long) g->nx * g->ny; ++k)
            g->x[k] = g->y[k] = NAN;
    double** gx, ** gy;
    int bin;
    double sc = scale_of(g);
    /* a binary map needs a simple outline */
    gridmap* gm = somemap(g, &gx, &gy, &bin, simple);
    size_t base = casen;
    for (int k = 0; k < 40; ++k) {
        double x, y;
        querypoint(g, &x, &y);
        int i = 77, j = 78;
        casen = base;
        casef("gridmap_xy2ij(x=%.17g, y=%.17g)\n", x, y);
        int ok = gridmap_xy2ij(gm, x, y, &i, &j);
        if (!ok) {
            if (i != -1 || j != -1)
                fail("failed location leaves i=%d, j=%d", i, j);
        } else {
            if (!isfinite(x) || !isfinite(y))
                fail("a non-finite point is located in cell i=%d, j=%d", i, j);
            if (!bin) {
                if (i < 0 || j < 0 || i >= g->nx - 1 || j >= g->ny - 1)
                    fail("located in cell i=%d, j=%d outside the grid", i, j);
                double X[4], Y[4];
                quad(g, i, j, X, Y);
                for (int q = 0; q < 4; ++q)
                    if (!isfinite(X[q]))
                        fail("located in the invalid cell i=%d, j=%d", i, j);
                if (inquad(X, Y, x, y, 1e-9 * (1 + sc)) == 0)
                    fail("located in cell i=%d, j=%d, which does not contain the point", i, j);
            }
        }
        ncases++;
    }
    gridmap_destroy(gm);
    freerows(gx);
    freerows(gy);
    g_free(g);
}

static void c10(void)
{
    int single = rndi(3);
    G* g = single ? g_new(2, 2) : g_new(2 + rndi(5), 2 + rndi(5));
    g_fill(g, rndi(4) * 0.05);
    while (single) {
        /* one cell of any convex shape */
        double* X = g->x, * Y = g->y;
        int ring[] = { 0, 1, 3, 2 }, n = 0;
        for (int k = 0; k < 4; ++k)
            X[k] = single == 1 ? rndu() * 4 : rndi(5), Y[k] = single == 1 ? rndu() * 4 : rndi(5);
        for (int k = 0; k < 4; ++k) {
            int a = ring[k], b = ring[(k + 1) % 4], c = ring[(k + 2) % 4];
            n += (X[b] - X[a]) * (Y[c] - Y[b]) - (Y[b] - Y[a]) * (X[c] - X[b]) > 0.2;
        }
        if (n == 4)
            break;
    }
    if (rndi(2))
        for (long k = 0; k < (long) g->nx * g->ny; ++k)
            g->x[k] = -g->x[k];
    double** gx, ** gy;
    int bin;
    gridmap* gm = somemap(g, &gx, &gy, &bin, 1);
    size_t base = casen;
    double sc = scale_of(g);
    for (int k = 0; k < 40; ++k) {
        double x, y, fi = 5, fj = 6, x1, y1;
        int i, j;
        querypoint(g, &x, &y);
        casen = base;
        casef("gridmap_xy2fij(x=%.17g, y=%.17g)\n", x, y);
        int ok = gridmap_xy2fij(gm, x, y, &fi, &fj);
        int lo = gridmap_xy2ij(gm, x, y, &i, &j);
        if (!ok) {
            if (!isnan(fi) || !isnan(fj))
                fail("failure leaves fi=%.17g, fj=%.17g", fi, fj);
        } else {
            if (!lo)
                fail("success for a point that cannot be located");
            if (!(fi >= i && fi <= i + 1 && fj >= j && fj <= j + 1))
                fail("fi=%.17g, fj=%.17g is not in the cell i=%d, j=%d", fi, fj, i, j);
            double X[4], Y[4];
            quad(g, i, j, X, Y);
            if (inquad(X, Y, x, y, 1e-9 * (1 + sc)) == 0)
                break;          /* not in the located cell: nothing promised, nor of the branch chosen */
            gridmap_fij2xy(gm, fi, fj, &x1, &y1);
            if (fabs(x1 - x) > 1e-4 * (1 + sc) || fabs(y1 - y) > 1e-4 * (1 + sc))
                fail("fi=%.17g, fj=%.17g maps back to (%.17g,%.17g)", fi, fj, x1, y1);
        }
        ncases++;
    }
    gridmap_destroy(gm);
    freerows(gx);
    freerows(gy);
    g_free(g);
}

static void c20(void)
{
    G* g = g_new(2 + rndi(5), 2 + rndi(5));
    g_fill(g, rndi(4) * 0.05);
    double** gx, ** gy;
    int bin;
    gridmap* gm = somemap(g, &gx, &gy, &bin, 1);
    int n1 = g->nx - 1, n2 = g->ny - 1;
    double* sum = calloc(n1 * n2, sizeof(double));
    double* mag = calloc(n1 * n2, sizeof(double));
    int* cnt = calloc(n1 * n2, sizeof(int));
    gridaverager* ga = ga_create(gm);
    for (int batch = 0; batch < 4; ++batch) {
        int n = rndi(30);
        point* p = malloc(sizeof(point) * (n + 1));
        for (int k = 0; k < n; ++k) {
            int i, j;
            querypoint(g, &p[k].x, &p[k].y);
            p[k].z = rndi(8) ? (rndu() - 0.5) * 10 : rndi(3) - 1;
            casef("add (%.17g,%.17g) value %.17g\n", p[k].x, p[k].y, p[k].z);
            if (gridmap_xy2ij(gm, p[k].x, p[k].y, &i, &j)) {
                sum[j * n1 + i] += p[k].z;
                mag[j * n1 + i] += fabs(p[k].z);
                cnt[j * n1 + i]++;
            }
        }
        ga_addpoints(ga, n, p);
        free(p);
        size_t base = casen;
        for (int k = 0; k < 30; ++k) {
            point q = { 0, 0, 4.25 };
            int i, j;
            querypoint(g, &q.x, &q.y);
            casen = base;
            casef("ask at (%.17g,%.17g)\n", q.x, q.y);
            ga_getvalue(ga, &q);
            if (!gridmap_xy2ij(gm, q.x, q.y, &i, &j) || !cnt[j * n1 + i]) {
                if (!isnan(q.z))
                    fail("value %.17g where there is none", q.z);
            } else if (!(fabs(q.z - sum[j * n1 + i] / cnt[j * n1 + i]) <= 1e-12 * (1 + mag[j * n1 + i])))
                fail("value %.17g, mean of the cell i=%d, j=%d is %.17g (%d values)", q.z, i, j, sum[j * n1 + i] / cnt[j * n1 + i], cnt[j * n1 + i]);
            ncases++;
        }
        casen = base;
    }
    ga_destroy(ga);
    free(sum);
    free(mag);
    free(cnt);
    gridmap_destroy(gm);
    freerows(gx);
    freerows(gy);
    g_free(g);
}

int main(int argc, char** argv)
{
    init(argc, argv);
    while (more()) {
        if (!strcmp(prop, "C04"))
            c04();
        else if (!strcmp(prop, "C05"))
            c05();
        else if (!strcmp(prop, "C09"))
            c09();
        else if (!strcmp(prop, "C10"))
            c10();
        else if (!strcmp(prop, "C11"))
            c11();
        else if (!strcmp(prop, "C20"))
            c20();
        ndistinct++;
    }
    return done();
}
