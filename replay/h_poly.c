/* Executable contracts of C15, C16, C17 (polylines) and C18 (boundary tracing). */
#include "common.h"
#include "poly.h"

#define NMAX 400
typedef struct { int n; double x[NMAX], y[NMAX]; } S;   /* the mathematical sequence */

static void s_print(const char* name, S* s)
{
    casef("%s: %d points:", name, s->n);
    for (int i = 0; i < s->n; ++i)
        casef(" (%.17g,%.17g)", s->x[i], s->y[i]);
    casef("\n");
}
static void s_rand(S* s, int nmax, int range)
{
    s->n = rndi(nmax + 1);
    for (int i = 0; i < s->n; ++i) {
        s->x[i] = rndi(2 * range + 1) - range;
        s->y[i] = rndi(2 * range + 1) - range;
        if (i > 0 && rndi(4) == 0) {
            int k = rndi(3) == 0 ? rndi(i) : i - 1;
            s->x[i] = s->x[k];
            s->y[i] = s->y[k];
        }
    }
}
static poly* s_make(S* s)
{
    poly* pl = poly_create();
    for (int i = 0; i < s->n; ++i)
        poly_addpoint(pl, s->x[i], s->y[i]);
    return pl;
}
static void check(poly* pl, S* s, const char* what)
{
    if (pl->n != s->n)
        fail("%s: %d points, expected %d", what, pl->n, s->n);
    if (pl->nallocated < pl->n || pl->nallocated < 1)
        fail("%s: storage for %d points, %d held", what, pl->nallocated, pl->n);
    volatile double touch = 0;
    for (int i = 0; i < pl->nallocated; ++i)
        touch += (pl->x[i] == pl->y[i]);
    double e[4] = { INFINITY, -INFINITY, INFINITY, -INFINITY };
    for (int i = 0; i < s->n; ++i) {
        if (!bits(pl->x[i], s->x[i]) || !bits(pl->y[i], s->y[i]))
            fail("%s: point %d is (%.17g,%.17g), expected (%.17g,%.17g)", what, i, pl->x[i], pl->y[i], s->x[i], s->y[i]);
        e[0] = fmin(e[0], s->x[i]);
        e[1] = fmax(e[1], s->x[i]);
        e[2] = fmin(e[2], s->y[i]);
        e[3] = fmax(e[3], s->y[i]);
    }
    if (s->n > 0 && (pl->e.xmin != e[0] || pl->e.xmax != e[1] || pl->e.ymin != e[2] || pl->e.ymax != e[3]))
        fail("%s: extent [%.17g,%.17g]x[%.17g,%.17g], expected [%.17g,%.17g]x[%.17g,%.17g]", what, pl->e.xmin, pl->e.xmax, pl->e.ymin, pl->e.ymax, e[0], e[1], e[2], e[3]);
    if (s->n == 0 && pl->n == 0 && !(pl->e.xmin > pl->e.xmax && pl->e.ymin > pl->e.ymax))
        fail("%s: extent of an empty polyline is not cleared", what);
}
static void s_add(S* s, int at, double x, double y)
{
    if (at > s->n)
        at = s->n;
    for (int i = s->n; i > at; --i) {
        s->x[i] = s->x[i - 1];
        s->y[i] = s->y[i - 1];
    }
    s->x[at] = x;
    s->y[at] = y;
    s->n++;
}
static int eq(S* s, int a, int b, double eps) { return fabs(s->x[a] - s->x[b]) <= eps && fabs(s->y[a] - s->y[b]) <= eps; }

static void c16(void)
{
    S s, t;
    case_reset();
    s_rand(&s, 12, 3);
    s_print("start", &s);
    poly* pl = s_make(&s);
    check(pl, &s, "adding points");
    int steps = 1 + rndi(12);
    for (int k = 0; k < steps; ++k) {
        double x = rndi(9) - 4 + (rndi(3) == 0 ? 0.5 : 0), y = rndi(9) - 4;
        if (s.n > 150)
            break;
        switch (rndi(10)) {
        case 0:
        case 1:
            casef("add (%g,%g)\n", x, y);
            poly_addpoint(pl, x, y);
            s_add(&s, s.n, x, y);
            check(pl, &s, "add");
            break;
        case 2:
        case 3:{
                int at = rndi(s.n + 3);
                casef("insert (%g,%g) at %d\n", x, y, at);
                poly_addpointat(pl, at, x, y);
                s_add(&s, at, x, y);
                check(pl, &s, "insert");
                break;
            }
        case 4:
        case 5:
            if (s.n > 0) {
                int at = rndi(3) == 0 ? (rndi(2) ? 0 : s.n - 1) : rndi(s.n);
                casef("delete %d\n", at);
                poly_deletepoint(pl, at);
                memmove(s.x + at, s.x + at + 1, (s.n - at - 1) * sizeof(double));
                memmove(s.y + at, s.y + at + 1, (s.n - at - 1) * sizeof(double));
                s.n--;
                check(pl, &s, "delete");
            }
            break;
        case 6:{
                s_rand(&t, 20, 4);
                s_print("append", &t);
                poly* p2 = s_make(&t);
                poly_append(pl, p2);
                memcpy(s.x + s.n, t.x, t.n * sizeof(double));
                memcpy(s.y + s.n, t.y, t.n * sizeof(double));
                s.n += t.n;
                check(pl, &s, "append");
                check(p2, &t, "append (second polyline)");
                poly_destroy(p2);
                check(pl, &s, "append (after destroying the second polyline)");
                break;
            }
        case 7:
            casef("close\n");
            poly_close(pl);
            if (s.n > 0 && !(s.n > 1 && s.x[0] == s.x[s.n - 1] && s.y[0] == s.y[s.n - 1]))
                s_add(&s, s.n, s.x[0], s.y[0]);
            check(pl, &s, "close");
            break;
        case 8:{
                casef("copy\n");
                poly* p2 = poly_copy(pl);
                check(p2, &s, "copy");
                poly_addpoint(p2, 77, 78);
                poly_clear(p2);
                check(pl, &s, "copy (after changing the copy)");
                poly_destroy(p2);
                p2 = poly_copy(pl);
                poly_destroy(pl);
                pl = p2;
                check(pl, &s, "copy (after destroying the original)");
                break;
            }
        default:
            if (rndi(4) == 0) {
                casef("clear\n");
                poly_clear(pl);
                s.n = 0;
                check(pl, &s, "clear");
            } else {
                int q = 0;
                casef("add NaN\n");
                TRY(q, poly_addpoint(pl, rndi(2) ? NAN : 1.0, NAN));
                if (!q)
                    fail("a NaN point is accepted");
                check(pl, &s, "refused NaN");
            }
        }
    }
    poly_destroy(pl);
    ncases++;
    ndistinct++;
}

static void c17(void)
{
    S s, t;
    case_reset();
    s_rand(&s, 3 + rndi(20), 1 + rndi(4));
    double eps = (rndi(5)) * 0.5;
    int op = rndi(4);
    if (op == 3 && rndi(2))
        eps = 1e-10;
    casef("%s, eps = %g\n", op == 0 ? "reverse" : op == 1 ? "resample" : op == 2 ? "despike" : "compact", eps);
    s_print("points", &s);
    poly* pl = s_make(&s);
    t.n = 0;
    if (op == 0) {
        poly_reverse(pl);
        for (int i = s.n - 1; i >= 0; --i)
            s_add(&t, t.n, s.x[i], s.y[i]);
    } else if (op == 1 || op == 2) {
        int last = 0;
        if (op == 1)
            poly_resample(pl, eps);
        else
            poly_despike(pl, eps);
        for (int i = 0; i < s.n; ++i)
            if (i == 0 || (op == 1 ? !eq(&s, last, i, eps) : hypot(s.x[last] - s.x[i], s.y[last] - s.y[i]) < eps)) {
                s_add(&t, t.n, s.x[i], s.y[i]);
                last = i;
            }
    } else {
        poly_compact(pl, eps);
        if (s.n <= 4)
            t = s;
        else {
            int m = 0, l = s.n - 1;
            while (l > 0 && eq(&s, l, 0, eps))
                l--;
            for (int i = 0; i < s.n; ++i) {
                int r = (i + 1) % s.n;
                if (eq(&s, r, m, eps))
                    continue;
                if (fabs((s.x[l] - s.x[m]) * (s.y[r] - s.y[m]) - (s.x[r] - s.x[m]) * (s.y[l] - s.y[m])) > eps) {
                    s_add(&t, t.n, s.x[m], s.y[m]);
                    l = m;
                }
                m = r;
            }
        }
    }
    s_print("expected", &t);
    check(pl, &t, "thinning");
    poly_addpoint(pl, 5, 6);
    s_add(&t, t.n, 5, 6);
    check(pl, &t, "a point added after thinning");
    poly_destroy(pl);
    ncases++;
    ndistinct++;
}

static int contains(S* s, double x, double y)
{
    int odd = 0;
    if (s->n < 2)
        return 0;
    for (int i = 0; i < s->n; ++i) {
        int j = (i + 1) % s->n;
        double x1 = s->x[i] - x, y1 = s->y[i] - y, x2 = s->x[j] - x, y2 = s->y[j] - y, d = x1 * y2 - x2 * y1;
        if (d == 0 && x1 * x2 <= 0 && y1 * y2 <= 0)
            return 1;
        if ((y1 > 0) != (y2 > 0) && (y2 > y1 ? d > 0 : d < 0))
            odd = !odd;
    }
    return odd;
}
static void c15(void)
{
    S s;
    case_reset();
    int r = 1 + rndi(3);
    s_rand(&s, 2 + rndi(9), r);
    if (rndi(2) && s.n > 0)
        s_add(&s, s.n, s.x[0], s.y[0]);
    s_print("polyline", &s);
    poly* pl = s_make(&s);
    for (int y = -2 * r - 2; y <= 2 * r + 2; ++y)
        for (int x = -2 * r - 2; x <= 2 * r + 2; ++x) {
            int a = poly_containspoint(pl, x / 2.0, y / 2.0) != 0, b = contains(&s, x / 2.0, y / 2.0);
            if (a != b)
                fail("point (%g,%g): answer %d, expected %d", x / 2.0, y / 2.0, a, b);
        }
    check(pl, &s, "polyline after the test");
    poly_destroy(pl);
    ncases++;
    ndistinct++;
}

/* ---------------------------------------------------------------- C18 */
static void c18(void)
{
    case_reset();
    int n1 = rndi(7), n2 = rndi(7);
    G* g = g_new(n1 + 1, n2 + 1);
    double p = rndi(5) * 0.25;
    int validated = rndi(2);
    for (int j = 0; j <= n2; ++j)
        for (int i = 0; i <= n1; ++i)
            GX(g, j, i) = GY(g, j, i) = NAN;
    for (int j = 0; j <= n2 - validated; ++j)
        for (int i = 0; i <= n1 - validated; ++i)
            if (rndu() >= p)
                for (int b = j; b <= j + validated; ++b)        /* a node, or a complete cell */
                    for (int a = i; a <= i + validated; ++a) {
                        GX(g, b, a) = a + 0.125 * b;
                        GY(g, b, a) = b * 2 - 0.25 * a;
                    }
    g_print("nodes", g);
    double** x = gu_alloc2d(n2 + 1, n1 + 1, sizeof(double));
    double** y = gu_alloc2d(n2 + 1, n1 + 1, sizeof(double));
    for (int j = 0; j <= n2; ++j)
        for (int i = 0; i <= n1; ++i) {
            x[j][i] = GX(g, j, i);
            y[j][i] = GY(g, j, i);
        }
    poly* a = poly_formboundij(n1, n2, x);
    poly* b = poly_formbound(n1, n2, x, y);
    int fi = -1, fj = -1;
    for (int j = 0; j <= n2 && fi < 0; ++j)
        for (int i = 0; i <= n1; ++i)
            if (!isnan(GX(g, j, i))) {
                fi = i;
                fj = j;
                break;
            }
    casef("index boundary:");
    for (int k = 0; k < a->n; ++k)
        casef(" (%g,%g)", a->x[k], a->y[k]);
    casef("\n");
    if ((fi < 0) != (a->n == 0) || a->n != b->n)
        fail("boundary of %d and %d points; a valid node %s", a->n, b->n, fi < 0 ? "does not exist" : "exists");
    if (fi >= 0) {
        if (a->x[0] != fi || a->y[0] != fj)
            fail("the boundary starts at (%g,%g), the first valid node is (%d,%d)", a->x[0], a->y[0], fi, fj);
        if (a->n < 2 || a->x[0] != a->x[a->n - 1] || a->y[0] != a->y[a->n - 1])
            fail("the boundary is not closed");
    }
    for (int k = 0; k < a->n; ++k) {
        int i = a->x[k], j = a->y[k];
        if (i != a->x[k] || j != a->y[k] || i < 0 || j < 0 || i > n1 || j > n2 || isnan(GX(g, j, i)))
            fail("boundary point %d (%g,%g) is not a valid node", k, a->x[k], a->y[k]);
        if (!bits(b->x[k], GX(g, j, i)) || !bits(b->y[k], GY(g, j, i)))
            fail("the two boundaries disagree at point %d", k);
        /* the closing step of a grid that is not validated may be any */
        if (k > 0 && (validated || k < a->n - 1) && fabs(a->x[k] - a->x[k - 1]) + fabs(a->y[k] - a->y[k - 1]) != 1)
            fail("boundary points %d and %d are not neighbours", k - 1, k);
    }
    poly_destroy(a);
    poly_destroy(b);
    gu_free2d(x);
    gu_free2d(y);
    g_free(g);
    ncases++;
    ndistinct++;
}

int main(int argc, char** argv)
{
    init(argc, argv);
    while (more()) {
        if (strcmp(prop, "C15") == 0)
            c15();
        else if (strcmp(prop, "C16") == 0)
            c16();
        else if (strcmp(prop, "C17") == 0)
            c17();
        else
            c18();
    }
    return done();
}
