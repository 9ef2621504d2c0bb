/* Executable contracts of the spatial tree: C12 (insertion), C13 (nearest node), C14 (range search). */
#include "common.h"
#include "kdtree.h"

#define MAXP 16000
static int nd;
static double P[MAXP][4];
static size_t orig[MAXP];
static int np;
static kdtree* tree;
static double span;
static int ties;

static double coord(void)
{
    if (ties)
        return rndi((int) span) - span / 2;
    return (rndu() - 0.5) * span;
}

static void point(double* p)
{
    int d;
    for (d = 0; d < nd; ++d)
        p[d] = (rndi(12) == 0 && np > 0) ? P[rndi(np)][d] : coord();
    if (rndi(15) == 0)
        p[0] = rndi(3) == 0 ? NAN : (rndi(2) ? INFINITY : -INFINITY);
}

static void note(const double* p, size_t o)
{
    if (!isfinite(p[0]))
        return;
    if (np >= MAXP)
        abort();            /* the harness is too small */
    memcpy(P[np], p, nd * sizeof(double));
    orig[np++] = o;
}

static void show(const char* w, const double* p)
{
    int d;
    casef("%s", w);
    for (d = 0; d < nd; ++d)
        casef(" %.17g", p[d]);
    casef("\n");
}

typedef struct { double p[4]; size_t o; } Rec;
static int cmprec(const void* a, const void* b)
{
    const Rec* x = a, * y = b;
    int d;
    if (x->o != y->o)
        return x->o < y->o ? -1 : 1;
    for (d = 0; d < nd; ++d)
        if (x->p[d] != y->p[d])
            return x->p[d] < y->p[d] ? -1 : 1;
    return 0;
}

static double dist2(const double* a, const double* b)
{
    double s = 0;
    int d;
    for (d = 0; d < nd; ++d)
        s += (a[d] - b[d]) * (a[d] - b[d]);
    return s;
}

/* nodes are the inserted points, bounds are exact, everything is reachable once */
static void check12(void)
{
    static Rec a[MAXP], b[MAXP];
    double lo[4], hi[4], * mm = kd_getminmax(tree);
    int i, d, k;
    if (kd_getsize(tree) != (size_t) np)
        fail("the tree has %zu nodes for %d points with a finite first coordinate", kd_getsize(tree), np);
    for (d = 0; d < nd; ++d)
        lo[d] = 1.7976931348623157e308, hi[d] = -1.7976931348623157e308;
    for (i = 0; i < np; ++i) {
        memcpy(a[i].p, P[i], sizeof P[i]);
        a[i].o = orig[i];
        memcpy(b[i].p, kd_getnodecoords(tree, i), nd * sizeof(double));
        b[i].o = kd_getnodeorigid(tree, i);
        for (d = 0; d < nd; ++d) {
            lo[d] = fmin(lo[d], P[i][d]);
            hi[d] = fmax(hi[d], P[i][d]);
        }
    }
    qsort(a, np, sizeof(Rec), cmprec);
    qsort(b, np, sizeof(Rec), cmprec);
    for (i = 0; i < np; ++i)
        if (cmprec(&a[i], &b[i]))
            fail("point with number %zu (first coordinate %.17g): the tree has number %zu, first coordinate %.17g in its place", a[i].o, a[i].p[0], b[i].o, b[i].p[0]);
    for (d = 0; d < nd; ++d)
        if (mm[d] != lo[d] || mm[nd + d] != hi[d])
            fail("bounds of dimension %d are %.17g to %.17g, should be %.17g to %.17g", d, mm[d], mm[nd + d], lo[d], hi[d]);
    if (np == 0)
        return;
    /* all nodes, by a search that leaves nothing out */
    {
        kdset* s = kd_findnodeswithinrange(tree, P[0], 1e100, 0);
        char* seen = calloc(np, 1);
        size_t id;
        double dd;
        int n = 0;
        while ((id = kdset_read(s, &dd)) != SIZE_MAX && n <= np) {
            if (id >= (size_t) np || seen[id])
                fail("node %zu is reached twice or does not exist", id);
            seen[id] = 1;
            n++;
        }
        if (n != np)
            fail("%d of %d nodes can be reached", n, np);
        kdset_free(s);
        free(seen);
    }
    /* sides of the splits: every node is found at its place */
    for (k = 0; k < 40 && k < np; ++k) {
        double* c;
        kdset* s;
        size_t id;
        double dd;
        int found = 0, want = 0;
        i = rndi(np);
        c = kd_getnodecoords(tree, i);
        s = kd_findnodeswithinrange(tree, c, 0.0, 0);
        while ((id = kdset_read(s, &dd)) != SIZE_MAX && found <= np)
            found++;
        for (d = 0; d < np; ++d)
            want += dist2(P[d], c) == 0;
        if (found != want)
            fail("a search at the place of node %d finds %d nodes, %d points were put there", i, found, want);
        kdset_free(s);
    }
}

static void check13(void)
{
    double q[4], * c, best = INFINITY;
    size_t id;
    int i, d;
    for (d = 0; d < nd; ++d)
        q[d] = rndi(4) == 0 ? P[rndi(np)][d] : coord() * (rndi(6) == 0 ? 10 : 1);
    show("query", q);
    id = kd_findnearestnode(tree, q);
    if (id >= (size_t) np)
        fail("node %zu of %d", id, np);
    c = kd_getnodecoords(tree, id);
    for (i = 0; i < np; ++i)
        best = fmin(best, dist2(kd_getnodecoords(tree, i), q));
    if (dist2(c, q) > best * (1 + 1e-12))
        fail("node %zu at squared distance %.17g is not nearest, one is at %.17g", id, dist2(c, q), best);
}

static void check14(void)
{
    double q[4], r, last = -1, dd;
    size_t id;
    int i, d, n = 0, want = 0, ordered = rndi(2);
    kdset* s;
    char* seen;
    for (d = 0; d < nd; ++d)
        q[d] = rndi(3) == 0 && np > 0 ? P[rndi(np)][d] : coord();
    r = rndi(5) == 0 ? 0 : ties && rndi(2) ? rndi(6) : rndu() * span;
    show("query", q);
    casef("range %.17g ordered %d\n", r, ordered);
    s = kd_findnodeswithinrange(tree, q, r, ordered);
    seen = calloc(np + 1, 1);
    for (i = 0; i < np; ++i)
        want += dist2(kd_getnodecoords(tree, i), q) <= r * r;
    if (kdset_getsize(s) != (size_t) want)
        fail("size of the set is %zu, %d nodes are within the range", kdset_getsize(s), want);
    while ((id = kdset_read(s, &dd)) != SIZE_MAX) {
        double t;
        if (id >= (size_t) np || seen[id])
            fail("node %zu is returned twice or does not exist", id);
        seen[id] = 1;
        t = dist2(kd_getnodecoords(tree, id), q);
        if (!(t <= r * r * (1 + 1e-12)))
            fail("node %zu at squared distance %.17g is out of range", id, t);
        if (!(fabs(dd - sqrt(t)) <= 1e-12 * dd))
            fail("node %zu: distance %.17g, should be %.17g", id, dd, sqrt(t));
        if (ordered && dd < last)
            fail("distances are out of order: %.17g after %.17g", dd, last);
        last = dd;
        if (++n > want)
            fail("more nodes read than there are in the set");
    }
    if (n != want)
        fail("%d nodes read, %d are within the range", n, want);
    if (!isnan(dd) || kdset_read(s, &dd) != SIZE_MAX || !isnan(dd))
        fail("reading past the end");
    kdset_free(s);
    kdset_free(NULL);
    free(seen);
}

static void one(void)
{
    int steps = 1 + rndi(4), k, i, d, big = rndi(25) == 0;
    size_t base;
    case_reset();
    nd = 1 + rndi(rndi(3) ? 3 : 4);
    span = rndi(3) ? 4 + rndi(12) : 1000;
    ties = rndi(2);
    np = 0;
    tree = kd_create(nd);
    casef("tree of %d dimensions\n", nd);
    if (rndi(3) == 0 && !strcmp(prop, "C12"))
        check12();
    for (k = 0; k < steps; ++k) {
        if (rndi(2)) {
            int n = rndi(big ? 1500 : 30);
            for (i = 0; i < n; ++i) {
                double p[4];
                size_t o = rndi(10) ? (size_t) (np + i) : (size_t) rndi(100000);
                point(p);
                if (!big)
                    show("insert", p);
                kd_insertnode(tree, p, o);
                note(p, o);
            }
            if (big)
                casef("%d single insertions\n", n);
        } else {
            int n = rndi(big ? 2000 : 30), shuffled = rndi(2), np0 = np;
            double* src[4];
            for (d = 0; d < nd; ++d)
                src[d] = malloc((n + 1) * sizeof(double));
            casef("batch of %d, randomise %d\n", n, shuffled);
            for (i = 0; i < n; ++i) {
                double p[4];
                point(p);
                if (!big)
                    show(" ", p);
                for (d = 0; d < nd; ++d)
                    src[d][i] = p[d];
                note(p, np0 + i);
            }
            kd_insertnodes(tree, n, src, shuffled);
            for (d = 0; d < nd; ++d)
                free(src[d]);
        }
        base = casen;
        if (!strcmp(prop, "C12")) {
            check12();
            ncases++;
        }
        for (i = 0; i < 30 && strcmp(prop, "C12"); ++i) {
            casen = base;
            if (!strcmp(prop, "C14"))
                check14();
            else if (np > 0)
                check13();
            ncases++;
        }
        casen = base;
    }
    kd_destroy(tree);
}

int main(int argc, char** argv)
{
    init(argc, argv);
    while (more()) {
        one();
        ndistinct++;
    }
    return done();
}
