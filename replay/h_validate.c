#include "common.h"

static int val(G* g, int j, int i) { return j >= 0 && i >= 0 && j < g->ny && i < g->nx && !isnan(GX(g, j, i)); }

/* C01: DD rules; C02: COR rules */
static int corner_ok(G* g, int j, int i, int s)
{
    if (!val(g, j, i))
        return 0;
    for (int a = -s; a <= s; a += 2 * s)
        for (int b = -s; b <= s; b += 2 * s)
            if (val(g, j + a, i) && val(g, j, i + b) && val(g, j + a, i + b))
                return 1;
    return 0;
}
static int survives(G* g, int type, int j, int i)
{
    if (type == NT_COR)
        return corner_ok(g, j, i, 1);
    if (type != NT_DD)
        return 1;
    if (j % 2 == 0 && i % 2 == 0)
        return corner_ok(g, j, i, 2);
    if (!val(g, j, i))
        return 0;
    if (j % 2 && i % 2)
        return corner_ok(g, j - 1, i - 1, 2) && corner_ok(g, j - 1, i + 1, 2) && corner_ok(g, j + 1, i - 1, 2) && corner_ok(g, j + 1, i + 1, 2);
    if (j % 2 == 0)
        return corner_ok(g, j, i - 1, 2) && corner_ok(g, j, i + 1, 2);
    return corner_ok(g, j - 1, i, 2) && corner_ok(g, j + 1, i, 2);
}

static void one(G* g, int type)
{
    case_reset();
    casef("gridnodes_validate(), node type %s\n", nodetype2str[type]);
    g_print("grid", g);
    gridnodes* gn = g_make(g, type);
    gridnodes_setmaptype(gn, 1);
    gu_verbose = rndi(8) == 0;
    gridnodes_validate(gn);
    gu_verbose = 0;
    G* r = g_get(gn);
    if (r->nx != g->nx || r->ny != g->ny || gridnodes_getmaptype(gn) != 1)
        fail("grid size or settings changed");
    for (int j = 0; j < g->ny; ++j)
        for (int i = 0; i < g->nx; ++i) {
            int s = survives(g, type, j, i);
            double x = GX(r, j, i), y = GY(r, j, i);
            if (s && !(bits(x, GX(g, j, i)) && bits(y, GY(g, j, i))))
                fail("node (j=%d,i=%d) should survive unchanged but is (%.17g,%.17g)", j, i, x, y);
            if (!s && !isnan(x))
                fail("node (j=%d,i=%d) should be invalid but is (%.17g,%.17g)", j, i, x, y);
            if (!s && !isnan(GX(g, j, i)) && !isnan(y))
                fail("rejected node (j=%d,i=%d) keeps y=%.17g", j, i, y);
        }
    g_free(r);
    gridnodes_destroy(gn);
    ncases++;
}

int main(int argc, char** argv)
{
    init(argc, argv);
    freopen("/dev/null", "w", stderr);
    if (!strcmp(prop, "C01")) {
        int sz[][2] = { {1, 1}, {3, 1}, {1, 3}, {3, 3}, {5, 1}, {5, 3}, {3, 5} };
        for (unsigned k = 0; k < sizeof sz / sizeof *sz; ++k) {
            G* g = g_new(sz[k][0], sz[k][1]);
            for (uint64_t m = 0; m < (1ULL << (g->nx * g->ny)) && more(); ++m) {
                g_pattern(g, m);
                one(g, NT_DD);
                ndistinct++;
            }
            g_free(g);
        }
    } else {
        int sz[][2] = { {1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 3}, {3, 4} };
        for (unsigned k = 0; k < sizeof sz / sizeof *sz; ++k) {
            G* g = g_new(sz[k][0], sz[k][1]);
            for (uint64_t m = 0; m < (1ULL << (g->nx * g->ny)) && more(); ++m) {
                g_pattern(g, m);
                one(g, NT_COR);
                if (m % 7 == 0) {
                    one(g, NT_CEN);
                    one(g, NT_NONE);
                }
                ndistinct++;
            }
            g_free(g);
        }
    }
    budget += 8;
    while (more()) {
        int dd = !strcmp(prop, "C01");
        int nx = 1 + rndi(12), ny = 1 + rndi(12);
        if (dd)
            nx = 2 * (nx / 2) + 1, ny = 2 * (ny / 2) + 1;
        if (rndi(20) == 0)
            nx = dd ? 41 : 40;
        G* g = g_new(nx, ny);
        double ps[] = { 0, 0.02, 0.1, 0.25, 0.5, 0.8 };
        g_fill(g, ps[rndi(6)]);
        g_stale(g);
        /* stale y in an invalid node, infinities, negative zero */
        for (int k = 0; k < 3; ++k) {
            long q = rndi(nx * ny);
            if (isnan(g->x[q]) && rndi(2))
                g->y[q] = 7;
            else if (rndi(3) == 0)
                g->x[q] = rndi(2) ? INFINITY : -0.0;
        }
        one(g, dd ? NT_DD : NT_COR);
        ndistinct++;
        g_free(g);
    }
    return done();
}
