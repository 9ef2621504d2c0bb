/* C03, C06, C07, C19 */
#include "common.h"

static void expect_source(gridnodes* gn, G* g, int type, int maptype)
{
    G* s = g_get(gn);
    if (s->nx != g->nx || s->ny != g->ny || gridnodes_getmaptype(gn) != maptype)
        fail("the source grid changed size or settings");
    for (long k = 0; k < (long) g->nx * g->ny; ++k)
        if (!bits(s->x[k], g->x[k]) || !bits(s->y[k], g->y[k]))
            fail("source node %ld changed from (%.17g,%.17g) to (%.17g,%.17g)", k, g->x[k], g->y[k], s->x[k], s->y[k]);
    g_free(s);
    (void) type;
}

/* the node type is only observable through its effects: dimensions in cells */
static void expect_type(gridnodes* gn, int type)
{
    int nx = gridnodes_getnx(gn), ny = gridnodes_getny(gn), a, b, refused;
    TRY(refused, (a = gridnodes_getnce1(gn), b = gridnodes_getnce2(gn)));
    if (type == NT_NONE) {
        if (!refused)
            fail("result has a type");
        return;
    }
    if (refused)
        fail("result has no type");
    int ea = type == NT_DD ? (nx - 1) / 2 : type == NT_COR ? nx - 1 : nx;
    int eb = type == NT_DD ? (ny - 1) / 2 : type == NT_COR ? ny - 1 : ny;
    if (a != ea || b != eb)
        fail("result is not of the requested type (cells %d x %d instead of %d x %d)", a, b, ea, eb);
}

static int independent(gridnodes* a, gridnodes* b)
{
    if (a == b || gridnodes_getx(a) == gridnodes_getx(b) || gridnodes_gety(a) == gridnodes_gety(b))
        return 0;
    /* write all of b, look at a */
    G* before = g_get(a);
    double** x = gridnodes_getx(b);
    double** y = gridnodes_gety(b);
    for (int j = 0; j < gridnodes_getny(b); ++j)
        for (int i = 0; i < gridnodes_getnx(b); ++i)
            x[j][i] = y[j][i] = -12345.5;
    G* after = g_get(a);
    int ok = 1;
    for (long k = 0; k < (long) before->nx * before->ny; ++k)
        ok &= bits(before->x[k], after->x[k]) && bits(before->y[k], after->y[k]);
    g_free(before);
    g_free(after);
    return ok;
}

static void check_cut(gridnodes* r, G* g, int w, int h, int s, int oi, int oj)
{
    G* q = g_get(r);
    if (q->nx != w || q->ny != h)
        fail("result is %d x %d instead of %d x %d", q->nx, q->ny, w, h);
    for (int j = 0; j < h; ++j)
        for (int i = 0; i < w; ++i)
            if (!bits(GX(q, j, i), GX(g, s * j + oj, s * i + oi)) || !bits(GY(q, j, i), GY(g, s * j + oj, s * i + oi)))
                fail("result node (j=%d,i=%d) is (%.17g,%.17g), not (%.17g,%.17g)", j, i, GX(q, j, i), GY(q, j, i), GX(g, s * j + oj, s * i + oi), GY(g, s * j + oj, s * i + oi));
    g_free(q);
}

static void randgrid(G* g)
{
    for (long k = 0; k < (long) g->nx * g->ny; ++k) {
        g->x[k] = rndi(10) ? k + rndu() : NAN;
        g->y[k] = isnan(g->x[k]) && rndi(4) ? NAN : 1000 + k + rndu();
        if (rndi(30) == 0)
            g->x[k] = -0.0;
    }
}

static void c03(void)
{
    int nx = 2 * rndi(8) + 1, ny = 2 * rndi(8) + 1;
    G* g = g_new(nx, ny);
    double ps[] = { 0, 0.05, 0.3 };
    g_fill(g, ps[rndi(3)]);
    g_stale(g);
    for (int t = NT_NONE; t <= NT_COR; ++t)
        for (int pre = 0; pre < 2; ++pre) {
            case_reset();
            casef("gridnodes_transform() of a double density grid to %s (validated before: %d)\n", nodetype2str[t], pre);
            g_print("grid", g);
            gridnodes* gn = g_make(g, NT_DD);
            int mt = rndi(2);
            gridnodes_setmaptype(gn, mt);
            gridnodes* ref = g_make(g, NT_DD);
            gridnodes_validate(ref);
            G* v = g_get(ref);
            if (pre)
                gridnodes_validate(gn);
            gridnodes* r = NULL;
            int refused;
            TRY(refused, r = gridnodes_transform(gn, t));
            int w = t == NT_COR ? nx / 2 + 1 : t == NT_CEN ? nx / 2 : nx, h = t == NT_COR ? ny / 2 + 1 : t == NT_CEN ? ny / 2 : ny;
            if (refused != (w == 0 || h == 0))
                fail("conversion %s", refused ? "refused" : "of a grid without cells accepted");
            if (!refused) {
                int s = t == NT_COR || t == NT_CEN ? 2 : 1, o = t == NT_CEN;
                expect_source(gn, v, NT_DD, mt);
                check_cut(r, v, w, h, s, o, o);
                if (gridnodes_getmaptype(r) != mt)
                    fail("map type lost");
                expect_type(r, t == NT_NONE ? NT_DD : t);
                if (!independent(gn, r))
                    fail("the result shares storage with the source");
                gridnodes_destroy(r);
            }
            g_free(v);
            gridnodes_destroy(gn);
            gridnodes_destroy(ref);
            ncases++;
        }
    g_free(g);
}

static void c07(void)
{
    int nx = 1 + rndi(9), ny = 1 + rndi(9);
    int types[] = { NT_NONE, NT_DD, NT_CEN, NT_COR };
    int type = types[rndi(4)];
    if (type == NT_DD)
        nx |= 1, ny |= 1;
    G* g = g_new(nx, ny);
    randgrid(g);
    for (int rep = 0; rep < 8; ++rep) {
        int a = rndi(nx + 6) - 3, b = rndi(nx + 6) - 3, c = rndi(ny + 6) - 3, d = rndi(ny + 6) - 3;
        if (rep == 0)
            a = c = 0, b = nx - 1, d = ny - 1;
        if (rep == 1)
            a = c = -5, b = d = INT_MAX;
        if (rep == 2)
            a = INT_MIN;
        if (rep == 3)
            a = 0, b = nx - 1, c = 0;
        if (rep == 4)
            c = 0, d = ny - 1;
        case_reset();
        casef("gridnodes_subgrid(imin=%d, imax=%d, jmin=%d, jmax=%d), node type %s\n", a, b, c, d, nodetype2str[type]);
        g_print("grid", g);
        gridnodes* gn = g_make(g, type);
        gridnodes_setmaptype(gn, 1 - rndi(2));
        int mt = gridnodes_getmaptype(gn);
        int i0 = a < 0 ? 0 : a, i1 = b >= nx ? nx - 1 : b, j0 = c < 0 ? 0 : c, j1 = d >= ny ? ny - 1 : d;
        gridnodes* r = NULL;
        int refused;
        TRY(refused, r = gridnodes_subgrid(gn, a, b, c, d));
        expect_source(gn, g, type, mt);
        if (refused != (i0 > i1 || j0 > j1))
            fail("range %s", refused ? "refused" : "that selects nothing accepted");
        if (!refused) {
            check_cut(r, g, i1 - i0 + 1, j1 - j0 + 1, 1, i0, j0);
            expect_type(r, type);
            if (gridnodes_getmaptype(r) != mt)
                fail("map type lost");
            if (!independent(gn, r))
                fail("the result shares storage with the source");
            gridnodes_destroy(r);
        }
        gridnodes* k = gridnodes_copy(gn);
        expect_source(gn, g, type, mt);
        check_cut(k, g, nx, ny, 1, 0, 0);
        expect_type(k, type);
        if (!independent(gn, k))
            fail("the copy shares storage with the source");
        gridnodes_destroy(gn);
        gridnodes_destroy(k);
        ncases++;
    }
    g_free(g);
}

static int** mk_mask(int w, int h)
{
    return gu_alloc2d(h < 1 ? 1 : h, w < 1 ? 1 : w, sizeof(int));
}

static void c06(void)
{
    int types[] = { NT_CEN, NT_DD, NT_CEN, NT_DD, NT_COR, NT_NONE };
    int type = types[rndi(6)];
    int nx = 1 + rndi(9), ny = 1 + rndi(9);
    if (type == NT_DD)
        nx |= 1, ny |= 1;
    int w = type == NT_DD ? nx / 2 : nx, h = type == NT_DD ? ny / 2 : ny;
    G* g = g_new(nx, ny);
    double ps[] = { 0, 0.05, 0.3 };
    g_fill(g, ps[rndi(3)]);
    g_stale(g);
    int** m = mk_mask(w, h);
    int pm = rndi(4);
    case_reset();
    casef("gridnodes_applymask(), node type %s, mask by row:\n", nodetype2str[type]);
    for (int j = 0; j < h; ++j) {
        for (int i = 0; i < w; ++i) {
            m[j][i] = pm == 0 ? 1 : rndi(4) >= pm ? 1 : 0;
            if (rndi(20) == 0)
                m[j][i] = 2 * rndi(3) - 1;
            casef(" %d", m[j][i]);
        }
        casef("\n");
    }
    g_print("grid", g);
    gridnodes* gn = g_make(g, type);
    int refused;
    TRY(refused, gridnodes_applymask(gn, m));
    if (type == NT_COR || type == NT_NONE) {
        if (!refused)
            fail("a mask on nodes of type \"%s\" is not refused", nodetype2str[type]);
        expect_source(gn, g, type, gridnodes_getmaptype(gn));
    } else {
        if (refused)
            fail("the mask is refused");
        G* e = g_copy(g);
        if (type == NT_CEN) {
            for (int j = 0; j < h; ++j)
                for (int i = 0; i < w; ++i)
                    if (m[j][i] == 0)
                        GX(e, j, i) = GY(e, j, i) = NAN;
        } else {
            for (int j = 0; j < h; ++j)
                for (int i = 0; i < w; ++i)
                    if (m[j][i] == 0)
                        GX(e, 2 * j + 1, 2 * i + 1) = GY(e, 2 * j + 1, 2 * i + 1) = NAN;
            for (int j = 0; j < ny; j += 2)
                for (int i = 0; i < nx; i += 2) {
                    int any = 0;
                    for (int a = -1; a < 2; a += 2)
                        for (int b = -1; b < 2; b += 2)
                            if (j + a >= 0 && j + a < ny && i + b >= 0 && i + b < nx && !isnan(GX(e, j + a, i + b)))
                                any = 1;
                    if (!any)
                        GX(e, j, i) = GY(e, j, i) = NAN;
                }
            gridnodes* t = g_make(e, NT_DD);
            gridnodes_validate(t);
            g_free(e);
            e = g_get(t);
            gridnodes_destroy(t);
        }
        G* r = g_get(gn);
        for (int j = 0; j < ny; ++j)
            for (int i = 0; i < nx; ++i)
                if (!same(GX(r, j, i), GX(e, j, i)) || !same(GY(r, j, i), GY(e, j, i)))
                    fail("node (j=%d,i=%d) is (%.17g,%.17g), not (%.17g,%.17g)", j, i, GX(r, j, i), GY(r, j, i), GX(e, j, i), GY(e, j, i));
        g_free(r);
        g_free(e);
    }
    gridnodes_destroy(gn);
    gu_free2d(m);
    g_free(g);
    ncases++;
}

/* more than 2^32 elements: row offsets only */
static void c19huge(void)
{
    size_t nj = 65536 + 2, ni = 65536;
    case_reset();
    casef("gu_alloc2d(nj=%zu, ni=%zu, unitsize=1)\n", nj, ni);
    char** p = NULL;
    int refused;
    TRY(refused, p = gu_alloc2d(nj, ni, 1));
    if (!refused) {
        for (size_t j = 0; j < nj; ++j)
            if (p[j] != (char*) p + nj * sizeof(void*) + j * ni)
                fail("row %zu is at offset %ld", j, (long) (p[j] - (char*) p));
        gu_free2d(p);
    }
    ncases++;
}

static void c19(void)
{
    size_t nj, ni, us[] = { 1, 2, 4, 8, 24 }, u = us[rndi(5)];
    nj = rndi(12);
    ni = rndi(12);
    if (rndi(6) == 0)
        nj = rndi(3000);
    if (rndi(6) == 0)
        ni = rndi(3000);
    int big = rndi(10) == 0;
    if (big) {
        size_t b[] = { (size_t) 1 << 32, (size_t) 1 << 60, (size_t) 1 << 61, ((size_t) 1 << 31) - 1, SIZE_MAX, SIZE_MAX / 8 + 1, ((size_t) 1 << 63) };
        nj = b[rndi(7)];
        ni = rndi(2) ? b[rndi(7)] : 1 + rndi(9);
        if (rndi(2)) {
            size_t t = nj;
            nj = ni;
            ni = t;
        }
        if ((double) nj * (double) ni < (double) ((size_t) 1 << 45))
            return;
    }
    case_reset();
    casef("gu_alloc2d(nj=%zu, ni=%zu, unitsize=%zu)\n", nj, ni, u);
    char** p = NULL;
    int refused;
    TRY(refused, p = gu_alloc2d(nj, ni, u));
    if (!refused && (nj == 0 || ni == 0))
        fail("an empty matrix is not refused");
    if (!refused && big)
        fail("a matrix that cannot be held in memory is not refused");
    if (refused && !big && nj && ni)
        fail("refused");
    if (!refused) {
        char* base = (char*) p;
        for (size_t j = 0; j < nj; ++j) {
            if (p[j] != base + nj * sizeof(void*) + j * ni * u)
                fail("row %zu is at offset %ld", j, (long) (p[j] - base));
            for (size_t k = 0; k < ni * u; ++k)
                if (p[j][k])
                    fail("byte %zu of row %zu is not zero", k, j);
        }
        for (size_t j = 0; j < nj; ++j)
            memset(p[j], (int) j + 1, ni * u);
        for (size_t j = 0; j < nj; ++j)
            for (size_t k = 0; k < ni * u; ++k)
                if (p[j][k] != (char) (j + 1))
                    fail("rows overlap (row %zu)", j);
        gu_free2d(p);
    }
    ncases++;
}

int main(int argc, char** argv)
{
    init(argc, argv);
    if (!getenv("KEEPERR"))
        ;
    if (!strcmp(prop, "C19"))
        c19huge();
    while (more()) {
        if (!strcmp(prop, "C03"))
            c03();
        else if (!strcmp(prop, "C06"))
            c06();
        else if (!strcmp(prop, "C07"))
            c07();
        else if (!strcmp(prop, "C19"))
            c19();
        ndistinct++;
    }
    return done();
}
