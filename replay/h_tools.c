/* Text input and output, and the programs working on text: C08, C22, C23, C24, C25.  NEEDS_PROGRAMS */
#include "common.h"

static char* slurp(const char* f)
{
    FILE* h = fopen(f, "rb");
    if (!h)
        return calloc(1, 1);
    char* s = NULL;
    size_t n = 0, c;
    do {
        s = realloc(s, n + 4097);
        c = fread(s + n, 1, 4096, h);
        n += c;
    } while (c > 0);
    s[n] = 0;
    fclose(h);
    return s;
}
static void spew(const char* f, const char* s)
{
    FILE* h = fopen(f, "wb");
    fputs(s, h);
    fclose(h);
}
typedef struct { char* s; size_t n, c; } S;
static void add(S* s, const char* fmt, ...)
{
    va_list a;
    if (s->n + 4096 > s->c)
        s->s = realloc(s->s, s->c = 2 * s->c + 8192);
    va_start(a, fmt);
    s->n += vsnprintf(s->s + s->n, 4096, fmt, a);
    va_end(a);
}
/* the program's exit status; 0 = ran to the end, -1 = refused; an undefined operation fails */
static int program(char** av, const char* in, const char* out)
{
    char path[4096];
    snprintf(path, sizeof path, "%s/%s", getenv("BIN"), av[0]);
    pid_t p = fork();
    if (p == 0) {
        signal(SIGSEGV, SIG_DFL);
        int a = open(in ? in : "/dev/null", O_RDONLY), b = open(out, O_CREAT | O_TRUNC | O_WRONLY, 0644), c = open("err", O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(a, 0);
        dup2(b, 1);
        dup2(c, 2);
        execv(path, av);
        _exit(98);
    }
    int st;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st) || WEXITSTATUS(st) == 99) {
        char* e = slurp("err");
        fail("the program performs an undefined operation: %.2500s", e);
    }
    if (WEXITSTATUS(st) == 98) {
        printf("ERROR no program\n");
        exit(3);
    }
    return WEXITSTATUS(st) ? -1 : 0;
}
static void same_text(const char* what, const char* got, const char* want)
{
    int line = 1;
    for (size_t k = 0;; ++k) {
        if (got[k] != want[k])
            fail("%s differs in line %d\nwritten:\n%.1500s\nexpected:\n%.1500s", what, line, got, want);
        if (!got[k])
            return;
        line += got[k] == '\n';
    }
}

/* ---------------------------------------------------------------- C22 */
static void readone(void)
{
    case_reset();
    int nx = 1 + rndi(6), ny = 1 + rndi(6), type = rndi(4);
    int hx = nx, hy = ny, bad = rndi(5);
    S s = { 0 };
    const char* head = "## %d x %d\n";
    if (bad == 0) {
        int w[] = { 0, -1, 0, -7, 65536, INT_MAX };
        hx = w[rndi(6)];
        if (rndi(2)) {
            int t = hx;
            hx = hy;
            hy = t;
        }
        if (hx == 65536 || hy == 65536 || hx == INT_MAX || hy == INT_MAX)
            hx = hy = rndi(2) ? 65536 : INT_MAX;
    } else if (bad == 1) {
        const char* h[] = { "# %d x %d\n", "##%d %d\n", "## %d x\n", "\n", "## %dx%d\n", "##   %d   x   %d\n", "x %d\n", "## %d x %d rest\n" };
        head = h[rndi(8)];
    }
    add(&s, head, hx, hy);
    int ex = 0, ey = 0, ok = sscanf(s.s, "## %d x %d", &ex, &ey) == 2;
    ok = ok && ex >= 1 && ey >= 1 && (double) ex * ey <= INT_MAX;
    if (type == NT_DD)
        ok = ok && ex % 2 && ey % 2;
    if (rndi(12) == 0)
        s.n = 0, ok = 0, s.s[0] = 0;
    int n = nx * ny + (rndi(4) ? 0 : rndi(4) - 2);
    if (n < 0)
        n = 0;
    G* g = g_new(nx, ny);
    for (int k = 0; k < n && s.n > 0; ++k) {
        size_t at = s.n;
        switch (rndi(9)) {
        case 0: add(&s, "NaN NaN"); break;
        case 1: add(&s, "%g", rndu()); break;
        case 2: add(&s, rndi(2) ? "" : "junk"); break;
        case 3: add(&s, "%.17g %.17g # rest", rndu(), -rndu()); break;
        case 4: add(&s, "nan %g", rndu()); break;
        case 5: add(&s, "\t%.17g\t%.17g", rndu() * 1e9, rndu() * 1e-9); break;
        default: add(&s, "%.17g %.17g", k + 0.25, -k - 0.5);
        }
        double x = NAN, y = NAN;
        if (sscanf(s.s + at, "%lf %lf", &x, &y) != 2)
            x = y = NAN;
        if (k < nx * ny) {
            g->x[k] = x;
            g->y[k] = y;
        }
        if (k < n - 1 || rndi(3))
            add(&s, "\n");
        else if (s.n == at)
            n--;                /* no line at all */
    }
    if (ok && n < nx * ny)
        ok = 0;
    casef("gridnodes_read(), type %s, of the file\n%s(end of file)\n", nodetype2str[type], s.s);
    spew("grid.txt", s.s);
    gridnodes* gn = NULL;
    int refused = 0;
    TRY(refused, gn = gridnodes_read("grid.txt", type));
    if (refused)
        for (int fd = 3; fd < 64; ++fd)
            close(fd);          /* a refusal leaves the file open */
    if (refused != !ok)
        fail(ok ? "a good file is refused (%s)" : "a bad file is accepted", qmsg);
    if (!refused) {
        G* r = g_get(gn);
        if (r->nx != nx || r->ny != ny)
            fail("size of the grid read: %d x %d", r->nx, r->ny);
        for (int k = 0; k < nx * ny; ++k)
            if (!same(r->x[k], g->x[k]) || !same(r->y[k], g->y[k]))
                fail("line %d is read as (%.17g,%.17g), not (%.17g,%.17g)", k + 1, r->x[k], r->y[k], g->x[k], g->y[k]);
        g_free(r);
        /* point by point, once round and a half */
        gridnodes* g2 = rndi(2) ? gn : gridnodes_create(nx, ny, type);
        int m = nx * ny + rndi(nx * ny + 1);
        for (int k = 0; k < m; ++k)
            gridnodes_readnextpoint(g2, k + 0.5, -k - 1);
        r = g_get(g2);
        for (int k = 0; k < nx * ny; ++k) {
            int q = k + nx * ny < m ? k + nx * ny : k;
            if (r->x[k] != q + 0.5 || r->y[k] != -q - 1)
                fail("point by point: node %d is (%g,%g) after %d points", k, r->x[k], r->y[k], m);
        }
        g_free(r);
        if (g2 != gn)
            gridnodes_destroy(g2);
        gridnodes_destroy(gn);
    }
    g_free(g);
    free(s.s);
    ncases++;
    ndistinct++;
}

/* ---------------------------------------------------------------- C23 */
static void writeone(void)
{
    case_reset();
    G* g = g_new(1 + rndi(7), 1 + rndi(7));
    g_fill(g, rndi(3) * 0.25);
    g_stale(g);
    for (int k = 0; k < 3; ++k) {
        double v[] = { 0.1, 1e300, -1e-300, 123456789.123456789, 1.0 / 3, INFINITY, -0.0 };
        long q = rndi(g->nx * g->ny);
        if (!isnan(g->x[q]))
            (rndi(2) ? g->x : g->y)[q] = v[rndi(7)];
    }
    COORDTYPE ct[] = { CT_X, CT_Y, CT_XY };
    int c = rndi(3);
    casef("gridnodes_write(), coordinates %s\n", c == 0 ? "x" : c == 1 ? "y" : "xy");
    g_print("grid", g);
    S s = { 0 };
    add(&s, "## %d x %d\n", g->nx, g->ny);
    for (long k = 0; k < (long) g->nx * g->ny; ++k) {
        if (isnan(g->x[k]))
            add(&s, c == 2 ? "NaN NaN\n" : "NaN\n");
        else if (c == 2)
            add(&s, "%.15g %.15g\n", g->x[k], g->y[k]);
        else
            add(&s, "%.15g\n", c ? g->y[k] : g->x[k]);
    }
    gridnodes* gn = g_make(g, rndi(4));
    gridnodes_write(gn, "out.txt", ct[c]);
    char* got = slurp("out.txt");
    same_text("the grid written", got, s.s);
    G* r = g_get(gn);
    for (long k = 0; k < (long) g->nx * g->ny; ++k)
        if (!same(r->x[k], g->x[k]) || !same(r->y[k], g->y[k]))
            fail("writing changed a node");
    g_free(r);
    gridnodes_destroy(gn);
    free(got);
    free(s.s);
    g_free(g);
    ncases++;
    ndistinct++;
}

/* ---------------------------------------------------------------- C24 */
static void maskone(void)
{
    case_reset();
    int nx = 1 + rndi(5), ny = 1 + rndi(5), n = nx * ny, ok = 1;
    S s = { 0 };
    int* v = calloc(n, sizeof(int));
    int lines = n + (rndi(4) ? 0 : rndi(4) - 2), nonl = rndi(4) == 0, spoil = rndi(3) ? -1 : rndi(n);
    if (lines < 0)
        lines = 0;
    add(&s, "");
    for (int k = 0; k < lines; ++k) {
        int one = rndi(2);
        if (k < n)
            v[k] = one;
        if (k == spoil) {
            const char* w[] = { "2", "", " 1", "1 ", "01", "x", "-", "0.", "10", "00" };
            const char* q = w[rndi(10)];
            add(&s, "%s", q);
            if (k < n)
                ok = 0;
            if (k == lines - 1 && nonl && !*q)
                break;          /* no line */
        } else
            add(&s, "%d", one);
        if (k < lines - 1 || !nonl)
            add(&s, "\n");
    }
    if (lines < n)
        ok = 0;
    casef("gu_readmask(), %d x %d, of the file\n%s(end of file)\n", nx, ny, s.s);
    spew("mask.txt", s.s);
    int** m = NULL;
    int refused = 0;
    TRY(refused, m = gu_readmask("mask.txt", nx, ny));
    if (refused)
        for (int fd = 3; fd < 64; ++fd)
            close(fd);          /* a refusal leaves the file open */
    if (refused != !ok)
        fail(ok ? "a good mask is refused (%s)" : "a bad mask is accepted", qmsg);
    if (!refused) {
        for (int k = 0; k < n; ++k)
            if (m[k / nx][k % nx] != v[k])
                fail("line %d is read as %d", k + 1, m[k / nx][k % nx]);
        gu_free2d(m);
    }
    free(v);
    free(s.s);
    ncases++;
    ndistinct++;
}

/* ---------------------------------------------------------------- C25 */
static void bathyone(void)
{
    case_reset();
    int nx = 1 + rndi(5), ny = 1 + rndi(5), off = rndi(3) ? 0 : rndi(4), header = rndi(2), useoff = off > 0 || rndi(3) == 0;
    int imin = INT_MIN, imax = INT_MAX, jmin = INT_MIN, jmax = INT_MAX;
    char a[10][60];
    char* av[20];
    int n = 0, ac = 0, ok = 1;
    av[ac++] = "setbathy";
    av[ac++] = rndi(2) ? "in.txt" : "-";
    if (rndi(4)) {
        imin = rndi(nx + 2) - 1;
        imax = imin + rndi(nx + 1) - (rndi(6) == 0);
        snprintf(a[n], 60, "%d:%d", imin, imax);
        av[ac++] = "-i";
        av[ac++] = a[n++];
    }
    if (rndi(4)) {
        jmin = rndi(ny + 2) - 1;
        jmax = jmin + rndi(ny + 1) - (rndi(6) == 0);
        snprintf(a[n], 60, "%d:%d", jmin, jmax);
        av[ac++] = "-j";
        av[ac++] = a[n++];
    }
    if (!header) {
        snprintf(a[n], 60, "%dx%d", nx, ny);
        av[ac++] = "-d";
        av[ac++] = a[n++];
    }
    if (useoff) {
        snprintf(a[n], 60, "%d", off);
        av[ac++] = "-o";
        av[ac++] = a[n++];
    }
    av[ac++] = "-z";
    av[ac++] = "-99.5";
    av[ac] = NULL;
    S in = { 0 }, out = { 0 };
    add(&in, "");
    add(&out, "");
    for (int k = 0; k < off; ++k) {
        add(&in, "before %d\n", k);
        add(&out, "before %d\n", k);
    }
    if (header) {
        add(&in, "## %d x %d\n", nx, ny);
        add(&out, "## %d x %d\n", nx, ny);
    }
    int lines = nx * ny - (rndi(6) == 0), rest = rndi(3) ? 0 : rndi(3), nonl = rndi(4) == 0;
    if (lines < nx * ny)
        ok = 0, rest = 0;
    for (int k = 0; k < lines + rest; ++k) {
        int i = k % nx, j = k / nx;
        char l[100];
        snprintf(l, sizeof l, k < lines ? "%d.%d val%s" : "rest %d %d%s", i, j, k == lines + rest - 1 && nonl ? "" : "\n");
        add(&in, "%s", l);
        if (k < lines && i >= imin && i <= imax && j >= jmin && j <= jmax)
            add(&out, "-99.5\n");
        else
            add(&out, "%s", l);
    }
    for (int k = 0; k < ac; ++k)
        casef("%s ", av[k]);
    casef("\nof the file\n%s(end of file)\n", in.s);
    spew("in.txt", in.s);
    int st = program(av, "in.txt", "out.txt");
    if ((st != 0) != !ok)
        fail(ok ? "a good file is refused" : "a file with too few lines is accepted");
    if (ok) {
        char* got = slurp("out.txt");
        same_text("the output", got, out.s);
        free(got);
    }
    free(in.s);
    free(out.s);
    ncases++;
    ndistinct++;
}

/* ---------------------------------------------------------------- C08 */
static void gridfile(const char* f, G* g)
{
    FILE* h = fopen(f, "w");
    fprintf(h, "## %d x %d\n", g->nx, g->ny);
    for (long k = 0; k < (long) g->nx * g->ny; ++k)
        if (isnan(g->x[k]))
            fprintf(h, "NaN NaN\n");
        else
            fprintf(h, "%.17g %.17g\n", g->x[k], g->y[k]);
    fclose(h);
}
static void insertone(void)
{
    case_reset();
    G* a = g_new(1 + rndi(6), 1 + rndi(6));
    G* b = g_new(1 + rndi(6), 1 + rndi(6));
    double p = rndi(3) * 0.2;
    for (int w = 0; w < 2; ++w) {
        G* g = w ? b : a;
        for (long k = 0; k < (long) g->nx * g->ny; ++k) {
            g->x[k] = 1000 * (w + 1) + k;
            g->y[k] = -1000 * (w + 1) - k;
            if (rndu() < p)
                g->x[k] = g->y[k] = NAN;
        }
    }
    int i0 = rndi(13) - 6, j0 = rndi(13) - 6, merge = rndi(2), type = rndi(3) ? 0 : 1 + rndi(3);
    char si[30], sj[30];
    /* a number beginning with a dash is an option: a space before it is not */
    snprintf(si, sizeof si, i0 < 0 ? " %d" : "%d", i0);
    snprintf(sj, sizeof sj, j0 < 0 ? " %d" : "%d", j0);
    char* tn[] = { NULL, "dd", "ce", "co" };
    int types[] = { NT_NONE, NT_DD, NT_CEN, NT_COR };
    char* av[12];
    int ac = 0;
    av[ac++] = "insertgrid";
    av[ac++] = "a.txt";
    av[ac++] = "b.txt";
    av[ac++] = si;
    av[ac++] = sj;
    if (type) {
        av[ac++] = "-i";
        av[ac++] = tn[type];
    }
    if (merge)
        av[ac++] = "-m";
    av[ac] = NULL;
    casef("insertgrid a b \"%s\" \"%s\"%s%s%s\n", si, sj, merge ? " -m" : "", type ? " -i " : "", type ? tn[type] : "");
    g_print("a", a);
    g_print("b", b);
    gridfile("a.txt", a);
    gridfile("b.txt", b);
    int st = program(av, NULL, "out.txt");
    int lox = i0 < 0 ? i0 : 0, loy = j0 < 0 ? j0 : 0, hix = i0 + b->nx > a->nx ? i0 + b->nx : a->nx, hiy = j0 + b->ny > a->ny ? j0 + b->ny : a->ny;
    G* c = g_new(hix - lox, hiy - loy);
    int odd = c->nx % 2 && c->ny % 2;
    if ((st != 0) != (types[type] == NT_DD && !odd))
        fail(st ? "refused" : "a double density grid of even size is accepted");
    if (st == 0) {
        for (int r = 0; r < c->ny; ++r)
            for (int k = 0; k < c->nx; ++k) {
                int i1 = k + lox, j1 = r + loy, i2 = i1 - i0, j2 = j1 - j0;
                int in1 = i1 >= 0 && j1 >= 0 && i1 < a->nx && j1 < a->ny, in2 = i2 >= 0 && j2 >= 0 && i2 < b->nx && j2 < b->ny;
                if (in2 && !(merge && in1 && isnan(GX(b, j2, i2)))) {
                    GX(c, r, k) = GX(b, j2, i2);
                    GY(c, r, k) = GY(b, j2, i2);
                } else if (in1) {
                    GX(c, r, k) = GX(a, j1, i1);
                    GY(c, r, k) = GY(a, j1, i1);
                } else
                    GX(c, r, k) = GY(c, r, k) = NAN;
            }
        gridnodes* gn = g_make(c, types[type]);
        gridnodes_validate(gn);
        G* v = g_get(gn);
        S s = { 0 };
        add(&s, "## %d x %d\n", v->nx, v->ny);
        for (long k = 0; k < (long) v->nx * v->ny; ++k)
            if (isnan(v->x[k]))
                add(&s, "NaN NaN\n");
            else
                add(&s, "%.15g %.15g\n", v->x[k], v->y[k]);
        char* got = slurp("out.txt");
        same_text("the combined grid", got, s.s);
        free(got);
        free(s.s);
        g_free(v);
        gridnodes_destroy(gn);
    }
    g_free(a);
    g_free(b);
    g_free(c);
    ncases++;
    ndistinct++;
}

int main(int argc, char** argv)
{
    init(argc, argv);
    freopen("/dev/null", "w", stderr);
    while (more()) {
        if (!strcmp(prop, "C22"))
            readone();
        else if (!strcmp(prop, "C23"))
            writeone();
        else if (!strcmp(prop, "C24"))
            maskone();
        else if (!strcmp(prop, "C25"))
            bathyone();
        else if (!strcmp(prop, "C08"))
            insertone();
        else
            return 3;
    }
    return done();
}
