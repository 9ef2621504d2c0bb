"""C22 (reading grids), C23 (writing grids), C24 (reading masks), C25 (setbathy): text input and output."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg import contracts as C, stdio as S
from vcg.templates import Comp, components
from specs.select import inside

KEEP = (C.KEEP | {"gridnodes_readnextpoint", "parse_commandline"}) - {"gridnodes_destroy"}
r_, c_, k_ = z3.Ints("r c k")
AT = z3.Function("line_of_cell", I, I, I)        # line of the input that belongs to a cell: rows one after another
START = z3.Function("start_of_cell", I, I, I)    # first output token of a cell


def tok(st, t, kind, val=None):
    g = st.ghost
    f = g["OUTK"][t] == kind
    if val is None:
        return f
    return z3.And(f, g["OUTD"][t] == val if val.sort() == F else g["OUTI"][t] == val)


def rowmajor(e, f, nx, base, width):
    """f numbers cells row by row from base on, cell (r, c) taking width(r, c): the recursion, instantiated where the loops are."""
    e.glob.append(f(0, 0) == base)
    e.rowmajor = getattr(e, "rowmajor", [])
    e.rowmajor.append((f, nx, width))


def steps(e, L, extra=()):
    """Unfolds the numbering at the counters of the loops."""
    ints = [ph.cur for M in L.chain for ph in M.phis if ph.ty not in ("ptr", "double") and ph.step == 1]
    for a in ints + [ival(0)]:
        for b in ints + [ival(0)]:
            for f, nx, width in e.rowmajor:
                k = ("rm", str(f), a.get_id(), b.get_id())
                if k in e.onces:
                    continue
                e.onces.add(k)
                e.keep += [a, b]
                e.glob.append(z3.Implies(z3.And(a >= 0, b >= 0, b < nx), f(a, b + 1) == f(a, b) + width(a, b)))
                e.glob.append(z3.Implies(a >= 0, f(a + 1, 0) == f(a, nx)))


def counters(e, L, st, add, name, f, off=0):
    """Candidates: a ghost counter stands at the cell the loops are at."""
    own = [p for p in L.phis if p.step == 1 and p.ty != "ptr"]
    outer = [p for M in L.chain[1:] for p in M.phis if p.step == 1 and p.ty != "ptr"]
    for p in own:
        add("%s at row %s" % (name, p.name), lambda s, p=p: s.ghost[name] == f(p.cur, ival(0)) + off)
        for q in outer:
            add("%s at %s,%s" % (name, q.name, p.name), lambda s, p=p, q=q: s.ghost[name] == f(q.cur, p.cur) + off)


def read_range(e, ny, nx, base):
    rowmajor(e, AT, nx, base, lambda a, b: 1)


# ---------------------------------------------------------------- C24
def mask(module, tag=""):
    con = dict(C.BASE)
    e = Engine(module, "gu_readmask", con, tag=tag)

    def good(k):
        return z3.And(S.LEN(k) == 1, z3.Or(S.CH(k, 0) == 48, S.CH(k, 0) == 49))

    def setup(e):
        st = State()
        S.begin(e, st)
        nx, ny = e.nx, e.ny = z3.Int("nx"), z3.Int("ny")
        e.assume(z3.And(nx >= 1, ny >= 1, nx <= MAXDIM, ny <= MAXDIM, nx * ny <= INTMAX))
        e.dims.append((ny, nx))
        e.terms += [nx, ny]
        e.rowmajor = []
        read_range(e, ny, nx, 0)
        e.allgood = z3.ForAll([r_, c_], z3.Implies(inside(nx, ny, r_, c_), z3.And(AT(r_, c_) < S.NL, good(AT(r_, c_)))), patterns=[AT(r_, c_)])
        e.quit_ok = lambda e, st: z3.Not(e.allgood)
        return st, [to(e.opaque(st, "fname")), nx, ny]

    def inv(e_, L, st, add):
        steps(e, L)
        counters(e, L, st, add, "POS", AT)
        comps = []
        for o, d in st.desc.items():
            if d.kind == "mat" and d.fresh and d.elem == "i32":
                def val(s, r, c, o=o):
                    a = s.mem.get((o, "@i"))
                    return z3.And(AT(r, c) < S.NL, good(AT(r, c)), a[r, c] == S.CH(AT(r, c), 0) - 48)
                comps.append(Comp("mask", val, lambda r, c: inside(e.nx, e.ny, r, c), lambda s, r, c, o=o: [s.mem[(o, "@i")][r, c], AT(r, c)]))
        components(e, L, st, add, comps)
    e.loopinv = inv

    def finish(e, st, ret):
        t = ret.only() if len(ret.alts) == 1 else None
        d = st.desc[t.obj] if t is not None else None
        if d is None or d.kind != "rows" or not d.fresh:
            e.oblige("post", FALSE, "the mask is a new array")
            return
        m = st.desc[d.mat]
        e.oblige("post", And(m.nr == e.ny, m.nc == e.nx, z3.BoolVal(m.elem == "i32"), st.alive.get(d.mat, T)), "one value per cell")
        A = e.getmem(st, d.mat, "@i", "i32")
        e.oblige("post", z3.ForAll([r_, c_], z3.Implies(inside(e.nx, e.ny, r_, c_), z3.And(AT(r_, c_) < S.NL, good(AT(r_, c_)), A[r_, c_] == S.CH(AT(r_, c_), 0) - 48)), patterns=[A[r_, c_]]), "the k-th line is the value of the k-th cell")
    e.run(setup, finish)
    return e


# ---------------------------------------------------------------- C23
def write(ctype):
    def build(module, tag=""):
        e = Engine(module, "gridnodes_write", dict(C.BASE), tag=tag)
        num15 = S.code(("", "", ".15", "", "g"))
        D = S.code(("", "", "", "", "d"))
        head = [35, 35, 32, D, 32, 120, 32, D, 10]
        na = [ord(c) for c in ("NaN NaN\n" if ctype == "xy" else "NaN\n")]

        def setup(e):
            st = State()
            S.begin(e, st)
            e.g = grid(e, st, "gn")
            e.rowmajor = []
            nx, ny = e.g.nx(st), e.g.ny(st)
            e.X, e.Y = e.g.arr(st, "x"), e.g.arr(st, "y")
            e.width = lambda a, b: z3.If(isnan(e.X[a, b]), len(na), 4 if ctype == "xy" else 2)
            rowmajor(e, START, nx, len(head), e.width)
            e.assume(len(head) > 0)
            return st, [to(e.g.obj), to(e.opaque(st, "fname")), ival({"x": 0, "y": 1, "xy": 2}[ctype])]

        def header(st):
            nx, ny = e.g.nx(e.st0), e.g.ny(e.st0)
            return z3.And(*[tok(st, ival(k), h, {3: nx, 7: ny}.get(k)) for k, h in enumerate(head)])

        def cell(st, r, c):
            s = START(r, c)
            bad = z3.And(*[tok(st, s + k, h) for k, h in enumerate(na)])
            x, y = e.X[r, c], e.Y[r, c]
            if ctype == "xy":
                ok = z3.And(tok(st, s, num15, x), tok(st, s + 1, 32), tok(st, s + 2, num15, y), tok(st, s + 3, 10))
            else:
                ok = z3.And(tok(st, s, num15, x if ctype == "x" else y), tok(st, s + 1, 10))
            return z3.And(s >= len(head), s + e.width(r, c) <= st.ghost["NOUT"], z3.If(isnan(x), bad, ok))

        def inv(e_, L, st, add):
            steps(e, L)
            counters(e, L, st, add, "NOUT", START)
            nx, ny = e.g.nx(e.st0), e.g.ny(e.st0)
            add("header", lambda s: z3.And(s.ghost["NOUT"] >= len(head), header(s)))
            components(e, L, st, add, [Comp("printed", cell, lambda r, c: inside(nx, ny, r, c), lambda s, r, c: [START(r, c)])])
        e.loopinv = inv

        def finish(e, st, ret):
            nx, ny = e.g.nx(e.st0), e.g.ny(e.st0)
            e.oblige("post", header(st), "the header gives the dimensions")
            e.oblige("post", z3.ForAll([r_, c_], z3.Implies(inside(nx, ny, r_, c_), cell(st, r_, c_)), patterns=[START(r_, c_)]), "one line for every node, in row order")
            e.oblige("post", st.ghost["NOUT"] == START(ny, 0), "nothing follows the last node")
            untouched(e, st)
        e.run(setup, finish)
        return e
    return build


# ---------------------------------------------------------------- C22
def nextpoint(module, tag=""):
    e = Engine(module, "gridnodes_readnextpoint", dict(C.BASE), tag=tag)
    e.z3opts = {"smt.arith.nl": True}

    def setup(e):
        st = State()
        g = e.g = grid(e, st, "gn")
        nx, ny = g.nx(st), g.ny(st)
        e.r, e.c = z3.Int("row"), z3.Int("col")
        n = z3.Int("nextpoint")
        e.assume(z3.And(e.r >= 0, e.r < ny, e.c >= 0, e.c < nx, n == e.r * nx + e.c, e.r * nx + nx <= nx * ny))
        setf(e, st, g.obj, "gridnodes.nextpoint", n, "i32")
        e.x, e.y = [e.dfacts(z3.Const(w, F)) for w in "xy"]
        return st, [to(g.obj), e.x, e.y]

    def finish(e, st, ret):
        g = e.g
        nx, ny = g.nx(e.st0), g.ny(e.st0)
        for w, v in (("x", e.x), ("y", e.y)):
            e.oblige("post", g.arr(st, w) == z3.Store(g.arr(e.st0, w), e.r, e.c, v), "%s goes to the next node in row order and nowhere else" % w)
        n = g.f(st, "nextpoint")
        last = z3.And(e.r == ny - 1, e.c == nx - 1)
        e.oblige("post", n == z3.If(last, 0, e.r * nx + e.c + 1), "the next node follows in row order; after the last one comes the first")
    e.run(setup, finish)
    return e


def read(type):
    def build(module, tag=""):
        e = Engine(module, "gridnodes_read", dict(C.BASE), tag=tag, arith="real")
        RW, CL = z3.Function("row_of_line", I, I), z3.Function("col_of_line", I, I)
        HEAD, DATA = "## %d x %d", "%lf %lf"

        def setup(e):
            st = State()
            S.begin(e, st)
            e.rowmajor = []
            n, (vx, vy) = S.scanned(HEAD)
            nx, ny = e.nx, e.ny = z3.Int("nx0"), z3.Int("ny0")
            e.assume(z3.And(nx == vx[0](0), ny == vy[0](0)))
            e.assume(z3.And(nx >= -2 ** 31, nx < 2 ** 31, ny >= -2 ** 31, ny < 2 ** 31))
            big = z3.ToReal(nx) * z3.ToReal(ny) > 2147483647
            e.assume(z3.ToReal(nx * ny) == z3.ToReal(nx) * z3.ToReal(ny))
            bad = [S.NL == 0, n(0) != 2, nx < 1, ny < 1, big]
            if type == NT["DD"]:
                bad += [nx % 2 == 0, ny % 2 == 0]
            e.okhead = z3.Not(z3.Or(*bad))
            e.dims.append((ny, nx))
            e.terms += [nx, ny]
            read_range(e, ny, nx, 1)
            e.glob.append(z3.ForAll([r_, c_], z3.Implies(inside(z3.Int("nx0"), z3.Int("ny0"), r_, c_), z3.And(RW(AT(r_, c_)) == r_, CL(AT(r_, c_)) == c_, AT(r_, c_) >= 1, AT(r_, c_) < AT(z3.Int("ny0"), 0))), patterns=[AT(r_, c_)]))
            e.enough = z3.ForAll([r_, c_], z3.Implies(inside(nx, ny, r_, c_), AT(r_, c_) < S.NL), patterns=[AT(r_, c_)])
            e.quit_ok = lambda e, st: z3.Or(z3.Not(e.okhead), z3.Not(e.enough))
            e.N, (e.VX, e.VY) = S.scanned(DATA)
            return st, [to(e.opaque(st, "fname")), ival(type)]

        def node(st, w, a, r, c):
            k = AT(r, c)
            v = (e.VX if w == "x" else e.VY)[0](k)
            return z3.And(k < S.NL, z3.If(e.N(k) == 2, a == v, isnan(a)))

        def inv(e_, L, st, add):
            steps(e, L)
            counters(e, L, st, add, "POS", AT)
            comps = []
            for o, d in st.desc.items():
                if d.kind == "mat" and d.fresh and d.elem == "double":
                    for w in "xy":
                        comps.append(Comp("node %s of %s" % (w, o), lambda s, r, c, o=o, w=w: node(s, w, s.mem[(o, "@double")][r, c], r, c), lambda r, c: inside(e.nx, e.ny, r, c), lambda s, r, c, o=o: [s.mem[(o, "@double")][r, c], AT(r, c)]))
            components(e, L, st, add, comps)
            # pointers walking along the rows
            for ph in L.phis:
                if ph.ty == "ptr":
                    own = [p for p in L.phis if p.step == 1 and p.ty != "ptr"]
                    outer = [p for M in L.chain[1:] for p in M.phis if p.step == 1 and p.ty != "ptr"]
                    for p in own:
                        add("%s at row %s" % (ph.name, p.name), lambda s, p=p, ph=ph: ph.cur == AT(p.cur, ival(0)) - 1)
                        for q in outer:
                            add("%s at %s,%s" % (ph.name, q.name, p.name), lambda s, p=p, q=q, ph=ph: ph.cur == AT(q.cur, p.cur) - 1)
        e.loopinv = inv

        def linear(st, d, pv):
            # cells of a matrix lie one after another, row by row, as the lines of the file do after the header
            ok = And(d.nr == e.ny, d.nc == e.nx)
            e.oblige("pre", ok, "the matrix walked through has the dimensions of the grid")
            k = pv.col + 1
            e.assume(Implies(And(k >= 1, k < AT(e.ny, ival(0))), And(AT(RW(k), CL(k)) == k, inside(e.nx, e.ny, RW(k), CL(k)))))
            out = Not(And(k >= 1, k < AT(e.ny, ival(0))))
            e.assume(Implies(out, RW(k) < 0))
            return PV(pv.obj, RW(k), CL(k), pv.path)
        e.linear = linear

        def finish(e, st, ret):
            t = ret.only() if len(ret.alts) == 1 else None
            o = t.obj if t is not None else None
            if o is None or not st.desc[o].fresh:
                e.oblige("post", FALSE, "the grid is new")
                return
            g = GridView(e, st, o)
            e.oblige("post", e.okhead, "sizes below one, too big or even for double density are refused")
            e.oblige("post", And(g.nx(st) == e.nx, g.ny(st) == e.ny), "the dimensions are those of the header")
            e.oblige("post", g.f(st, "type") == type, "the grid has the type asked for")
            e.oblige("post", g.f(st, "validated") == 0, "the grid is not validated yet")
            e.oblige("post", g.f(st, "nextpoint") == 0, "point by point filling starts at the first node")
            mats = [g.mat(st, w) for w in "xy"]
            if None in mats or mats[0] == mats[1]:
                e.oblige("post", FALSE, "the grid has node arrays of its own")
                return
            for w, m in zip("xy", mats):
                d = st.desc[m]
                e.oblige("post", And(d.nr == e.ny, d.nc == e.nx, st.alive.get(m, T), z3.BoolVal(bool(d.fresh))), "the grid has node arrays of its own")
                A = g.arr(st, w)
                e.oblige("post", z3.ForAll([r_, c_], z3.Implies(inside(e.nx, e.ny, r_, c_), node(st, w, A[r_, c_], r_, c_)), patterns=[A[r_, c_]]), "%s of the k-th node is that of the k-th line" % w)
        e.run(setup, finish)
        return e
    return build


# ---------------------------------------------------------------- C25
def setbathy(header):
    """The program's main function; the grid size comes from the command line or from a header line of the file."""
    from specs import overlay
    S0 = z3.Function("start_of_line", I, I)
    SEL = z3.Function("line_selected", I, B)

    def build(module, tag=""):
        con = dict(C.BASE)
        con["parse_commandline"] = overlay.commandline
        e = Engine(module, "main", con, tag=tag, arith="real")
        e.settings = ["gu_verbose"]

        def limits(e):
            a = e.args
            if sorted(k for k in a if isinstance(k, int)) != list(range(2, 11)):
                raise Unsupported("variables set by the command line")
            e.zname = a[10].only().obj
            e.imin, e.imax, e.jmin, e.jmax = a[3], a[4], a[5], a[6]
            O = e.O = z3.Int("lines_before")
            n, (vx, vy) = S.scanned("## %d x %d")
            nx, ny = e.nx, e.ny = z3.Int("nx0"), z3.Int("ny0")
            base = e.base = O + 1 if header else O
            out = [O == z3.If(a[9] > 0, a[9], 0)]
            if header:
                out += [a[7] < 0, nx == vx[0](O), ny == vy[0](O)]
            else:
                out += [a[7] >= 0, nx == a[7], ny == a[8]]
            out += [nx >= -2 ** 31, nx < 2 ** 31, ny >= -2 ** 31, ny < 2 ** 31, z3.ToReal(nx * ny) == z3.ToReal(nx) * z3.ToReal(ny)]
            big = z3.ToReal(nx) * z3.ToReal(ny) > 2147483647
            e.bad = z3.Or(S.NL < base, nx < 1, ny < 1, big, n(O) != 2 if header else FALSE)
            e.dims.append((ny, nx))
            e.terms += [nx, ny, O]
            rowmajor(e, AT, nx, base, lambda a, b: 1)
            e.enough = z3.ForAll([r_, c_], z3.Implies(inside(nx, ny, r_, c_), AT(r_, c_) < S.NL), patterns=[AT(r_, c_)])
            e.quit_ok = lambda e, st: z3.Or(e.bad, z3.Not(e.enough))
            e.glob.append(z3.ForAll([r_, c_], z3.Implies(inside(nx, ny, r_, c_), z3.And(
                SEL(AT(r_, c_)) == z3.And(c_ >= e.imin, c_ <= e.imax, r_ >= e.jmin, r_ <= e.jmax), AT(r_, c_) >= base, AT(r_, c_) < AT(ny, 0))), patterns=[AT(r_, c_)]))
            e.glob.append(z3.ForAll([k_], z3.Implies(z3.Or(k_ < base, k_ >= AT(ny, 0)), z3.Not(SEL(k_))), patterns=[SEL(k_)]))
            e.glob.append(S0(0) == 0)
            return out
        e.limits = limits

        def setup(e):
            st = State()
            S.begin(e, st)
            e.rowmajor = []
            e.quit_ok = lambda e, st: FALSE
            return st, [z3.Int("argc"), to(e.opaque(st, "argv"))]

        def z(st, t):
            ids = e.__dict__.setdefault("strings", {})
            return tok(st, t, S.STRING, ival(ids.setdefault(e.zname, len(ids))))

        def line(st, k):
            s = S0(k)
            return z3.And(s >= 0, z3.If(SEL(k), z3.And(s + 2 <= st.ghost["NOUT"], z(st, s), tok(st, s + 1, 10)), z3.And(s + 1 <= st.ghost["NOUT"], tok(st, s, S.LINE, k))))

        def inv(e_, L, st, add):
            if not hasattr(e, "O"):
                return
            steps(e, L)
            p = st.ghost["POS"]
            k = ("S0", p.get_id())
            if k not in e.onces:
                e.onces.add(k)
                e.keep.append(p)
                e.glob.append(z3.Implies(p >= 0, S0(p + 1) == S0(p) + z3.If(SEL(p), 2, 1)))
            counters(e, L, st, add, "POS", AT)
            for ph in [p for M in L.chain for p in M.phis if p.step == 1 and p.ty != "ptr"]:
                add("POS==%s" % ph.name, lambda s, ph=ph: s.ghost["POS"] == ph.cur)
            add("POS>=base", lambda s: s.ghost["POS"] >= e.base)
            add("POS>=end", lambda s: s.ghost["POS"] >= AT(e.ny, ival(0)))
            add("POS<=NL", lambda s: s.ghost["POS"] <= S.NL)
            add("output so far", lambda s: z3.And(s.ghost["POS"] >= 0, s.ghost["NOUT"] >= 0, s.ghost["NOUT"] == S0(s.ghost["POS"])))
            add("lines so far", lambda s: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < s.ghost["POS"]), line(s, k_)), patterns=[S0(k_)]))
            components(e, L, st, add, [Comp("enough lines", lambda s, r, c: AT(r, c) < S.NL, lambda r, c: inside(e.nx, e.ny, r, c), lambda s, r, c: [AT(r, c)])])
        e.loopinv = inv

        def finish(e, st, ret):
            g = st.ghost
            e.oblige("post", z3.And(z3.Not(e.bad), e.enough), "bad sizes and files with too few lines are refused")
            e.oblige("post", g["POS"] == S.NL, "all lines are read")
            e.oblige("post", z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < S.NL), line(st, k_)), patterns=[S0(k_)]), "the lines of the selected cells are replaced and all others copied")
            e.oblige("post", g["NOUT"] == S0(S.NL), "nothing follows the last line")
        e.run(setup, finish)
        return e
    return build
