"""C03 (extraction), C07 (copy, subgrid), C06 (masks): selections of nodes."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg.templates import Comp, components
from vcg import contracts as C

PAT = lambda a: (lambda st, r, c: [a(st)[r, c]])


def inside(nx, ny, r, c):
    return And(r >= 0, r < ny, c >= 0, c < nx)


def selectors(e, sels, lim):
    """Candidate clauses: a fresh matrix holds sel(source) at every visited index."""
    def loopinv(e, L, st, add):
        mats = [o for o, d in st.desc.items() if d.kind == "mat" and d.fresh and d.elem == "double"]
        comps = []
        for k, m in enumerate(mats):
            arr = lambda s, m=m: s.mem.get((m, "@double"))
            for nm, sel in sels:
                def fn(s, r, c, arr=arr, sel=sel):
                    a = arr(s)
                    return a[r, c] == sel(s, r, c) if a is not None else T
                d = st.desc[m]
                comps.append(Comp("new%d = %s" % (k, nm), fn, lambda r, c, d=d: inside(d.nc, d.nr, r, c), lambda s, r, c, arr=arr: [arr(s)[r, c]] if arr(s) is not None else None))
        components(e, L, st, add, comps)
    return loopinv


def check_result(e, st, ret, nx1, ny1, type1, want, what):
    """ret is a fresh grid of the given size and type whose nodes are want(which, r, c)."""
    ts = ret.alts
    if len(ts) != 1 or ts[0][1] is None or st.desc[ts[0][1].obj].kind != "struct":
        e.oblige("post", FALSE, "%s: the result is a new grid" % what)
        return
    o = ts[0][1].obj
    g = GridView(e, st, o)
    d = st.desc[o]
    e.oblige("post", And(z3.BoolVal(d.fresh), st.alive.get(o, T)), "%s: the result is a new grid" % what)
    e.oblige("post", And(g.nx(st) == nx1, g.ny(st) == ny1), "%s: size of the result" % what)
    e.oblige("post", g.f(st, "type") == type1, "%s: type of the result" % what)
    e.oblige("post", g.f(st, "maptype") == e.g.f(e.st0, "maptype"), "%s: map type of the result" % what)
    mats = [g.mat(st, w) for w in "xy"]
    if None in mats or mats[0] == mats[1]:
        e.oblige("post", FALSE, "%s: the result has node arrays of its own" % what)
        return
    e.oblige("post", And(*[And(z3.BoolVal(st.desc[m].fresh), st.alive.get(m, T), st.desc[m].nr == ny1, st.desc[m].nc == nx1) for m in mats]), "%s: the result has node arrays of its own" % what)
    r, c = z3.Ints("r c")
    for w in "xy":
        A = g.arr(st, w)
        e.oblige("post", z3.ForAll([r, c], z3.Implies(inside(nx1, ny1, r, c), A[r, c] == want(w, r, c)), patterns=[A[r, c]]), "%s: %s of every node" % (what, w))


def source_unchanged(e, st, X, Y):
    g = e.g
    for f in ("nx", "ny", "type", "maptype"):
        e.oblige("post", g.f(st, f) == g.f(e.st0, f), "source %s unchanged" % f)
    for w, A in (("x", X), ("y", Y)):
        ok = g.mat(st, w) is not None and g.mat(st, w) == g.mat(e.st0, w)
        e.oblige("post", z3.BoolVal(ok), "source array g%s stays in place" % w)
        if ok:
            e.oblige("post", g.arr(st, w) == A, "source %s unchanged" % w)
            e.oblige("post", st.alive.get(g.mat(st, w), T), "source array not freed")


# ---------------------------------------------------------------- C03
def not_again(e, i, av):
    e.oblige("pre", FALSE, "a validated grid is not validated again")
    C.validate(e, i, av)


def extract(type1, validated):
    def build(module, tag=""):
        con = dict(C.BASE)
        if validated:
            con["gridnodes_validate"] = not_again
        e = Engine(module, "gridnodes_transform", con, tag=tag)
        off = 0 if type1 == NT["COR"] else 1
        e.scales = [(1, 1, 0), (2, 1, 0), (2, 1, -1)]

        def setup(e):
            st = State()
            e.validated = []
            e.g = grid(e, st, "gn", type=NT["DD"])
            v = z3.Int("validated0")
            e.assume(v != 0 if validated else v == 0)
            setf(e, st, e.g.obj, "gridnodes.validated", ival(0) if not validated else v, "i32")
            hx, hy = z3.Int("gn.hx"), z3.Int("gn.hy")
            e.terms += [hx, hy, hx + 1, hy + 1]
            e.quit_ok = lambda e, st: Or(hx == 0, hy == 0) if type1 == NT["CEN"] else FALSE
            return st, [to(e.g.obj), ival(type1)]

        def src(w):
            return lambda st, r, c: e.g.arr(st, w)[2 * r + off, 2 * c + off]
        e.loopinv = selectors(e, [("x selected", src("x")), ("y selected", src("y"))], None)

        def finish(e, st, ret):
            hx, hy = z3.Int("gn.hx"), z3.Int("gn.hy")
            if validated:
                X, Y = e.g.arr(e.st0, "x"), e.g.arr(e.st0, "y")
            else:
                if len(e.validated) != 1:
                    e.oblige("post", FALSE, "the grid is validated once")
                    return
                X, Y = e.validated[0]
            n1, n2 = (hx + 1, hy + 1) if type1 == NT["COR"] else (hx, hy)
            check_result(e, st, ret, n1, n2, ival(type1), lambda w, r, c: (X if w == "x" else Y)[2 * r + off, 2 * c + off], "selection")
            source_unchanged(e, st, X, Y)
        e.run(setup, finish)
        return e
    return build


def same_type(type1):
    """transforming to the grid's own type (or to none) is a copy"""
    def build(module, tag=""):
        e = Engine(module, "gridnodes_transform", C.BASE, tag=tag)

        def setup(e):
            st = State()
            e.validated = []
            e.g = grid(e, st, "gn", type=NT["DD"])
            setf(e, st, e.g.obj, "gridnodes.validated", ival(1), "i32")
            return st, [to(e.g.obj), ival(type1)]

        def finish(e, st, ret):
            X, Y = e.g.arr(e.st0, "x"), e.g.arr(e.st0, "y")
            check_result(e, st, ret, e.g.nx(e.st0), e.g.ny(e.st0), ival(NT["DD"]), lambda w, r, c: (X if w == "x" else Y)[r, c], "copy")
            source_unchanged(e, st, X, Y)
        e.run(setup, finish)
        return e
    return build


# ---------------------------------------------------------------- C07
def copy(module, tag=""):
    e = Engine(module, "gridnodes_copy", {k: v for k, v in C.BASE.items() if k != "gridnodes_copy"}, tag=tag)

    def setup(e):
        st = State()
        e.g = grid(e, st, "gn", odd=False)
        return st, [to(e.g.obj)]

    e.loopinv = selectors(e, [("x", lambda st, r, c: e.g.arr(st, "x")[r, c]), ("y", lambda st, r, c: e.g.arr(st, "y")[r, c])], None)

    def finish(e, st, ret):
        X, Y = e.g.arr(e.st0, "x"), e.g.arr(e.st0, "y")
        check_result(e, st, ret, e.g.nx(e.st0), e.g.ny(e.st0), e.g.f(e.st0, "type"), lambda w, r, c: (X if w == "x" else Y)[r, c], "copy")
        source_unchanged(e, st, X, Y)
    e.run(setup, finish)
    return e


def subgrid(module, tag=""):
    e = Engine(module, "gridnodes_subgrid", C.BASE, tag=tag)

    def clip(e):
        nx, ny = e.g.nx(e.st0), e.g.ny(e.st0)
        a = dict(zip(("imin", "imax", "jmin", "jmax"), e.args))
        lo = lambda v: z3.If(v < 0, 0, v)
        hi = lambda v, n: z3.If(v >= n, n - 1, v)
        return lo(a["imin"]), hi(a["imax"], nx), lo(a["jmin"]), hi(a["jmax"], ny)

    def setup(e):
        st = State()
        e.g = grid(e, st, "gn", odd=False)
        e.args = [e.fresh_int(n, "i32") for n in ("imin", "imax", "jmin", "jmax")]
        e.st0 = st
        i0, i1, j0, j1 = clip(e)
        e.lo = [e.fresh("lo", I) for _ in range(4)]
        e.assume(z3.And(*[a == b for a, b in zip(e.lo, (i0, i1, j0, j1))]))
        e.terms += [e.lo[1] - e.lo[0] + 1, e.lo[3] - e.lo[2] + 1]
        w, h = e.lo[1] - e.lo[0] + 1, e.lo[3] - e.lo[2] + 1
        nx, ny = e.g.nx(st), e.g.ny(st)
        # lemma: the cut-out is not larger than the grid
        e.glob.append(z3.Implies(z3.And(w >= 0, h >= 0, w <= nx, h <= ny), w * h <= nx * ny))
        e.glob.append(z3.Implies(z3.And(h >= 0, w >= 0, w <= nx, h <= ny), h * w <= ny * nx))
        e.quit_ok = lambda e, st: Or(e.lo[0] > e.lo[1], e.lo[2] > e.lo[3])
        return st, [to(e.g.obj)] + e.args

    def src(w):
        return lambda st, r, c: e.g.arr(st, w)[r + e.lo[2], c + e.lo[0]]
    e.loopinv = selectors(e, [("x", src("x")), ("y", src("y"))], None)

    def finish(e, st, ret):
        X, Y = e.g.arr(e.st0, "x"), e.g.arr(e.st0, "y")
        i0, i1, j0, j1 = e.lo
        e.oblige("post", And(i0 <= i1, j0 <= j1), "a range that selects nothing is refused")
        # every alternative of the result (copy or cut-out)
        for g, t in ret.alts:
            sub = Ptr([(T, t)])
            reach = e.reach[e.cur]
            e.reach[e.cur] = And(reach, g)
            check_result(e, st, sub, i1 - i0 + 1, j1 - j0 + 1, e.g.f(e.st0, "type"), lambda w, r, c: (X if w == "x" else Y)[r + j0, c + i0], "cut-out")
            e.reach[e.cur] = reach
        source_unchanged(e, st, X, Y)
    e.run(setup, finish)
    return e


# ---------------------------------------------------------------- C06
def mask_cen(module, tag=""):
    e = Engine(module, "gridnodes_applymask", C.BASE, tag=tag)

    def setup(e):
        st = State()
        e.g = g = grid(e, st, "gn", type=NT["CEN"])
        nx, ny = g.nx(st), g.ny(st)
        mr, mm = matrix(e, st, "mask", ny, nx, "i32", ro=True)
        M = e.M = st.mem[(mm, "@i")]
        X0, Y0 = e.X0, e.Y0 = g.arr(st, "x"), g.arr(st, "y")
        dom = lambda r, c: inside(nx, ny, r, c)
        e.comps.append(Comp("only masked nodes change", lambda s, r, c: Or(And(g.at(s, "x", r, c) == X0[r, c], g.at(s, "y", r, c) == Y0[r, c]),
                            And(M[r, c] == 0, isnan(g.at(s, "x", r, c)), isnan(g.at(s, "y", r, c)))), dom, lambda s, r, c: [g.at(s, "x", r, c), g.at(s, "y", r, c)], always=True))
        e.comps.append(Comp("masked nodes removed", lambda s, r, c: Implies(M[r, c] == 0, And(isnan(g.at(s, "x", r, c)), isnan(g.at(s, "y", r, c)))), dom, lambda s, r, c: [g.at(s, "x", r, c)]))
        return st, [to(g.obj), to(mr)]

    def finish(e, st, ret):
        g, M = e.g, e.M
        nx, ny = g.nx(e.st0), g.ny(e.st0)
        X, Y = g.arr(st, "x"), g.arr(st, "y")
        r, c = z3.Ints("r c")
        e.oblige("post", z3.ForAll([r, c], z3.Implies(And(inside(nx, ny, r, c), M[r, c] == 0), And(isnan(X[r, c]), isnan(Y[r, c]))), patterns=[X[r, c]]), "masked centres become NaN")
        e.oblige("post", z3.ForAll([r, c], z3.Implies(And(inside(nx, ny, r, c), M[r, c] != 0), And(X[r, c] == e.X0[r, c], Y[r, c] == e.Y0[r, c])), patterns=[X[r, c]]), "other nodes stay bit-identical")
        for f in ("nx", "ny", "type", "maptype"):
            e.oblige("post", g.f(st, f) == g.f(e.st0, f), "%s unchanged" % f)
    e.run(setup, finish)
    return e


def mask_dd(module, tag=""):
    """Before the ensuing validation: exactly the centres of masked cells and the corners none of
    whose cells keeps a valid centre become NaN."""
    con = dict(C.BASE)

    def setup(e):
        st = State()
        e.seen = []
        e.g = g = grid(e, st, "gn", type=NT["DD"])
        nx, ny = g.nx(st), g.ny(st)
        hx, hy = z3.Int("gn.hx"), z3.Int("gn.hy")
        e.terms += [hx, hy]
        mr, mm = matrix(e, st, "mask", hy, hx, "i32", ro=True)
        M = e.M = st.mem[(mm, "@i")]
        X0, Y0 = e.X0, e.Y0 = g.arr(st, "x"), g.arr(st, "y")
        # C(a,b): the centre of cell (a,b) is valid after masking
        CV = z3.Function("centre_valid", I, I, B)
        RM = z3.Function("removed", I, I, B)
        r, c = z3.Ints("r c")
        e.assume(z3.ForAll([r, c], CV(r, c) == And(r % 2 == 1, c % 2 == 1, r >= 0, c >= 0, r < ny, c < nx, M[r / 2, c / 2] != 0, Not(isnan(X0[r, c]))), patterns=[CV(r, c)]))
        spec = If(And(r % 2 == 1, c % 2 == 1), M[r / 2, c / 2] == 0,
                  And(r % 2 == 0, c % 2 == 0, Not(Or(*[CV(r + a, c + b) for a in (-1, 1) for b in (-1, 1)]))))
        e.assume(z3.ForAll([r, c], z3.Implies(inside(nx, ny, r, c), RM(r, c) == spec), patterns=[RM(r, c)]))
        e.RM = RM
        e.scales = [(1, 1, 0)]
        dom = lambda r, c: inside(nx, ny, r, c)
        e.comps.append(Comp("only removable nodes change", lambda s, r, c: Or(And(g.at(s, "x", r, c) == X0[r, c], g.at(s, "y", r, c) == Y0[r, c]),
                            And(RM(r, c), isnan(g.at(s, "x", r, c)), isnan(g.at(s, "y", r, c)))), dom, lambda s, r, c: [g.at(s, "x", r, c), g.at(s, "y", r, c)], always=True))
        for nm, k in (("centre", 1), ("corner", 0)):
            e.comps.append(Comp("%s nodes removed" % nm, lambda s, r, c: Implies(RM(r, c), And(isnan(g.at(s, "x", r, c)), isnan(g.at(s, "y", r, c)))),
                                lambda r, c, k=k: And(inside(nx, ny, r, c), r % 2 == k, c % 2 == k), lambda s, r, c: [g.at(s, "x", r, c)]))
        return st, [to(g.obj), to(mr)]

    def validate(e, i, av):
        st, g = e.st, e.g
        e.oblige("pre", z3.BoolVal(len(av) == 1 and av[0].only().obj == g.obj), "the masked grid is validated")
        nx, ny = g.nx(e.st0), g.ny(e.st0)
        X, Y = g.arr(st, "x"), g.arr(st, "y")
        r, c = z3.Ints("r c")
        ins = inside(nx, ny, r, c)
        e.oblige("post", z3.ForAll([r, c], z3.Implies(And(ins, e.RM(r, c)), And(isnan(X[r, c]), isnan(Y[r, c]))), patterns=[X[r, c]]),
                 "masked centres and corners left without a valid centre become NaN")
        e.oblige("post", z3.ForAll([r, c], z3.Implies(And(ins, Not(e.RM(r, c))), And(X[r, c] == e.X0[r, c], Y[r, c] == e.Y0[r, c])), patterns=[X[r, c]]),
                 "other nodes stay bit-identical")
        for f in ("nx", "ny", "type", "maptype"):
            e.oblige("post", g.f(st, f) == g.f(e.st0, f), "%s unchanged" % f)
        e.seen.append(1)
        C.validate(e, i, av)
    con["gridnodes_validate"] = validate
    e = Engine(module, "gridnodes_applymask", con, tag=tag)

    def finish(e, st, ret):
        e.oblige("post", z3.BoolVal(len(e.seen) == 1), "the grid is validated once after masking")
        X, Y = e.validated[-1]
        e.oblige("post", And(e.g.arr(st, "x") == X, e.g.arr(st, "y") == Y), "validation is the last step")
    e.run(setup, finish)
    return e


def mask_refused(type1):
    def build(module, tag=""):
        e = Engine(module, "gridnodes_applymask", C.BASE, tag=tag)

        def setup(e):
            st = State()
            e.g = g = grid(e, st, "gn", type=type1)
            mr, mm = matrix(e, st, "mask", g.ny(st), g.nx(st), "i32", ro=True)
            e.quit_ok = lambda e, s: And(g.arr(s, "x") == g.arr(e.st0, "x"), g.arr(s, "y") == g.arr(e.st0, "y"))
            return st, [to(g.obj), to(mr)]

        def finish(e, st, ret):
            e.oblige("post", FALSE, "a mask on nodes of this type is refused")
        e.expect_no_exit = True
        e.run(setup, finish)
        return e
    return build
