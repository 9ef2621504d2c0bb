"""C21: grid statistics."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg import contracts as C
from vcg.templates import Comp, components
from specs.select import inside

KEEP = (C.KEEP | {"dtheta", "gridnodes_calcstats"}) - {"gridnodes_destroy"}
r_, c_ = z3.Ints("r c")
LEN = z3.Function("root", R, R)               # the root of a number that is not negative
ACOS = z3.Function("arccos", R, R)
DEV = z3.Function("deviation", R, R, R, R, R)   # |90 - angle between two vectors|, in degrees
PI = Fraction(3.141592653589793)


def length(x, y):
    return LEN(canon(x * x + y * y))


def deviation(x1, y1, x2, y2):
    """Two angles that add to 180 degrees deviate as much from 90: the signs of the vectors and their order do not matter."""
    def vec(x, y):
        a, b = (canon(x), canon(y)), (canon(-x), canon(-y))
        return min(a, b, key=lambda v: (v[0].sexpr(), v[1].sexpr()))
    v, w = sorted([vec(x1, y1), vec(x2, y2)], key=lambda v: (v[0].sexpr(), v[1].sexpr()))
    return DEV(v[0], v[1], w[0], w[1])


def malloc(e, i, av):
    from vcg import libc
    if isconst(simp(av[0])) and simp(av[0]).as_long() == e.m.sizeof(("named", "struct.gridstats")):
        o = e.mkobj(e.st, "stats" + i.res, Desc("struct", ("named", "struct.gridstats"), fresh=True))
        e.st.alive[o] = T
        return to(o)
    return libc.c_malloc(e, i, av)


def need(module, name, params):
    try:
        f = module.find(name)
    except Exception:
        f = None
    if f is None or len(f.params) != params:
        raise Unsupported("no function %s of %d arguments" % (name, params))


def hypot(e, i, av):
    (la, pa), (lb, pb) = e.rval(av[0]), e.rval(av[1])
    r = e.fresh("hypot", F)
    t = length(pa, pb)
    e.assume(t >= 0)
    e.setpoly(r, la + lb, t)
    e.dfacts(r)
    return r


# ---------------------------------------------------------------- the angle
def dtheta(module, tag=""):
    need(module, "dtheta", 4)
    e = Engine(module, "dtheta", dict(C.BASE), tag=tag, arith="real")

    def acos(e, i, av):
        x = num(av[0])
        (la, pa) = e.rval(av[0])
        e.oblige("lemma", And(isfin(av[0]), x == e.cos), "the argument is the cosine of the angle")
        e.assume(And(isfin(av[0]), x == e.cos), e.reach[e.cur])
        r = e.fresh("acos", F)
        e.assume(Implies(And(x >= -1, x <= 1), And(isfin(r), Not(isnan(r)), num(r) == ACOS(e.cos))))
        e.dfacts(r)
        return r

    def setup(e):
        st = State()
        e.externals.update({"hypot": hypot, "acos": acos})
        e.v = [e.dfacts(z3.Const(w, F)) for w in ("x1", "y1", "x2", "y2")]
        x1, y1, x2, y2 = [num(v) for v in e.v]
        h1, h2 = length(x1, y1), length(x2, y2)
        e.ratios = True
        e.cos = e.QUO(canon(x1 * x2 + y1 * y2), canon(h1 * h2))
        e.assume(And(*[And(isfin(v), Not(isnan(v))) for v in e.v]))
        e.assume(And(h1 > 0, h2 > 0, h1 * h1 == canon(x1 * x1 + y1 * y1), h2 * h2 == canon(x2 * x2 + y2 * y2), e.cos * (h1 * h2) == x1 * x2 + y1 * y2))
        # Cauchy-Schwarz, for any numbers
        a, b, c, d, p, q, k = z3.Reals("a b c d p q k")
        e.oblige("lemma", Implies(And(p > 0, q > 0, p * p == a * a + b * b, q * q == c * c + d * d, k * (p * q) == a * c + b * d), And(k >= -1, k <= 1)), "a cosine is between -1 and 1")
        e.assume(And(e.cos >= -1, e.cos <= 1))
        return st, list(e.v)

    def finish(e, st, ret):
        d = 90 - ACOS(e.cos) * 180 / z3.RealVal("%d/%d" % (PI.numerator, PI.denominator))
        e.oblige("post", And(isfin(ret), Not(isnan(ret)), num(ret) == z3.If(d >= 0, d, -d)), "the deviation of the angle from 90 degrees")
    e.run(setup, finish)
    return e


def dthetacall(e, i, av):
    """dtheta: proved by task dtheta; finite vectors other than zero."""
    ps = [e.rval(v)[1] for v in av]
    ls = sum([list(e.rval(v)[0]) for v in av], [])
    e.oblige("pre", And(*[isfin(l) for l in ls]), "dtheta: coordinates are finite")
    e.oblige("pre", And(length(ps[0], ps[1]) > 0, length(ps[2], ps[3]) > 0), "dtheta: no side is of length zero")
    r = e.fresh("dtheta", F)
    t = deviation(*ps)
    e.assume(And(isfin(r), Not(isnan(r)), num(r) == t, t >= 0), e.reach[e.cur])
    e.rv[r.get_id()] = ((r,), t)
    e.dfacts(r)
    return r


# ---------------------------------------------------------------- the sums
DK = [z3.Function("deviation%d" % k, I, I, R) for k in range(4)]
AR, DX, DY = [z3.Function(n, I, I, R) for n in ("aspect", "sizex", "sizey")]
SD, SA, SX, SY = [z3.Function("sum_" + n, I, I, R) for n in ("deviations", "aspects", "sizesx", "sizesy")]
CNT = z3.Function("cells_before", I, I, I)
HD = z3.Function("greatest_deviation", I, I, R)
QUAD = z3.Function("complete", I, I, z3.BoolSort())     # a cell with four valid corners


def transform(e, i, av):
    """gridnodes_transform of a validated double density grid to corners: every second node (C03)."""
    st = e.st
    g = GridView(e, st, C.only_obj(av[0]))
    if not (isconst(simp(g.f(st, "type"))) and simp(g.f(st, "type")).as_long() == NT["DD"] and isconst(simp(av[1])) and simp(av[1]).as_long() == NT["COR"]):
        raise Unsupported("another conversion")
    e.oblige("pre", g.f(st, "validated") != 0, "the grid is validated")
    hx, hy = z3.Int("gn.hx"), z3.Int("gn.hy")
    e.oblige("pre", And(g.nx(st) == 2 * hx + 1, g.ny(st) == 2 * hy + 1), "double density dimensions are odd")
    X, Y = e.fresh("corx", A2["double"]), e.fresh("cory", A2["double"])
    for A, A0 in ((X, g.arr(st, "x")), (Y, g.arr(st, "y"))):
        e.assume(z3.ForAll([r_, c_], A[r_, c_] == A0[2 * r_, 2 * c_], patterns=[A[r_, c_]]))
    n = C.newgrid(e, i, hx + 1, hy + 1, ival(NT["COR"]), X, Y, [("maptype", g.f(st, "maptype")), ("validated", ival(1)), ("nextpoint", ival(0))])
    e.cells = (X, Y, hx, hy)
    e.terms += [hx, hy]
    return to(n)


def calcstats(type, validated, prev):
    def build(module, tag=""):
        need(module, "dtheta", 4)
        con = dict(C.BASE)
        con.update(dtheta=dthetacall, gridnodes_transform=transform)
        e = Engine(module, "gridnodes_calcstats", con, tag=tag, arith="real", unroll=4)
        e.ratios = True
        e.cells = None

        def setup(e):
            st = State()
            e.externals.update({"hypot": hypot, "malloc": malloc})
            e.g = grid(e, st, "gn", type=type)
            setf(e, st, e.g.obj, "gridnodes.validated", z3.Int("validated") if validated is None else ival(1 if validated else 0), "i32")
            if prev:
                e.s0 = mkstruct(e, st, "stats", "gridstats", fresh=True)
                st.alive[e.s0] = T
            setf(e, st, e.g.obj, "gridnodes.stats", to(e.s0) if prev else NULL, "ptr")
            if type == NT["COR"]:
                nx, ny = e.g.nx(st), e.g.ny(st)
                e.terms += [nx - 1, ny - 1]
            for f in (SD, SA, SX, SY, CNT):
                e.glob.append(f(0, 0) == 0)
            return st, [to(e.g.obj)]

        def cells(st):
            if e.cells is None:
                e.cells = (e.g.arr(st, "x"), e.g.arr(st, "y"), e.g.nx(st) - 1, e.g.ny(st) - 1)
            return e.cells

        def quad(X, r, c):
            return And(*[Not(isnan(X[r + a, c + b])) for a in (0, 1) for b in (0, 1)])

        def defs(st, r, c):
            """What the statistics of one cell are, and that it is not degenerate."""
            X, Y, nx, ny = cells(st)
            k = ("cell", r.get_id(), c.get_id())
            if k in e.onces:
                return
            e.onces.add(k)
            e.keep += [r, c]
            q = QUAD(r, c)
            e.glob.append(Implies(inside(nx, ny, r, c), q == quad(X, r, c)))
            N = {(a, b): (X[simp(r + a), simp(c + b)], Y[simp(r + a), simp(c + b)]) for a in (0, 1) for b in (0, 1)}
            d = lambda p, q: (num(q[0]) - num(p[0]), num(q[1]) - num(p[1]))
            h = lambda v: length(*v)
            A, Bn, Cn, D = N[0, 0], N[0, 1], N[1, 0], N[1, 1]
            sides = [(d(A, Bn), d(A, Cn)), (d(Bn, D), d(Bn, A)), (d(D, Cn), d(D, Bn)), (d(Cn, D), d(Cn, A))]
            top, bot, left, right = d(A, Bn), d(Cn, D), d(A, Cn), d(Bn, D)
            # distances of the mid-points of opposite sides, twice
            mv = h((num(A[0]) + num(Bn[0]) - num(Cn[0]) - num(D[0]), num(A[1]) + num(Bn[1]) - num(Cn[1]) - num(D[1])))
            mh = h((num(A[0]) + num(Cn[0]) - num(Bn[0]) - num(D[0]), num(A[1]) + num(Cn[1]) - num(Bn[1]) - num(D[1])))
            fin = And(*[And(isfin(v), Not(isnan(v))) for n in N.values() for v in n])
            facts = [fin, mv > 0, mh > 0] + [h(v) > 0 for v in (top, bot, left, right)]
            for k, (u, v) in enumerate(sides):
                facts += [DK[k](r, c) == deviation(*u, *v), DK[k](r, c) >= 0]
            facts += [HD(r, c) >= D_(r, c) for D_ in DK] + [z3.Or(*[HD(r, c) == D_(r, c) for D_ in DK])]
            facts += [AR(r, c) == z3.If(mv < mh, e.QUO(canon(mh), canon(mv)), e.QUO(canon(mv), canon(mh))), AR(r, c) >= 1,
                      DX(r, c) == h(top) + h(bot), DY(r, c) == h(left) + h(right)]
            e.glob.append(Implies(And(inside(nx, ny, r, c), q), And(*facts)))
            for v in [v for n in N.values() for v in n]:
                e.dfacts(v)
            for f, w in ((SD, sum([D_(r, c) for D_ in DK[1:]], DK[0](r, c))), (SA, AR(r, c)), (SX, DX(r, c)), (SY, DY(r, c)), (CNT, ival(1))):
                e.glob.append(Implies(inside(nx, ny, r, c), f(r, c + 1) == f(r, c) + z3.If(q, w, 0)))
                e.glob.append(Implies(r >= 0, f(r + 1, 0) == f(r, nx)))
                e.glob.append(Implies(r >= 0, f(r, nx) == f(r + 1, 0)))
            e.glob.append(And(CNT(r, c) >= 0))

        def attained(st, what, m, r, c):
            X, Y, nx, ny = cells(st)
            v = (HD if what == "d" else AR)(r, c)
            lo = 0 if what == "d" else 1
            return And(isfin(m), Not(isnan(m)), z3.Or(z3.And(r == -1, c == -1, num(m) == lo), z3.And(inside(nx, ny, r, c), QUAD(r, c), num(m) == v, num(m) > lo)))

        def inv(e_, L, st, add):
            X, Y, nx, ny = cells(st)
            own = [p for p in L.phis if p.step == 1 and p.ty != "ptr"]
            outer = [p for M in L.chain[1:] for p in M.phis if p.step == 1 and p.ty != "ptr"]
            for p in own:
                for q in outer:
                    defs(st, q.cur, p.cur)
                    defs(st, p.cur, q.cur)
                for a in own + outer:
                    for f in (SD, SA, SX, SY, CNT):
                        k = ("row", str(f), a.cur.get_id())
                        if k not in e.onces:
                            e.onces.add(k)
                            e.keep.append(a.cur)
                            e.glob.append(Implies(a.cur >= 0, f(a.cur + 1, 0) == f(a.cur, nx)))
            posns = [("row %s" % p.name, lambda p=p: (p.cur, ival(0))) for p in own] + [("%s,%s" % (q.name, p.name), lambda q=q, p=p: (q.cur, p.cur)) for p in own for q in outer]
            dbl = [i for i in L.dphis]
            ints = [p for p in L.phis if p.ty != "ptr" and p.step is None]
            for nm, pos in posns:
                for d in dbl:
                    for f in (SD, SA, SX, SY):
                        add("%s = %s at %s" % (d.name, f, nm), lambda s, d=d, f=f, pos=pos: And(isfin(d.cur), Not(isnan(d.cur)), num(d.cur) == f(*pos())))
                for p in ints:
                    add("%s counts at %s" % (p.name, nm), lambda s, p=p, pos=pos: p.cur == CNT(*pos()))
            for d in dbl:
                for w in "da":
                    for p in ints:
                        for q in ints:
                            if p is not q:
                                add("%s attained at %s,%s (%s)" % (d.name, p.name, q.name, w), lambda s, d=d, w=w, p=p, q=q: attained(s, w, d.cur, p.cur, q.cur))
                comps = [Comp("%s bounds %s" % (d.name, w), lambda s, r, c, d=d, w=w: z3.Implies(QUAD(r, c), (HD if w == "d" else AR)(r, c) <= num(d.cur)),
                              lambda r, c: inside(nx, ny, r, c), lambda s, r, c, w=w: [(HD if w == "d" else AR)(r, c)]) for w in "da"]
                components(e, L, st, add, comps)
        e.loopinv = inv

        def finish(e, st, ret):
            g = e.g
            p = g.f(st, "stats", "ptr")
            t = p.only() if len(p.alts) == 1 else None
            if t is None or (prev and t.obj != e.s0):
                e.oblige("post", FALSE, "the grid has statistics")
                return
            e.oblige("post", And(st.alive.get(t.obj, T), z3.BoolVal(bool(st.desc[t.obj].fresh))), "the statistics belong to the grid")
            f = {n: e.getmem(st, t.obj, "gridstats." + n, ty) for ns, ty in (("mdo ado mar aar adx ady", "double"), ("imdo jmdo imar jmar", "i32")) for n in ns.split()}
            changed = {g.obj, t.obj}
            if type in (NT["CEN"], NT["NONE"]):
                e.oblige("post", And(*[isnan(v) if v.sort() == F else v == -1 for v in f.values()]), "no statistics for other types of grids")
            else:
                X, Y, nx, ny = cells(st)
                e.oblige("post", attained(st, "d", f["mdo"], f["jmdo"], f["imdo"]), "the greatest deviation is that of the cell reported")
                e.oblige("post", attained(st, "a", f["mar"], f["jmar"], f["imar"]), "the greatest aspect ratio is that of the cell reported")
                for w, n in (("d", "mdo"), ("a", "mar")):
                    v = (HD if w == "d" else AR)(r_, c_)
                    e.oblige("post", z3.ForAll([r_, c_], z3.Implies(z3.And(inside(nx, ny, r_, c_), QUAD(r_, c_)), v <= num(f[n])), patterns=[v]), "no cell has a greater %s" % n)
                N = CNT(ny, 0)
                end = z3.If(nx >= 1, ny, ival(0))
                for n, s, k in (("ado", SD, 4), ("aar", SA, 1), ("adx", SX, 2), ("ady", SY, 2)):
                    e.oblige("post", Implies(N > 0, And(isfin(f[n]), num(f[n]) * z3.ToReal(N) * k == s(ny, 0))), "%s is the mean over the complete cells" % n)
                    e.oblige("post", Implies(N == 0, Not(isfin(f[n]))), "%s of no cells" % n)
            if type in (NT["CEN"], NT["NONE"]) or validated:
                for w in "xy":
                    e.oblige("post", g.arr(st, w) == g.arr(e.st0, w), "no node changes")
            else:
                changed |= {g.mat(e.st0, w) for w in "xy"}
                v0 = g.f(e.st0, "validated") != 0
                ok = bool(getattr(e, "validated", None))
                for k, w in enumerate("xy"):
                    e.oblige("post", And(Implies(v0, g.arr(st, w) == g.arr(e.st0, w)), Implies(Not(v0), And(z3.BoolVal(ok), g.arr(st, w) == e.validated[-1][k] if ok else T))), "no node changes but by validation")
            for w in ("nx", "ny", "type", "maptype", "nextpoint"):
                e.oblige("post", g.f(st, w) == g.f(e.st0, w), "%s unchanged" % w)
            for w in "xy":
                e.oblige("post", z3.BoolVal(g.mat(st, w) is not None and g.mat(st, w) == g.mat(e.st0, w)), "node arrays unchanged")
            untouched(e, st, changed)
            for o, d in st.desc.items():
                if d.fresh and o not in e.st0.desc and o != t.obj and o in st.alive and d.kind in ("struct", "mat", "rows"):
                    e.oblige("post", Not(st.alive[o]), "%s is released" % o)
        e.run(setup, finish)
        return e
    return build
