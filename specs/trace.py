"""C18: tracing the boundary of a grid."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg.templates import Comp
from vcg import contracts as C
from specs.poly import *
from specs import poly

KEEP = KP
WI, WJ, WD = [z3.Function(n, I, I) for n in ("walk_i", "walk_j", "walk_dir")]
STOP = z3.Function("walk_stops", I, B)
CELLAT = z3.Function("cell_at", I, I, B)


def close_c(e, i, av):
    """poly_close: proved by task poly_close."""
    st = e.st
    p = Poly(e, C.only_obj(av[0]))
    n, na = p.n(st), p.na(st)
    objs = [p.aobj(st, w) for w in "XY"]
    if None in objs:
        raise Unsupported("poly_close: unusual storage")
    e.oblige("pre", And(n >= 0, n <= na, na >= 1, na <= 2 ** 29, *[And(st.desc[o].n >= na, st.alive.get(o, T)) for o in objs]), "poly_close: well-formed polyline")
    A = [e.getmem(st, o, "@double", "double") for o in objs]
    same = And(n > 1, *[num(a[0]) == num(a[n - 1]) for a in A])
    more = And(n > 0, Not(same))
    nn, na1 = e.fresh("n", I), e.fresh("na", I)
    e.assume(And(nn == If(more, n + 1, n), na1 >= nn, na1 >= na))
    for w, o, a in zip("xy", objs, A):
        q = e.mkobj(st, "closed." + w, Desc("arr", "double", n=na1, fresh=True))
        e.reallocof[q] = e.root(o)
        st.alive[q] = T
        st.alive[o] = FALSE
        st.mem[(q, "@double")] = z3.Store(a, n, a[0])
        setf(e, st, p.obj, "poly." + w, to(q), "ptr")
    setf(e, st, p.obj, "poly.n", nn, "i32")
    setf(e, st, p.obj, "poly.nallocated", na1, "i32")
    return None


def addpoint_cap(e, i, av):
    """poly_addpoint with the capacity assumption: the boundary has at most 2^28 points."""
    p = Poly(e, C.only_obj(av[0]))
    e.assume(p.na(e.st) <= MAXP)
    return poly.addpoint_c(e, i, av)


def trace(fn, index):
    def build(module, tag=""):
        e = Engine(module, fn, {"poly_create": poly.create_c, "poly_addpoint": addpoint_cap, "poly_close": close_c}, tag=tag, arith="real")
        r_, c_ = z3.Ints("r c")

        def di(d):
            return z3.If(d == 1, 1, z3.If(d == 3, -1, 0))

        def dj(d):
            return z3.If(d == 0, 1, z3.If(d == 2, -1, 0))

        def valid(r, c):
            return z3.And(r >= 0, r <= e.n2, c >= 0, c <= e.n1, z3.Not(isnan(e.X0[r, c])))

        def opn(i, j, d):
            return z3.Or(*[z3.And(d == v, valid(j + b, i + a)) for v, (a, b) in enumerate(((0, 1), (1, 0), (0, -1), (-1, 0)))])

        def turn(d, m):
            """direction m quarter turns on"""
            return z3.If(d + m >= 4, d + m - 4, d + m)

        def step(k):
            """the right-hand walk: the first open direction, beginning with the one to the right"""
            i, j, d = WI(k), WJ(k), WD(k)
            opts = [turn(d, m) for m in (3, 0, 1)]
            dead = z3.Not(z3.Or(*[opn(i, j, o) for o in opts]))
            nd = z3.If(opn(i, j, opts[0]), opts[0], z3.If(opn(i, j, opts[1]), opts[1], opts[2]))
            return z3.And(CELLAT(j, i), z3.Implies(z3.Not(dead), z3.And(WD(k + 1) == nd, WI(k + 1) == i + di(nd), WJ(k + 1) == j + dj(nd))),
                          STOP(k) == z3.Or(dead, z3.And(k > 0, WI(k) == WI(0), WJ(k) == WJ(0))))

        def xy(w, k):
            """what point k of the walk is reported as"""
            if index:
                return e.ofint(WI(k) if w == "X" else WJ(k))
            return (e.X0 if w == "X" else e.Y0)[WJ(k), WI(k)]

        def report(w, A, k):
            """as a formula usable below quantifiers"""
            if index:
                return z3.And(isfin(A[k]), num(A[k]) == z3.ToReal(WI(k) if w == "X" else WJ(k)))
            return A[k] == (e.X0 if w == "X" else e.Y0)[WJ(k), WI(k)]

        def setup(e):
            st = State()
            e.dims, e.terms, e.comps, e.factors = [], [], [], []
            e.n1, e.n2 = z3.Int("nce1"), z3.Int("nce2")
            e.assume(z3.And(e.n1 >= 0, e.n2 >= 0, e.n1 < MAXDIM, e.n2 < MAXDIM))
            for v in (e.n1, e.n2):
                e.constblock[str(v)] = e.cur
            e.terms += [e.n1, e.n2]
            rx, mx = matrix(e, st, "x", e.n2 + 1, e.n1 + 1, ro=True)
            e.X0 = st.mem[(mx, "@double")]
            args = [e.n1, e.n2, to(rx)]
            fin = z3.Or(isnan(e.X0[r_, c_]), isfin(e.X0[r_, c_]))
            ins = z3.And(r_ >= 0, r_ <= e.n2, c_ >= 0, c_ <= e.n1)
            if not index:
                ry, my = matrix(e, st, "y", e.n2 + 1, e.n1 + 1, ro=True)
                e.Y0 = st.mem[(my, "@double")]
                args.append(to(ry))
                e.assume(z3.ForAll([r_, c_], z3.Implies(z3.And(ins, z3.Not(isnan(e.X0[r_, c_]))), isfin(e.Y0[r_, c_])), patterns=[e.Y0[r_, c_]]))
            e.assume(z3.ForAll([r_, c_], z3.Implies(ins, fin), patterns=[e.X0[r_, c_]]))
            # the first valid node in row order, if there is one
            e.SOME = z3.Bool("some_valid")
            e.assume(z3.ForAll([r_, c_], z3.Implies(z3.And(ins, z3.Not(isnan(e.X0[r_, c_]))), z3.And(e.SOME, z3.Or(r_ > WJ(0), z3.And(r_ == WJ(0), c_ >= WI(0))))), patterns=[e.X0[r_, c_]]))
            e.assume(z3.Implies(e.SOME, z3.And(valid(WJ(0), WI(0)), WD(0) == 0)))
            # "validated": every valid node is a corner of a complete cell
            e.VALIDATED = z3.Bool("validated")
            cell = lambda a, b: z3.And(valid(r_ + a, c_ + b), valid(r_ + a, c_), valid(r_, c_ + b))
            e.assume(z3.Implies(e.VALIDATED, z3.ForAll([r_, c_], z3.Implies(valid(r_, c_), z3.Or(*[cell(a, b) for a in (-1, 1) for b in (-1, 1)])), patterns=[z3.MultiPattern(CELLAT(r_, c_))])))
            e.comps.append(Comp("no valid node yet", lambda s, r, c: isnan(e.X0[r, c]), lambda r, c: z3.And(r >= 0, r <= e.n2, c >= 0, c <= e.n1), lambda s, r, c: [e.X0[r, c]]))
            return st, args

        def inv(e_, L, st, add):
            free = [p for p in L.phis if p.ty != "ptr" and p.step is None]
            up = [p for M in L.chain[1:] for p in M.phis if p.ty != "ptr" and p.step is None]
            polys = [o for o, d in st.desc.items() if d.kind == "struct" and d.elem == ("named", "struct.poly")]
            for c in free:
                add("%s is a direction" % c.name, lambda s, c=c: z3.And(c.cur >= 0, c.cur <= 3), numeric=True)
                add("%s is a column" % c.name, lambda s, c=c: z3.And(c.cur >= 0, c.cur <= e.n1), numeric=True)
                add("%s is a row" % c.name, lambda s, c=c: z3.And(c.cur >= 0, c.cur <= e.n2), numeric=True)
            for o in polys:
                p = Poly(e, o)
                if p.aobj(st, "X") is None:
                    continue
                n = p.n(st)
                e.glob.append(z3.Implies(n >= 1, z3.And(step(n - 1), step(n))))
                for c in free:
                    for nm, W in (("column", WI), ("row", WJ), ("direction", WD)):
                        add("%s is the walk's %s" % (c.name, nm), lambda s, c=c, W=W, p=p: c.cur == W(p.n(s) - 1))
                add("points", lambda s, p=p: z3.And(p.n(s) >= 1, p.n(s) <= p.na(s)))
                add("storage", lambda s, p=p: None if p.aobj(s, "X") is None or p.aobj(s, "Y") is None else And(*[And(s.desc[p.aobj(s, w)].n >= p.na(s), s.alive.get(p.aobj(s, w), T)) for w in "XY"]))
                add("walk", lambda s, p=p: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < p.n(s)), z3.And(valid(WJ(k_), WI(k_)), z3.Implies(k_ < p.n(s) - 1, z3.Not(STOP(k_))), WD(k_) >= 0, WD(k_) <= 3, z3.Implies(k_ > 0, z3.And(z3.Not(z3.And(WI(k_) == WI(0), WJ(k_) == WJ(0))), z3.Or(
                    z3.And(WI(k_) == WI(k_ - 1), z3.Or(WJ(k_) == WJ(k_ - 1) + 1, WJ(k_) == WJ(k_ - 1) - 1)),
                    z3.And(WJ(k_) == WJ(k_ - 1), z3.Or(WI(k_) == WI(k_ - 1) + 1, WI(k_) == WI(k_ - 1) - 1))))))), patterns=[WI(k_), WJ(k_), STOP(k_), WD(k_)]))
                for w in "XY":
                    def rep(s, w=w, p=p):
                        A = p.arr(s, w)
                        return None if A is None else z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < p.n(s)), report(w, A, k_)), patterns=[A[k_]])
                    add("%s of the walk" % w, rep)
            for c in free:
                for d in up:
                    add("%s right of %s tried" % (c.name, d.name), lambda s, c=c, d=d: z3.And(*[z3.Implies(c.cur == turn(d.cur, m), z3.And(*[z3.Not(opn(WI_(s), WJ_(s), turn(d.cur, q))) for q in (3, 0, 1, 2)[:(3, 0, 1, 2).index(m)]])) for m in (3, 0, 1, 2)]))
                    for a in free:
                        if a is c:
                            continue
                        add("%s is %s ahead of column %s" % (c.name, a.name, d.name), lambda s, a=a, c=c, d=d: a.cur == d.cur + di(c.cur), numeric=True)
                        add("%s is %s ahead of row %s" % (c.name, a.name, d.name), lambda s, a=a, c=c, d=d: a.cur == d.cur + dj(c.cur), numeric=True)

            def WI_(s):
                p = Poly(e, polys[0])
                return WI(p.n(s) - 1)

            def WJ_(s):
                p = Poly(e, polys[0])
                return WJ(p.n(s) - 1)
        e.loopinv = inv

        def finish(e, st, ret):
            p = poly.result_poly(e, st, ret, "boundary")
            if p is None:
                return
            n = p.n(st)
            wf(e, st, p, "boundary")
            e.oblige("post", Implies(Not(e.SOME), n == 0), "boundary: none without a valid node")
            e.oblige("post", Implies(e.SOME, n >= 2), "boundary: some with a valid node")
            A = {w: p.arr(st, w) for w in "XY"}
            if None in A.values():
                e.oblige("post", FALSE, "boundary: the points are held in one array")
                return
            walk = z3.And(k_ >= 0, k_ < n - 1)
            al = lambda body: Implies(e.SOME, z3.ForAll([k_], z3.Implies(walk, body), patterns=[WI(k_)]))
            for w in "XY":
                e.oblige("post", al(report(w, A[w], k_)), "boundary: %s of every point" % w.lower())
                e.oblige("post", Implies(e.SOME, num(A[w][n - 1]) == num(A[w][0])), "boundary: %s ends where it started" % w.lower())
            e.oblige("post", al(valid(WJ(k_), WI(k_))), "boundary: every point is a valid node")
            adj = z3.Or(z3.And(WI(k_) == WI(k_ - 1), z3.Or(WJ(k_) == WJ(k_ - 1) + 1, WJ(k_) == WJ(k_ - 1) - 1)), z3.And(WJ(k_) == WJ(k_ - 1), z3.Or(WI(k_) == WI(k_ - 1) + 1, WI(k_) == WI(k_ - 1) - 1)))
            e.oblige("post", al(z3.Implies(k_ > 0, adj)), "boundary: each point is a neighbour of the one before")
            e.oblige("post", al(z3.Implies(k_ < n - 2, z3.Not(STOP(k_)))), "boundary: goes on while the walk does")
            e.oblige("post", Implies(e.SOME, z3.Or(STOP(n - 2), STOP(n - 1))), "boundary: stops where the walk does")
            k = n - 1
            e.oblige("post", Implies(z3.And(e.SOME, e.VALIDATED), And(WI(k) == WI(0), WJ(k) == WJ(0), STOP(k), z3.substitute(adj, (k_, k)))), "boundary: on a validated grid the closing step joins neighbours")
        e.run(setup, finish)
        return e
    return build


formbound = trace("poly_formbound", False)
formboundij = trace("poly_formboundij", True)
