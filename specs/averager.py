"""C20: cell averaging."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg import contracts as C
from specs.mapping import gmap, outcell, located, A2R

KEEP = C.KEEP | {"ga_create", "ga_addpoints", "ga_getvalue", "ga_destroy"}
CNT = z3.Function("count_of_first", I, A2["i"])           # points among the first k per cell
SUM = z3.Function("sum_of_first", I, A2R)                 # and the sum of their values


def averager(e, st, fresh=False):
    """An averager over the map e.gm with count and sum arrays of its cells."""
    m, e.n1, e.n2, _, _ = gmap(e, st, e.kind)
    e.gm = m
    e.assume(z3.And(e.n1 >= 1, e.n2 >= 1))
    g = mkstruct(e, st, "ga", "gridaverager")
    setf(e, st, g, "gridaverager.gm", to(m), "ptr")
    rv, e.mv = matrix(e, st, "ga.v", e.n2, e.n1)
    rn, e.mn = matrix(e, st, "ga.n", e.n2, e.n1, elem="i32")
    setf(e, st, g, "gridaverager.v", to(rv), "ptr")
    setf(e, st, g, "gridaverager.n", to(rn), "ptr")
    e.V0, e.N0 = st.mem[(e.mv, "@double")], st.mem[(e.mn, "@i")]
    return g


r_, c_ = z3.Ints("r c")


def create(kind):
    def build(module, tag=""):
        e = Engine(module, "ga_create", dict(C.BASE), tag=tag)

        def setup(e):
            st = State()
            e.gm, e.n1, e.n2, _, _ = gmap(e, st, kind)
            e.terms += [e.n1, e.n2]
            e.quit_ok = lambda e, st: Or(e.n1 == 0, e.n2 == 0)
            for x, y in ((e.n1, e.n2), (e.n2, e.n1)):
                e.assume(z3.And(x * y <= (e.n1 + 1) * (e.n2 + 1), x * y >= 0))
            return st, [to(e.gm)]

        def finish(e, st, ret):
            o = e.deref(ret, "result").obj
            e.oblige("post", And(z3.BoolVal(bool(st.desc[o].fresh)), st.alive.get(o, T)), "the averager is new")
            gm = e.getmem(st, o, "gridaverager.gm", "ptr")
            e.oblige("post", z3.BoolVal(len(gm.alts) == 1 and gm.alts[0][1] is not None and gm.alts[0][1].same(PV(e.gm))), "the averager refers to the map")
            seen = set()
            for f, key, elem in (("v", "@double", "double"), ("n", "@i", "i32")):
                p = e.getmem(st, o, "gridaverager." + f, "ptr")
                t = p.only() if len(p.alts) == 1 else None
                d = st.desc[t.obj] if t is not None else None
                if d is None or d.kind != "rows" or d.mat in seen or not is_true(simp(t.col == 0)):
                    e.oblige("post", FALSE, "%s is an array of its own" % f)
                    continue
                seen.add(d.mat)
                m = st.desc[d.mat]
                e.oblige("post", And(m.nr == e.n2, m.nc == e.n1, d.nr == e.n2, z3.BoolVal(bool(m.fresh and m.elem == elem)), st.alive.get(d.mat, T)), "%s has one entry per cell" % f)
                A = e.getmem(st, d.mat, key, elem)
                z = And(isfin(A[r_, c_]), num(A[r_, c_]) == 0) if elem == "double" else A[r_, c_] == 0
                e.oblige("post", z3.ForAll([r_, c_], z3.Implies(z3.And(r_ >= 0, r_ < e.n2, c_ >= 0, c_ < e.n1), z), patterns=[A[r_, c_]]), "%s starts at zero" % f)
        e.run(setup, finish)
        return e
    return build


def engine(module, fn, tag, kind):
    con = dict(C.BASE)
    con["gridmap_xy2ij"] = located
    e = Engine(module, fn, con, tag=tag, arith="real")
    e.kind = kind
    e.LOCATED = z3.Function("located", F, F, B)
    e.CELL_I, e.CELL_J = z3.Function("cell_i", F, F, I), z3.Function("cell_j", F, F, I)
    return e


def addpoints(kind):
    def build(module, tag=""):
        e = engine(module, "ga_addpoints", tag, kind)

        def at(k):
            return e.PX[k], e.PY[k]

        def counted(k):
            """point k+1 of the sequence is counted in its cell and nowhere else"""
            x, y = at(k)
            ok = e.LOCATED(x, y)
            i, j = e.CELL_I(x, y), e.CELL_J(x, y)
            z = num(e.PZ[k])
            return z3.And(CNT(k + 1) == z3.If(ok, z3.Store(CNT(k), j, i, CNT(k)[j, i] + 1), CNT(k)),
                          SUM(k + 1) == z3.If(ok, z3.Store(SUM(k), j, i, SUM(k)[j, i] + z), SUM(k)))

        def bound(k):
            return z3.ForAll([r_, c_], z3.And(CNT(k)[r_, c_] >= 0, CNT(k)[r_, c_] <= k), patterns=[CNT(k)[r_, c_]])

        def setup(e):
            st = State()
            g = averager(e, st)
            n = e.fresh_int("n")
            e.n = n
            P = e.mkobj(st, "points", Desc("arr", ("named", "struct.point"), n=n, ro=True))
            e.PX, e.PY, e.PZ = [e.getmem(st, P, "point." + w, "double") for w in "xyz"]
            k = z3.Int("k")
            ins = z3.And(r_ >= 0, r_ < e.n2, c_ >= 0, c_ < e.n1)
            e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), isfin(e.PZ[k])), patterns=[e.PZ[k]]))
            e.assume(z3.ForAll([r_, c_], z3.Implies(ins, isfin(e.V0[r_, c_])), patterns=[e.V0[r_, c_]]))
            e.assume(z3.ForAll([r_, c_], z3.Implies(ins, z3.And(e.N0[r_, c_] >= 0, e.N0[r_, c_] + n <= INTMAX)), patterns=[e.N0[r_, c_]]))
            e.assume(z3.ForAll([r_, c_], z3.And(CNT(0)[r_, c_] == 0, SUM(0)[r_, c_] == 0), patterns=[CNT(0)[r_, c_], SUM(0)[r_, c_]]))
            return st, [to(g), n, to(P)]

        def inv(e_, L, st, add):
            for ph in L.phis:
                if ph.step != 1 or ph.ty == "ptr":
                    continue
                e.glob.append(z3.Implies(ph.cur >= 0, counted(ph.cur)))
                k = lambda ph=ph: ph.cur
                ins = z3.And(r_ >= 0, r_ < e.n2, c_ >= 0, c_ < e.n1)

                def tally(s, ph=ph):
                    V, N = s.mem[(e.mv, "@double")], s.mem[(e.mn, "@i")]
                    return z3.ForAll([r_, c_], z3.Implies(ins, z3.And(N[r_, c_] == e.N0[r_, c_] + CNT(ph.cur)[r_, c_])), patterns=[N[r_, c_]])

                def total(s, ph=ph):
                    V = s.mem[(e.mv, "@double")]
                    return z3.ForAll([r_, c_], z3.Implies(ins, z3.And(isfin(V[r_, c_]), num(V[r_, c_]) == num(e.V0[r_, c_]) + SUM(ph.cur)[r_, c_])), patterns=[V[r_, c_]])
                add("counts of the first %s" % ph.name, tally)
                add("sums of the first %s" % ph.name, total)
                add("count bound %s" % ph.name, lambda s, ph=ph: bound(ph.cur))
        e.loopinv = inv

        def finish(e, st, ret):
            n = If(e.n > 0, e.n, 0)
            V, N = st.mem[(e.mv, "@double")], st.mem[(e.mn, "@i")]
            ins = z3.And(r_ >= 0, r_ < e.n2, c_ >= 0, c_ < e.n1)
            e.oblige("post", z3.ForAll([r_, c_], z3.Implies(ins, N[r_, c_] == e.N0[r_, c_] + CNT(n)[r_, c_]), patterns=[N[r_, c_]]), "the count of every cell grows by the number of points located in it")
            e.oblige("post", z3.ForAll([r_, c_], z3.Implies(ins, z3.And(isfin(V[r_, c_]), num(V[r_, c_]) == num(e.V0[r_, c_]) + SUM(n)[r_, c_])), patterns=[V[r_, c_]]), "the sum of every cell grows by the values of the points located in it")
        e.run(setup, finish)
        return e
    return build


def getvalue(kind):
    def build(module, tag=""):
        e = engine(module, "ga_getvalue", tag, kind)

        def setup(e):
            st = State()
            g = averager(e, st)
            ins = z3.And(r_ >= 0, r_ < e.n2, c_ >= 0, c_ < e.n1)
            e.assume(z3.ForAll([r_, c_], z3.Implies(ins, isfin(e.V0[r_, c_])), patterns=[e.V0[r_, c_]]))
            e.assume(z3.ForAll([r_, c_], z3.Implies(ins, e.N0[r_, c_] >= 0), patterns=[e.N0[r_, c_]]))
            e.p = mkstruct(e, st, "p", "point")
            e.P0 = [e.getmem(st, e.p, "point." + w, "double") for w in "xyz"]
            return st, [to(g), to(e.p)]

        def finish(e, st, ret):
            x, y, z0 = e.P0
            z = e.getmem(st, e.p, "point.z", "double")
            ok = e.LOCATED(x, y)
            i, j = e.CELL_I(x, y), e.CELL_J(x, y)
            for w, v in zip("xy", e.P0):
                e.oblige("post", e.getmem(st, e.p, "point." + w, "double") == v, "the point keeps its %s" % w)
            e.oblige("post", Implies(Or(Not(ok), e.N0[j, i] == 0), isnan(z)), "NaN outside the grid and in cells without points")
            n = z3.ToReal(e.N0[j, i])
            e.oblige("post", Implies(And(ok, e.N0[j, i] != 0), And(isfin(z), num(z) == num(e.V0[j, i]) / n)), "the value is the sum divided by the count")
            for m, k, a in ((e.mv, "@double", e.V0), (e.mn, "@i", e.N0)):
                e.oblige("post", st.mem[(m, k)] == a, "asking changes no tally")
        e.run(setup, finish)
        return e
    return build
