"""C09 (index to physical), C04 (refinement of corner grids)."""
import z3
from fractions import Fraction
from vcg.engine import *
from vcg.views import *
from vcg.templates import Comp, components
from vcg import contracts as C
from vcg.contracts import only_obj


KEEP9 = C.KEEP


def gmap(e, st, kind, name="gm", n1=None, n2=None):
    """A grid map over (n2+1) x (n1+1) nodes; kind: gridbmap or gridkmap."""
    n1 = z3.Int(name + ".n1") if n1 is None else n1
    n2 = z3.Int(name + ".n2") if n2 is None else n2
    e.assume(z3.And(n1 >= 0, n2 >= 0, n1 < MAXDIM, n2 < MAXDIM, (n1 + 1) * (n2 + 1) <= INTMAX))
    rx, mx = matrix(e, st, name + ".x", n2 + 1, n1 + 1, ro=True)
    ry, my = matrix(e, st, name + ".y", n2 + 1, n1 + 1, ro=True)
    m = mkstruct(e, st, name + ".map", kind)
    setf(e, st, m, kind + ".nce1", n1, "i32")
    setf(e, st, m, kind + ".nce2", n2, "i32")
    setf(e, st, m, kind + ".gx", to(rx), "ptr")
    setf(e, st, m, kind + ".gy", to(ry), "ptr")
    g = mkstruct(e, st, name, "gridmap")
    setf(e, st, g, "gridmap.map", to(m), "ptr")
    setf(e, st, g, "gridmap.type", ival(0 if kind == "gridbmap" else 1), "i32")
    sg = z3.Int(name + ".sign")
    e.assume(z3.And(sg >= -1, sg <= 1))
    setf(e, st, g, "gridmap.sign", sg, "i32")
    return g, n1, n2, st.mem[(mx, "@double")], st.mem[(my, "@double")]


def outcell(e, st, name):
    o = e.mkobj(st, name, Desc("arr", "double", n=ival(1)))
    e.getmem(st, o, "@double", "double")
    return o


def bilinear(A, i, j, u, v, res):
    """res is the bilinear interpolation of the cell (j,i) of A at (u,v): only the nodes with
    nonzero weight take part, exactly the node at integer indices."""
    p, q, r, s = A[j, i], A[j, i + 1], A[j + 1, i], A[j + 1, i + 1]
    n = num

    def part(cond, nodes, val):
        return Implies(cond, And(Implies(Or(*[isnan(x) for x in nodes]), isnan(res)),
                                 Implies(And(*[isfin(x) for x in nodes]), And(Not(isnan(res)), n(res) == val))))
    return (Implies(And(u == 0, v == 0), res == p),
               part(And(u == 0, v != 0), [p, r], n(r) * v + n(p) * (1 - v)),
               part(And(u != 0, v == 0), [p, q], n(q) * u + n(p) * (1 - u)),
               part(And(u != 0, v != 0), [p, q, r, s], n(p) * (1 - u) * (1 - v) + n(q) * u * (1 - v) + n(r) * (1 - u) * v + n(s) * u * v))


def fij2xy(kind):
    def build(module, tag=""):
        e = Engine(module, "gridmap_fij2xy", {}, tag=tag, arith="real")
        e.z3opts = {"smt.arith.solver": 2}

        def setup(e):
            st = State()
            e.gm, e.n1, e.n2, e.X, e.Y = gmap(e, st, kind)
            e.fi, e.fj = e.dfacts(z3.Const("fi", F)), e.dfacts(z3.Const("fj", F))
            e.outs = [outcell(e, st, "out" + w) for w in "xy"]
            return st, [to(e.gm), e.fi, e.fj, to(e.outs[0]), to(e.outs[1])]

        def finish(e, st, ret):
            fi, fj, n1, n2 = e.fi, e.fj, e.n1, e.n2
            N1, N2 = z3.ToReal(n1), z3.ToReal(n2)
            nonan = And(Not(isnan(fi)), Not(isnan(fj)))
            inside = And(nonan, num(fi) >= 0, num(fi) <= N1, num(fj) >= 0, num(fj) <= N2)
            e.oblige("post", Implies(inside, ret != 0), "indices inside the grid are reported as success")
            e.oblige("post", Implies(Not(inside), ret == 0), "indices outside the grid are reported as failure")
            rx, ry = [e.getmem(st, o, "@double", "double")[0] for o in e.outs]
            EPS = z3.RealVal('%d/%d' % Fraction(1e-8).as_integer_ratio())

            def eff(f, N, n):
                # (label, condition, cell, offset) of the index moved to the grid
                t = e.TRUNC(f)
                top = num(f) == N
                yield "inside", And(num(f) >= 0, num(f) <= N), t, num(e.fop("fsub", f, e.ofint(t)))
                yield "low", num(f) < 0, ival(0), z3.RealVal(0)
                yield "high", And(num(f) > N, n > 0), n - 1, 1 - EPS
                yield "high0", And(num(f) > N, n == 0), ival(0), z3.RealVal(0)
            for li, ci, i, u in eff(fi, N1, n1):
                for lj, cj, j, v in eff(fj, N2, n2):
                    for w, A, res in (("x", e.X, rx), ("y", e.Y, ry)):
                        for k, part in enumerate(bilinear(A, i, j, u, v, res)):
                            e.oblige("post", Implies(And(nonan, ci, cj), part), "%s interpolates the cell (i %s, j %s), %s" % (w, li, lj, ("node", "edge i", "edge j", "interior")[k]))
            e.oblige("post", Implies(Not(nonan), And(isnan(rx), isnan(ry))), "NaN indices give NaN coordinates")
        e.run(setup, finish)
        return e
    return build


# ---------------------------------------------------------------- C04
from specs.select import inside, source_unchanged, not_again


def refine(type1, validated):
    def build(module, tag=""):
        con = dict(C.BASE)
        if validated:
            con["gridnodes_validate"] = not_again
        e = Engine(module, "gridnodes_transform", con, tag=tag, arith="real")

        def setup(e):
            st = State()
            e.validated, e.maps = [], {}
            e.g = g = grid(e, st, "gn", type=NT["COR"])
            v = z3.Int("validated0")
            e.assume(v != 0 if validated else v == 0)
            mt = z3.Int("maptype0")
            e.assume(z3.And(mt >= 0, mt <= 1))
            setf(e, st, g.obj, "gridnodes.maptype", mt, "i32")
            setf(e, st, g.obj, "gridnodes.validated", v if validated else ival(0), "i32")
            nx, ny = g.nx(st), g.ny(st)
            e.w, e.h = (2 * nx - 1, 2 * ny - 1) if type1 == NT["DD"] else (nx - 1, ny - 1)
            if type1 == NT["DD"]:
                e.assume(z3.And((2 * nx - 1) * (2 * ny - 1) <= INTMAX, nx < MAXDIM, ny < MAXDIM))
            e.glob.append(z3.And((nx - 1) * (ny - 1) <= nx * ny, (nx - 1) * (ny - 1) >= 0))
            e.glob.append(z3.And((ny - 1) * (nx - 1) <= nx * ny, (ny - 1) * (nx - 1) >= 0))
            e.glob.append((2 * ny - 1) * (2 * nx - 1) == (2 * nx - 1) * (2 * ny - 1))
            e.terms += [e.w, e.h]
            e.quit_ok = lambda e, st: Or(nx == 1, ny == 1) if type1 == NT["CEN"] else FALSE
            return st, [to(g.obj), ival(type1)]

        def clauses(A1, A, r, c):
            """(label, condition, fact) at node (r, c) of the result."""
            def mean(ns):
                return And(Implies(Or(*[isnan(x) for x in ns]), isnan(A1[r, c])),
                           Implies(And(*[isfin(x) for x in ns]), And(Not(isnan(A1[r, c])), num(A1[r, c]) * len(ns) == z3.Sum([num(x) for x in ns]))))
            if type1 == NT["CEN"]:
                yield "centre", T, mean([A[r, c], A[r, c + 1], A[r + 1, c], A[r + 1, c + 1]])
                return
            a, b = r / 2, c / 2
            yield "corner", And(r % 2 == 0, c % 2 == 0), A1[r, c] == A[a, b]
            yield "edge i", And(r % 2 == 0, c % 2 == 1), mean([A[a, b], A[a, b + 1]])
            yield "edge j", And(r % 2 == 1, c % 2 == 0), mean([A[a, b], A[a + 1, b]])
            yield "centre", And(r % 2 == 1, c % 2 == 1), mean([A[a, b], A[a, b + 1], A[a + 1, b], A[a + 1, b + 1]])

        nk = 1 if type1 == NT["CEN"] else 4

        def loopinv(e, L, st, add):
            mats = [o for o, d in st.desc.items() if d.kind == "mat" and d.fresh and d.elem == "double"]
            comps = []
            for k, m in enumerate(mats):
                for w in "xy":
                    for q in range(nk):
                        def fn(s, r, c, m=m, w=w, q=q):
                            a = s.mem.get((m, "@double"))
                            if a is None:
                                return T
                            lab, cond, f = list(clauses(a, e.g.arr(s, w), r, c))[q]
                            return Implies(cond, f)
                        comps.append(Comp("new%d %s%d" % (k, w, q), fn, lambda r, c: inside(e.w, e.h, r, c), lambda s, r, c, m=m: [s.mem[(m, "@double")][r, c]] if (m, "@double") in s.mem else None))
            components(e, L, st, add, comps)
        e.loopinv = loopinv

        def finish(e, st, ret):
            if validated:
                X, Y = e.g.arr(e.st0, "x"), e.g.arr(e.st0, "y")
            else:
                if len(e.validated) != 1:
                    e.oblige("post", FALSE, "the grid is validated once")
                    return
                X, Y = e.validated[0]
            o = e.deref(ret, "result").obj
            g, d = GridView(e, st, o), st.desc[o]
            e.oblige("post", And(z3.BoolVal(d.fresh), st.alive.get(o, T)), "the result is a new grid")
            e.oblige("post", And(g.nx(st) == e.w, g.ny(st) == e.h), "size of the result")
            e.oblige("post", g.f(st, "type") == type1, "type of the result")
            e.oblige("post", g.f(st, "maptype") == e.g.f(e.st0, "maptype"), "map type of the result")
            mats = [g.mat(st, w) for w in "xy"]
            if None in mats or mats[0] == mats[1]:
                e.oblige("post", FALSE, "the result has node arrays of its own")
                return
            e.oblige("post", And(*[And(z3.BoolVal(st.desc[m].fresh), st.alive.get(m, T), st.desc[m].nr == e.h, st.desc[m].nc == e.w) for m in mats]), "the result has node arrays of its own")
            r, c = z3.Ints("r c")
            for w, A in (("x", X), ("y", Y)):
                A1 = g.arr(st, w)
                for lab, cond, f in clauses(A1, A, r, c):
                    e.oblige("post", z3.ForAll([r, c], z3.Implies(And(inside(e.w, e.h, r, c), cond), f), patterns=[A1[r, c]]), "%s of every %s node" % (w, lab))
            source_unchanged(e, st, X, Y)
            for m in e.maps:
                e.oblige("post", Not(st.alive.get(m, T)), "the temporary map is released")
        e.run(setup, finish)
        return e
    return build


# ---------------------------------------------------------------- cell location as seen by its callers
A2R = z3.ArraySort(I, I, z3.RealSort())


def located(e, i, av):
    """gridmap_xy2ij: success and cell are functions of the point; the cell is inside the grid; on
    failure both indices are -1 (tasks xy2ij_*, C11)."""
    st = e.st
    m = only_obj(av[0])
    e.oblige("pre", st.alive.get(m, T), "map in use was destroyed")
    if m != e.gm:
        e.oblige("pre", FALSE, "location through the map of the averager")
    x, y = av[1], av[2]
    ok = e.LOCATED(x, y)
    r = e.fresh_int("xy2ij", "i32")
    R_ = e.reach[e.cur]
    e.assume((r != 0) == ok, R_)
    ci, cj = e.CELL_I(x, y), e.CELL_J(x, y)
    e.assume(Implies(ok, z3.And(ci >= 0, ci < e.n1, cj >= 0, cj < e.n2)), R_)
    e.store(st, av[3], If(ok, ci, ival(-1)), "i32")
    e.store(st, av[4], If(ok, cj, ival(-1)), "i32")
    return r
