"""C08: insertgrid.  The program's main function, its command line and the grid files being arbitrary."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg import contracts as C
from specs.select import selectors, inside

KEEP = (C.KEEP | {"parse_commandline"}) - {"gridnodes_destroy"}


def cellty(e, p):
    """The cell of the program a pointer argument refers to, with its type."""
    t = p.only() if len(p.alts) == 1 else None
    return t


def commandline(e, i, av):
    """parse_commandline: ends the program, or sets the variables it is given and the settings to anything (not proved)."""
    st = e.st
    e.args = {}
    for k, (v, (ty, _)) in enumerate(zip(av, i.a["args"])):
        if ty != "ptr" or k == 1:
            continue
        t = v.only() if isinstance(v, Ptr) and len(v.alts) == 1 else None
        if t is None or not t.obj.startswith("loc:"):
            continue
        old = st.mem.get((t.obj, t.path))
        if old is None:
            old = next((x for (o, p), x in st.mem.items() if o == t.obj), None)
        if isinstance(old, Ptr):
            w = to(e.opaque(st, "arg%d" % k))
            e.store(st, v, w, "ptr")
        elif old is not None and z3.is_int(old):
            w = e.fresh_int("arg%d" % k)
            e.store(st, v, w, "i32")
        else:
            raise Unsupported("variable set by the command line")
        e.args[k] = w
    for g in e.settings:
        w = e.fresh_int(g)
        e.store(st, e.globptr(g), w, "i32")
        e.args[g] = w
    e.assume(z3.And(*e.limits(e)), e.reach[e.cur])
    return None


def read(e, i, av):
    """gridnodes_read: ends the program or returns a new grid (C22) of its own storage."""
    st = e.st
    k = count(st, "reads")
    if k >= 2:
        raise Unsupported("a third grid")
    st.ghost["reads"] = ival(k + 1)
    g = newgrid_any(e, i, "g%d" % (k + 1))
    e.inputs[k] = g
    e.names_read = getattr(e, "names_read", {})
    p = av[0].only() if len(av[0].alts) == 1 else None
    e.names_read[k] = p.obj if p is not None else None
    if k == 1:
        e.combined(e)
    return to(g)


def newgrid_any(e, i, nm):
    nx, ny = z3.Int("nx!" + nm), z3.Int("ny!" + nm)
    e.assume(z3.And(nx >= 1, ny >= 1, nx <= MAXDIM, ny <= MAXDIM, nx * ny <= INTMAX))
    X, Y = e.fresh(nm + "x", A2["double"]), e.fresh(nm + "y", A2["double"])
    g = C.newgrid(e, i, nx, ny, e.fresh_int("type"), X, Y, [("maptype", ival(0)), ("validated", ival(0)), ("nextpoint", ival(0))])
    e.dims.append((ny, nx))
    e.terms += [nx, ny]
    e.source = getattr(e, "source", {})
    e.source[nm] = (nx, ny, X, Y)
    return g


def count(st, what):
    k = simp(st.ghost.get(what, ival(0)))
    if not isconst(k):
        raise Unsupported("%s on some paths only" % what)
    return k.as_long()


def offsets(e):
    return e.args[4], e.args[5]


def insert(merge):
    def build(module, tag=""):
        con = dict(C.BASE)
        con["parse_commandline"] = commandline
        con["gridnodes_read"] = read
        e = Engine(module, "main", con, tag=tag)
        even = lambda e: And(e.args[6] == NT["DD"], Or(e.W % 2 == 0, e.H % 2 == 0))
        e.quit_ok = lambda e, st: T if count(st, "reads") < 2 else even(e)

        def want(w, r, c, m):
            """(is NaN, value) of a node of the combined grid"""
            i0, j0 = offsets(e)
            nx1, ny1, X1, Y1 = e.source["g1"]
            nx2, ny2, X2, Y2 = e.source["g2"]
            o1x, o2x = z3.If(i0 < 0, -i0, 0), z3.If(i0 < 0, 0, i0)
            o1y, o2y = z3.If(j0 < 0, -j0, 0), z3.If(j0 < 0, 0, j0)
            in1 = inside(nx1, ny1, r - o1y, c - o1x)
            in2 = inside(nx2, ny2, r - o2y, c - o2x)
            A1_, A2_ = (X1, X2) if w == "x" else (Y1, Y2)
            take2 = z3.And(in2, z3.Or(z3.Not(in1), z3.Not(isnan(X2[r - o2y, c - o2x])))) if merge else in2
            return z3.And(z3.Implies(take2, m == A2_[r - o2y, c - o2x]),
                          z3.Implies(z3.And(z3.Not(take2), in1), m == A1_[r - o1y, c - o1x]),
                          z3.Implies(z3.Not(z3.Or(in1, in2)), isnan(m)))

        def combined(e):
            i0, j0 = offsets(e)
            nx1, ny1 = e.source["g1"][:2]
            nx2, ny2 = e.source["g2"][:2]
            e.W, e.H = z3.Int("W"), z3.Int("H")
            for W, a, n1, n2 in ((e.W, i0, nx1, nx2), (e.H, j0, ny1, ny2)):
                lo = z3.If(a < 0, a, 0)
                hi = z3.If(a + n2 > n1, a + n2, n1)
                e.assume(W == hi - lo)
                e.assume(W <= MAXDIM)
            e.assume(z3.And(e.W * e.H <= INTMAX, e.W * e.H >= 0))
            e.terms += [e.W, e.H]
        e.combined = combined

        def alloc(e, i, av):
            nj, ni, us = av
            if count(e.st, "reads") == 2:
                e.oblige("pre", And(nj == e.H, ni == e.W), "the combined grid is just large enough for both")
                e.assume(And(nj == e.H, ni == e.W), e.reach[e.cur])
                av = [e.H, e.W, us]
            return C.alloc2d(e, i, av)
        con["gu_alloc2d"] = alloc

        def validate(e, i, av):
            """the combined grid is complete when it is validated"""
            st = e.st
            g = GridView(e, st, C.only_obj(av[0]))
            check(g, st, "validated")
            e.oblige("pre", Not(even(e)), "a double density grid has odd dimensions")
            e.checked = g.obj
            st.ghost["validated"] = ival(count(st, "validated") + 1)
            C.validate(e, i, av)
            e.after = {w: g.arr(st, w) for w in "xy"}
        con["gridnodes_validate"] = validate

        def check(g, st, what):
            e.oblige("pre", And(g.nx(st) == e.W, g.ny(st) == e.H), "%s: size of the combined grid" % what)
            e.oblige("pre", g.f(st, "type") == e.args[6], "%s: type of the combined grid" % what)
            r, c = z3.Ints("r c")
            for w in "xy":
                A = g.arr(st, w)
                e.oblige("pre", z3.ForAll([r, c], z3.Implies(inside(e.W, e.H, r, c), want(w, r, c, A[r, c])), patterns=[A[r, c]]), "%s: %s of every node follows the overlay rule" % (what, w))

        def write(e, i, av):
            st = e.st
            g = GridView(e, st, C.only_obj(av[0]))
            ok = count(st, "validated") == 1 and e.checked == g.obj
            e.oblige("pre", z3.BoolVal(ok), "the grid written is the combined one, validated")
            if ok:
                e.oblige("pre", And(*[g.arr(st, w) == e.after[w] for w in "xy"]), "written as validated")
            e.oblige("pre", av[2] == 2, "both coordinates are written")
            st.ghost["written"] = ival(count(st, "written") + 1)
            return None
        con["gridnodes_write"] = write
        e.settings = ["merge", "gu_verbose"]
        e.inputs = {}

        def limits(e):
            i0, j0 = offsets(e)
            t = e.args[6]
            e.terms += [i0, j0]
            return [i0 >= -MAXDIM, i0 <= MAXDIM, j0 >= -MAXDIM, j0 <= MAXDIM, t >= 0, t <= 3, (e.args["merge"] != 0) if merge else (e.args["merge"] == 0)]
        e.limits = limits

        def setup(e):
            st = State()
            e.source = {}
            for w in ("reads", "validated", "written"):
                st.ghost[w] = ival(0)
            return st, [z3.Int("argc"), to(e.opaque(st, "argv"))]

        def loopinv(e, L, st, add):
            if len(e.source) < 2:
                return
            from vcg.templates import Comp, components
            mats = [o for o, d in st.desc.items() if d.kind == "mat" and d.fresh and d.elem == "double" and is_true(simp(And(d.nr == e.H, d.nc == e.W)))]
            comps = []
            for k, m in enumerate(mats):
                arr = lambda s, m=m: s.mem.get((m, "@double"))
                for w in "xy":
                    comps.append(Comp("overlay%d%s" % (k, w), lambda s, r, c, arr=arr, w=w: want(w, r, c, arr(s)[r, c]), lambda r, c: inside(e.W, e.H, r, c), lambda s, r, c, arr=arr: [arr(s)[r, c]]))
            components(e, L, st, add, comps)
        e.loopinv = loopinv

        def finish(e, st, ret):
            e.oblige("post", z3.BoolVal(count(st, "written") == 1), "the combined grid is written once")
        e.run(setup, finish)
        return e
    return build
MAIN = "insertgrid"
