"""Construction of grid maps: what the contract `gridmap_build` (vcg/contracts.py) and the descriptions of maps in
the other tasks (`gmap` of specs/mapping.py, the tree of nodes of specs/locate.py) take for granted."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg import contracts as C
from vcg.contracts import only_obj

KEEP = C.KEEP | {"gridkmap_build", "gridbmap_build", "gridmap_build2", "kd_create", "kd_insertnodes", "poly_formbound", "subgrid_create", "gridbmap_subdivide"}


def arrays(e, st, n1, n2):
    e.rx, e.mx = matrix(e, st, "gx", n2 + 1, n1 + 1, ro=True)
    e.ry, e.my = matrix(e, st, "gy", n2 + 1, n1 + 1, ro=True)
    return to(e.rx), to(e.ry)


def sizes(e):
    e.n1, e.n2 = z3.Ints("nce1 nce2")
    e.assume(z3.And(e.n1 >= 0, e.n2 >= 0, e.n1 < MAXDIM, e.n2 < MAXDIM, (e.n1 + 1) * (e.n2 + 1) <= INTMAX))
    return e.n1, e.n2


def same(p, q):
    return z3.BoolVal(isinstance(p, Ptr) and len(p.alts) == 1 and p.alts[0][1] is not None and p.alts[0][1].same(q.alts[0][1]))


def given(e, av, what):
    """The callee gets the grid the caller got."""
    n1, n2, gx, gy = av
    e.oblige("pre", And(n1 == e.n1, n2 == e.n2), "%s gets the numbers of cells in order" % what)
    e.oblige("pre", And(same(gx, to(e.rx)), same(gy, to(e.ry))), "%s gets the node arrays in order" % what)


def fields(e, st, m, kind):
    for f, v in (("nce1", e.n1), ("nce2", e.n2)):
        e.oblige("post", e.getmem(st, m, "%s.%s" % (kind, f), "i32") == v, "the map has %s as given" % f)
    for f, v in (("gx", e.rx), ("gy", e.ry)):
        e.oblige("post", same(e.getmem(st, m, "%s.%s" % (kind, f), "ptr"), to(v)), "the map refers to %s as given" % f)


def result(e, st, ret):
    o = e.deref(ret, "result").obj
    e.oblige("post", And(z3.BoolVal(bool(st.desc[o].fresh)), st.alive.get(o, T)), "the map is new")
    return o


def fresh(e, i, kind):
    o = e.mkobj(e.st, kind + i.res, Desc("struct", ("named", "struct." + kind), fresh=True))
    e.st.alive[o] = T
    return o


def kmap(module, tag=""):
    """The tree of nodes holds the nodes of the grid under their numbers in row order."""
    def kd_create(e, i, av):
        """kd_create: task kd_create (C12)."""
        e.oblige("pre", av[0] == 2, "kd_create: two dimensions")
        e.tree = fresh(e, i, "kdtree")
        e.filled = FALSE
        return to(e.tree)

    def kd_insertnodes(e, i, av):
        """kd_insertnodes: tasks kd_insertnodes_* (C12): puts in point k = (src[0][k], src[1][k]) under number k."""
        st = e.st
        t, n, src = av[:3]
        if e.tree is None or only_obj(t) != e.tree:
            raise Unsupported("insertion into another tree")
        e.oblige("pre", Not(e.filled), "the nodes are put in once")
        e.oblige("pre", n == (e.n1 + 1) * (e.n2 + 1), "all nodes of the grid are put in")
        for k, m, w in ((0, e.mx, "x"), (1, e.my, "y")):
            p = e.load(st, e.gep("ptr", src, [ival(k)], [("i64", ("int", k))]), "ptr")
            q = p.only()
            ok = q is not None and q.obj == m
            e.oblige("pre", And(z3.BoolVal(ok), *([q.row == 0, q.col == 0] if ok else [])), "coordinate %d is the first row of %s, all rows following it (C19)" % (k, w))
        e.filled = T
        return None
    e = Engine(module, "gridkmap_build", dict(kd_create=kd_create, kd_insertnodes=kd_insertnodes), tag=tag)
    e.tree, e.filled = None, FALSE

    def setup(e):
        st = State()
        n1, n2 = sizes(e)
        gx, gy = arrays(e, st, n1, n2)
        return st, [n1, n2, gx, gy]

    def finish(e, st, ret):
        m = result(e, st, ret)
        fields(e, st, m, "gridkmap")
        t = e.getmem(st, m, "gridkmap.tree", "ptr")
        e.oblige("post", And(z3.BoolVal(e.tree is not None and len(t.alts) == 1 and t.alts[0][1] is not None and t.alts[0][1].obj == e.tree), e.filled), "the map has the tree of the nodes of the grid")
        untouched(e, st)
    e.run(setup, finish)
    return e


def bmap(module, tag=""):
    """The map refers to the grid given (how the outline is cut is C26)."""
    def outline(e, i, av):
        """poly_formbound: task poly_formbound (C18)."""
        given(e, av, "poly_formbound")
        return to(fresh(e, i, "poly"))

    def part(e, i, av):
        return to(fresh(e, i, "subgrid"))
    e = Engine(module, "gridbmap_build", dict(poly_formbound=outline, subgrid_create=part, gridbmap_subdivide=lambda e, i, av: None), tag=tag)

    def setup(e):
        st = State()
        n1, n2 = sizes(e)
        gx, gy = arrays(e, st, n1, n2)
        e.quit_ok = lambda e, st: T
        return st, [n1, n2, gx, gy]

    def finish(e, st, ret):
        fields(e, st, result(e, st, ret), "gridbmap")
        untouched(e, st)
    e.run(setup, finish)
    return e


def choice(second):
    """gridmap_build, gridmap_build2: a map of the kind asked for over the arrays given, no branch on record."""
    def build(module, tag=""):
        def sub(kind):
            def c(e, i, av):
                """gridkmap_build / gridbmap_build: tasks build_kmap, build_bmap."""
                given(e, av, "grid%s_build" % kind)
                o = fresh(e, i, "grid" + kind)
                e.made.append((o, kind))
                return to(o)
            return c
        def first(e, i, av):
            """gridmap_build: task build_gridmap."""
            given(e, av[:4], "gridmap_build")
            st = e.st
            o, ms = fresh(e, i, "gridmap"), []
            C.may_quit(e, And(av[4] != 0, av[4] != 1), "gridmap_build refuses unknown types")
            for k, kind in ((0, "bmap"), (1, "kmap")):
                q = e.mkobj(st, kind + i.res, Desc("struct", ("named", "struct.grid" + kind), fresh=True))
                st.alive[q] = T
                e.made.append((q, kind))
                ms.append((simp(av[4] == k), PV(q)))
            setf(e, st, o, "gridmap.type", av[4], "i32")
            setf(e, st, o, "gridmap.sign", ival(0), "i32")
            setf(e, st, o, "gridmap.map", Ptr(ms), "ptr")
            return to(o)
        e = Engine(module, "gridmap_build2" if second else "gridmap_build", dict(gridkmap_build=sub("kmap"), gridbmap_build=sub("bmap"), **(dict(gridmap_build=first) if second else {})), tag=tag)
        e.made = []

        def setup(e):
            st = State()
            e.ty = z3.Int("maptype")
            e.assume(z3.And(e.ty >= -2 ** 31, e.ty < 2 ** 31))
            e.quit_ok = lambda e, st: And(e.ty != 0, e.ty != 1)
            if second:
                g = grid(e, st, "gn", NT["COR"], ro=True)
                e.n1, e.n2 = g.nx(st) - 1, g.ny(st) - 1
                e.rx, e.ry = [only_obj(g.f(st, "g" + w, "ptr")) for w in "xy"]
                setf(e, st, g.obj, "gridnodes.maptype", e.ty, "i32")
                return st, [to(g.obj)]
            n1, n2 = sizes(e)
            gx, gy = arrays(e, st, n1, n2)
            return st, [n1, n2, gx, gy, e.ty]

        def finish(e, st, ret):
            m = result(e, st, ret)
            ty = e.getmem(st, m, "gridmap.type", "i32")
            e.oblige("post", And(ty == e.ty, Or(ty == 0, ty == 1)), "the map is of the type asked for")
            e.oblige("post", e.getmem(st, m, "gridmap.sign", "i32") == 0, "no branch is on record")
            p = e.getmem(st, m, "gridmap.map", "ptr")
            kinds = dict(e.made)
            for g, t in p.alts:
                k = kinds.get(t.obj) if t is not None else None
                e.oblige("post", Implies(g, And(z3.BoolVal(k is not None), ty == dict(bmap=0, kmap=1).get(k, -1))), "the map behind it is of that kind")
            untouched(e, st)
        e.run(setup, finish)
        return e
    return build
