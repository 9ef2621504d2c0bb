"""C11: location of points in cells."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg import contracts as C
from vcg.contracts import only_obj
from specs.mapping import gmap, outcell
from specs import poly
from specs.poly import Poly, EXT, DMAX

KEEP = C.KEEP | poly.KP | {"gridkmap_xy2ij", "gridbmap_xy2ij", "gridkmap_build", "gridbmap_build", "gridkmap_destroy", "gridbmap_destroy"}


def inquad(e, xs, ys, x, y):
    """The closed polygon through the points contains (x, y): on a segment, or an odd number of segments
    cross the ray to the right (what C15 proves of poly_containspoint)."""
    n = len(xs)
    rx = [num(e.fop("fsub", e.dfacts(v), x)) for v in xs]
    ry = [num(e.fop("fsub", e.dfacts(v), y)) for v in ys]
    on, par = [], FALSE
    for k in range(n):
        l = (k + 1) % n
        x1, y1, x2, y2 = rx[k], ry[k], rx[l], ry[l]
        D = x1 * y2 - x2 * y1
        on.append(And(D == 0, x1 * x2 <= 0, y1 * y2 <= 0))
        par = z3.Xor(par, And((y1 > 0) != (y2 > 0), z3.If(y2 > y1, D > 0, D < 0)))
    return Or(par, *on)


def contains_c(e, i, av):
    """poly_containspoint: proved by task poly_containspoint (C15)."""
    st = e.st
    p = Poly(e, only_obj(av[0]))
    n = simp(p.n(st))
    objs = [p.aobj(st, w) for w in "XY"]
    if None in objs or not isconst(n) or not 2 <= n.as_long() <= 8:
        raise Unsupported("containment in a polyline of unknown length")
    n = n.as_long()
    A = [e.getmem(st, o, "@double", "double") for o in objs]
    e.oblige("pre", And(*[And(st.desc[o].n >= n, st.alive.get(o, T)) for o in objs], isfin(av[1]), isfin(av[2])), "poly_containspoint: well-formed polyline and finite point")
    P = [[e.dfacts(simp(a[k])) for k in range(n)] for a in A]
    e.oblige("pre", And(*[isfin(v) for q in P for v in q]), "poly_containspoint: finite points")
    r = e.fresh_int("inside", "i32")
    e.assume((r != 0) == inquad(e, P[0], P[1], av[1], av[2]), e.reach[e.cur])
    return r


def clear_c(e, i, av):
    """poly_clear: proved by task poly_clear (C16)."""
    st = e.st
    p = Poly(e, only_obj(av[0]))
    setf(e, st, p.obj, "poly.n", ival(0), "i32")
    for f, w, sg in EXT:
        setf(e, st, p.obj, "poly.e." + f, e.dval(sg * DMAX), "double")
    return None


def destroy_c(e, i, av):
    """poly_destroy: proved by task poly_destroy (C16)."""
    st = e.st
    for g, t in av[0].alts:
        if t is None:
            continue
        p = Poly(e, t.obj)
        for o in [t.obj] + [p.aobj(st, w) for w in "XY"]:
            if o is None:
                raise Unsupported("poly_destroy: unusual storage")
            e.oblige("free", Implies(g, st.alive.get(o, T)), "polyline released twice")
            st.alive[o] = simp(And(st.alive.get(o, T), Not(g)))
    return None


def nearest_c(e, i, av):
    """kd_findnearestnode returns the number of a node of a non-empty tree (C13)."""
    st = e.st
    if only_obj(av[0]) != e.tree:
        raise Unsupported("search in another tree")
    e.oblige("pre", e.nn > 0, "kd_findnearestnode: the tree is not empty")
    r = e.fresh_int("nearest", "i64")
    e.assume(z3.And(r >= 0, r < e.nn), e.reach[e.cur])
    return r


def kmap(module, tag=""):
    con = dict(poly.CON)
    con.update(poly_containspoint=contains_c, poly_clear=clear_c, poly_destroy=destroy_c, kd_findnearestnode=nearest_c)
    e = Engine(module, "gridkmap_xy2ij", con, tag=tag, arith="real")
    e.keepdiff = True

    def setup(e):
        st = State()
        e.gm, e.n1, e.n2, e.X, e.Y = gmap(e, st, "gridkmap")
        m = only_obj(e.getmem(st, e.gm, "gridmap.map", "ptr"))
        r, c, k = z3.Ints("r c k")
        ins = z3.And(r >= 0, r <= e.n2, c >= 0, c <= e.n1)
        e.assume(z3.ForAll([r, c], z3.Implies(z3.And(ins, isfin(e.X[r, c])), isfin(e.Y[r, c])), patterns=[e.Y[r, c]]))
        # the tree of nodes
        e.tree = mkstruct(e, st, "tree", "kdtree")
        setf(e, st, m, "gridkmap.tree", to(e.tree), "ptr")
        e.nn = z3.Int("tree.nnodes")
        e.assume(z3.And(e.nn >= 0, e.nn <= INTMAX))
        setf(e, st, e.tree, "kdtree.nnodes", e.nn, "i64")
        setf(e, st, e.tree, "kdtree.ndim", ival(2), "i32")
        nodes = e.mkobj(st, "tree.nodes", Desc("arr", ("named", "struct.kdnode"), n=e.nn, ro=True))
        ID = e.getmem(st, nodes, "kdnode.id_orig", "i64")
        e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < e.nn), z3.And(ID[k] >= 0, ID[k] < (e.n1 + 1) * (e.n2 + 1))), patterns=[ID[k]]))
        setf(e, st, e.tree, "kdtree.nodes", to(nodes), "ptr")
        mm = e.mkobj(st, "tree.min", Desc("arr", "double", n=ival(4), ro=True))
        MM = e.getmem(st, mm, "@double", "double")
        for q in range(4):
            e.dfacts(MM[q])
            e.assume(z3.Implies(e.nn == 0, z3.And(isfin(MM[q]), num(MM[q]) == num(e.dval(DMAX if q < 2 else -DMAX)))))
            e.assume(z3.Not(isnan(MM[q])))
        setf(e, st, e.tree, "kdtree.min", to(mm), "ptr")
        setf(e, st, e.tree, "kdtree.max", to(mm, col=ival(2)), "ptr")
        e.x, e.y = e.dfacts(z3.Const("x", F)), e.dfacts(z3.Const("y", F))
        e.assume(z3.And(isfin(e.x), isfin(e.y)))
        e.outs = [e.mkobj(st, "out" + w, Desc("arr", "i32", n=ival(1))) for w in "ij"]
        e.O0 = [e.getmem(st, o, "@i", "i32")[0] for o in e.outs]
        return st, [to(m), e.x, e.y, to(e.outs[0]), to(e.outs[1])]

    def inv(e_, L, st, add):
        for o, d in list(st.desc.items()):
            if d.kind == "struct" and d.elem == ("named", "struct.poly"):
                p = Poly(e, o)
                add("polygon empty", lambda s, p=p: p.n(s) == 0)
                add("polygon storage", lambda s, p=p: None if p.aobj(s, "X") is None or p.aobj(s, "Y") is None else And(p.na(s) >= 1, p.na(s) <= 1024, *[And(s.desc[p.aobj(s, w)].n >= p.na(s), s.alive.get(p.aobj(s, w), T)) for w in "XY"]))
        for k, w in enumerate("ij"):
            add("no %s reported yet" % w, lambda s, k=k: s.mem[(e.outs[k], "@i")][0] == e.O0[k])
    e.loopinv = inv

    def finish(e, st, ret):
        i, j = [st.mem[(o, "@i")][0] for o in e.outs]
        for k, w in enumerate("ij"):
            e.oblige("post", Implies(ret == 0, (i, j)[k] == e.O0[k]), "failure leaves %s alone" % w)
        ok = ret != 0
        e.oblige("post", Implies(ok, And(i >= 0, i < e.n1, j >= 0, j < e.n2)), "success names a cell of the grid")
        cs = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i), (j, i)]
        e.oblige("post", Implies(ok, And(*[isfin(A[q]) for q in cs[:4] for A in (e.X, e.Y)])), "success names a cell with valid corners")
        e.oblige("post", Implies(ok, inquad(e, [e.X[q] for q in cs], [e.Y[q] for q in cs], e.x, e.y)), "success names a cell that contains the point")
        for o, d in st.desc.items():
            if d.fresh and d.kind == "struct":
                e.oblige("post", Not(st.alive.get(o, T)), "temporary storage is released")
        untouched(e, st, e.outs)
    e.run(setup, finish)
    return e


def submap_c(e, i, av):
    """gridkmap_xy2ij / gridbmap_xy2ij: success names a cell, failure leaves the outputs alone
    (tasks kmap and bmap)."""
    st = e.st
    m, x, y, oi, oj = av
    if only_obj(m) != only_obj(e.getmem(st, e.gm, "gridmap.map", "ptr")):
        raise Unsupported("location through another map")
    e.oblige("pre", And(isfin(x), isfin(y)), "location of a finite point")
    r = e.fresh_int("located", "i32")
    e.assume((r != 0) == e.LOCATED(x, y), e.reach[e.cur])
    for o, c in ((oi, e.CELL_I(x, y)), (oj, e.CELL_J(x, y))):
        old = e.load(st, o, "i32")
        e.store(st, o, If(r != 0, c, old), "i32")
    return r


def xy2ij(kind):
    def build(module, tag=""):
        e = Engine(module, "gridmap_xy2ij", {"gridkmap_xy2ij": submap_c, "gridbmap_xy2ij": submap_c}, tag=tag, arith="real")
        e.LOCATED = z3.Function("located", F, F, B)
        e.CELL_I, e.CELL_J = z3.Function("cell_i", F, F, I), z3.Function("cell_j", F, F, I)

        def setup(e):
            st = State()
            e.gm, e.n1, e.n2, e.X, e.Y = gmap(e, st, kind)
            e.x, e.y = e.dfacts(z3.Const("x", F)), e.dfacts(z3.Const("y", F))
            e.outs = [e.mkobj(st, "out" + w, Desc("arr", "i32", n=ival(1))) for w in "ij"]
            for o, c in zip(e.outs, (e.CELL_I, e.CELL_J)):
                e.getmem(st, o, "@i", "i32")
                v = c(e.x, e.y)
                e.assume(z3.And(v >= -2 ** 31, v < 2 ** 31))
            return st, [to(e.gm), e.x, e.y, to(e.outs[0]), to(e.outs[1])]

        def finish(e, st, ret):
            i, j = [st.mem[(o, "@i")][0] for o in e.outs]
            fin = And(isfin(e.x), isfin(e.y))
            e.oblige("post", Implies(Not(fin), ret == 0), "non-finite points are rejected")
            e.oblige("post", Implies(ret == 0, And(i == -1, j == -1)), "failure leaves both indices at -1")
            e.oblige("post", Implies(fin, (ret != 0) == e.LOCATED(e.x, e.y)), "a finite point is located if the map locates it")
            e.oblige("post", Implies(ret != 0, And(i == e.CELL_I(e.x, e.y), j == e.CELL_J(e.x, e.y))), "the cell is the one the map names")
            untouched(e, st, e.outs)
        e.run(setup, finish)
        return e
    return build


INOUTLINE = z3.Function("outline_contains", I, F, F, B)   # polygon number, point


def bmap(module, tag=""):
    """Descent of the binary tree: failure leaves the outputs alone; success names the cell of a leaf."""
    def contains(e, i, av):
        k = e.number(e.st, av[0], e.polys)
        e.oblige("pre", And(k >= 0, k < e.st.desc[e.polys].n), "poly_containspoint: a polyline")
        r = e.fresh_int("inside", "i32")
        e.assume((r != 0) == INOUTLINE(k, av[1], av[2]), e.reach[e.cur])
        return r
    e = Engine(module, "gridbmap_xy2ij", {"poly_containspoint": contains}, tag=tag, arith="real")

    def setup(e):
        st = State()
        e.gm, e.n1, e.n2, e.X, e.Y = gmap(e, st, "gridbmap")
        m = only_obj(e.getmem(st, e.gm, "gridmap.map", "ptr"))
        ns, np_ = z3.Ints("nsubgrids npolys")
        e.ns = ns
        e.subs = e.mkobj(st, "subgrids", Desc("arr", ("named", "struct.subgrid"), n=ns, ro=True))
        e.polys = e.mkobj(st, "outlines", Desc("arr", ("named", "struct.poly"), n=np_, ro=True))
        st.desc[e.subs].ptrs = {"subgrid.half1": e.subs, "subgrid.half2": e.subs, "subgrid.bound": e.polys}
        st.desc[e.polys].ptrs = {"poly.none": e.polys}
        H1, H2, BD = [e.getmem(st, e.subs, "subgrid." + f, "i64") for f in ("half1", "half2", "bound")]
        MI, MJ = [e.getmem(st, e.subs, "subgrid." + f, "i32") for f in ("mini", "minj")]
        e.MI, e.MJ, e.H1, e.BD = MI, MJ, H1, BD
        k = z3.Int("k")
        leaf = z3.And(MI[k] >= 0, MI[k] < e.n1, MJ[k] >= 0, MJ[k] < e.n2)
        e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ns), z3.And(BD[k] >= 0, BD[k] < np_, H1[k] < ns, H2[k] < ns, (H1[k] >= 0) == (H2[k] >= 0), z3.Implies(H1[k] < 0, leaf))),
                           patterns=[H1[k], H2[k], BD[k], MI[k], MJ[k]]))
        t = z3.Int("trunk")
        e.assume(z3.And(t >= 0, t < ns))
        e.trunk = t
        setf(e, st, m, "gridbmap.trunk", to(e.subs, col=t), "ptr")
        e.x, e.y = e.dfacts(z3.Const("x", F)), e.dfacts(z3.Const("y", F))
        e.outs = [e.mkobj(st, "out" + w, Desc("arr", "i32", n=ival(1))) for w in "ij"]
        e.O0 = [e.getmem(st, o, "@i", "i32")[0] for o in e.outs]
        return st, [to(m), e.x, e.y, to(e.outs[0]), to(e.outs[1])]

    def inv(e_, L, st, add):
        for ph in L.phis:
            if ph.pool:
                add("%s is a part of the grid" % ph.name, lambda s, ph=ph: z3.And(ph.cur >= 0, ph.cur < e.ns))
    e.loopinv = inv

    def finish(e, st, ret):
        i, j = [st.mem[(o, "@i")][0] for o in e.outs]
        for k, w in enumerate("ij"):
            e.oblige("post", Implies(ret == 0, (i, j)[k] == e.O0[k]), "failure leaves %s alone" % w)
        e.oblige("post", (ret == 0) == Not(INOUTLINE(e.BD[e.trunk], e.x, e.y)), "failure iff the point is outside the outline")
        e.oblige("post", Implies(ret != 0, And(i >= 0, i < e.n1, j >= 0, j < e.n2)), "success names a cell of the grid")
        q = z3.Int("q")
        e.oblige("post", Implies(ret != 0, Not(z3.ForAll([q], z3.Not(z3.And(q >= 0, q < e.ns, e.H1[q] < 0, e.MI[q] == i, e.MJ[q] == j)), patterns=[e.MI[q]]))), "success names the cell of a leaf")
        untouched(e, st, e.outs)
    e.run(setup, finish)
    return e
