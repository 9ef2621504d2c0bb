"""Contracts of library functions used at call sites (each is proved by the task
named in its docstring)."""
import z3
from .engine import *
from .views import *


def may_quit(e, cond, what):
    """The callee refuses (gu_quit) when cond holds; otherwise it returns."""
    ok = e.quit_ok(e, e.st) if e.quit_ok else FALSE
    e.oblige("quit", Or(Not(cond), ok), what)
    e.assume(Not(cond), e.reach[e.cur])


def alloc2d(e, i, av):
    """gu_alloc2d: proved by task alloc2d (C19)."""
    nj, ni, us = av
    e.oblige("pre", And(nj >= 0, ni >= 0, nj <= INTMAX, ni <= INTMAX, Or(nj == 0, ni == 0, nj * ni <= INTMAX)), "gu_alloc2d: dimensions within range")
    may_quit(e, Or(nj == 0, ni == 0), "gu_alloc2d refuses an empty matrix")
    u = simp(us)
    if not isconst(u) or u.as_long() not in (4, 8):
        raise Unsupported("gu_alloc2d of other units than int or double")
    elem = "double" if u.as_long() == 8 else "i32"
    m = e.mkobj(e.st, "mat" + i.res, Desc("mat", elem, nr=nj, nc=ni, zero=True, fresh=True))
    r = e.mkobj(e.st, "rows" + i.res, Desc("rows", "ptr", nr=nj, mat=m, fresh=True))
    e.allocs.append(m)
    key = "@double" if elem == "double" else "@i"
    e.getmem(e.st, m, key, elem)
    return to(r)


def free2d(e, i, av):
    """gu_free2d: free of a matrix allocated by gu_alloc2d."""
    for g, t in av[0].alts:
        if t is None:
            continue
        d = e.st.desc[t.obj]
        if d.kind != "rows":
            raise Unsupported("gu_free2d of %s" % d.kind)
        if not d.fresh:
            e.oblige("frame", Not(g), "gu_free2d of a matrix not owned: %s" % t.obj)
        for o in (t.obj, d.mat):
            e.oblige("free", Implies(g, e.st.alive.get(o, T)), "double free")
            e.st.alive[o] = simp(And(e.st.alive.get(o, T), Not(g)))
    return None


def only_obj(p):
    t = p.only()
    if t is None:
        raise Unsupported("null argument")
    return t.obj


def validate(e, i, av):
    """gridnodes_validate: proved by tasks validate_* (C01, C02); here only what callers need:
    nodes keep their coordinates or become NaN; nothing else but `validated` changes."""
    g = GridView(e, e.st, only_obj(av[0]))
    st = e.st
    nx, ny = g.nx(st), g.ny(st)
    X0, Y0 = g.arr(st, "x"), g.arr(st, "y")
    X, Y = e.fresh("valx", X0.sort()), e.fresh("valy", Y0.sort())
    r, c = z3.Ints("r c")
    e.assume(z3.ForAll([r, c], z3.Or(z3.And(X[r, c] == X0[r, c], Y[r, c] == Y0[r, c]), z3.And(isnan(X[r, c]), isnan(Y[r, c]))), patterns=[X[r, c], Y[r, c]]), e.reach[e.cur])
    for w, a in (("x", X), ("y", Y)):
        st.mem[(g.mat(st, w), "@double")] = a
    setf(e, st, g.obj, "gridnodes.validated", ival(1), "i32")
    e.validated = getattr(e, "validated", [])
    e.validated.append((X, Y))
    return None


def newgrid(e, i, nx, ny, type, X=None, Y=None, fields=()):
    """A fresh gridnodes object returned by a constructor."""
    st = e.st
    g = e.mkobj(st, "grid" + i.res, Desc("struct", ("named", "struct.gridnodes"), fresh=True))
    st.alive[g] = T
    for w, a in (("x", X), ("y", Y)):
        m = e.mkobj(st, "mat%s.%s" % (w, i.res), Desc("mat", "double", nr=ny, nc=nx, fresh=True))
        r = e.mkobj(st, "rows%s.%s" % (w, i.res), Desc("rows", "ptr", nr=ny, mat=m, fresh=True))
        st.mem[(m, "@double")] = a if a is not None else e.fresh("new" + w, A2["double"])
        setf(e, st, g, "gridnodes.g" + w, to(r), "ptr")
        st.alive[m] = T
        st.alive[r] = T
    setf(e, st, g, "gridnodes.nx", nx, "i32")
    setf(e, st, g, "gridnodes.ny", ny, "i32")
    setf(e, st, g, "gridnodes.type", type, "i32")
    setf(e, st, g, "gridnodes.stats", NULL, "ptr")
    for f, v in fields:
        setf(e, st, g, "gridnodes." + f, v, "i32")
    return g


def copy(e, i, av):
    """gridnodes_copy: proved by task copy (C07)."""
    st = e.st
    s = GridView(e, st, only_obj(av[0]))
    g = newgrid(e, i, s.nx(st), s.ny(st), s.f(st, "type"), s.arr(st, "x"), s.arr(st, "y"),
                [("maptype", s.f(st, "maptype")), ("validated", ival(0)), ("nextpoint", ival(0))])
    return to(g)


def gridmap_build(e, i, av):
    """gridmap_build: refuses (binary map of a grid that cannot be cut), or returns a map that refers
    to the given node arrays and touches nothing else (tasks kmap_build, bmap_build)."""
    n1, n2, gx, gy, ty = av
    st = e.st
    rx, ry = only_obj(gx), only_obj(gy)
    dx, dy = st.desc[rx], st.desc[ry]
    for d in (dx, dy):
        if d.kind != "rows":
            raise Unsupported("gridmap_build of %s" % d.kind)
    e.oblige("pre", And(n1 >= 0, n2 >= 0, n1 <= MAXDIM, n2 <= MAXDIM), "gridmap_build: number of cells")
    for d in (dx, dy):
        m = st.desc[d.mat]
        e.oblige("pre", And(n2 + 1 == d.nr, n1 + 1 == m.nc, st.alive.get(d.mat, T)), "gridmap_build: node arrays are (n2+1) x (n1+1)")
    e.oblige("pre", Or(ty == 0, ty == 1), "gridmap_build: map type")
    g = e.mkobj(st, "map" + i.res, Desc("struct", ("named", "struct.gridmap"), fresh=True))
    st.alive[g] = T
    e.maps = getattr(e, "maps", {})
    e.maps[g] = (n1, n2, dx.mat, dy.mat)
    return to(g)


def gridmap_destroy(e, i, av):
    for g, t in av[0].alts:
        if t is None:
            continue
        e.oblige("free", Implies(g, e.st.alive.get(t.obj, T)), "map destroyed twice")
        e.st.alive[t.obj] = simp(And(e.st.alive.get(t.obj, T), Not(g)))
    return None


def intof(x):
    """An integer term equal to a real term that is linear in integers, or None."""
    if z3.is_rational_value(x):
        return ival(x.numerator_as_long()) if x.denominator_as_long() == 1 else None
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x.arg(0)
    if z3.is_add(x) or z3.is_mul(x) or z3.is_sub(x):
        ch = [intof(c) for c in x.children()]
        if any(c is None for c in ch):
            return None
        r = ch[0]
        for c in ch[1:]:
            r = r + c if z3.is_add(x) else r * c if z3.is_mul(x) else r - c
        return r
    return None


def halfint(e, f):
    """Twice a double known to be a (half-)integer, as an integer term."""
    f = simp(f)
    leaves, p = e.rval(f)
    if leaves:
        return None
    k = intof(z3.simplify(2 * p, som=True))
    return None if k is None else simp(k)


def gridmap_fij2xy(e, i, av):
    """gridmap_fij2xy at integer and half-integer indices: tasks fij2xy_* (C09)."""
    st = e.st
    m = only_obj(av[0])
    e.oblige("pre", st.alive.get(m, T), "map in use was destroyed")
    n1, n2, mx, my = e.maps[m]
    fi, fj = e.dfacts(av[1]), e.dfacts(av[2])
    ok = e.fresh_int("fij2xy", "i32")
    inside = And(Not(isnan(fi)), Not(isnan(fj)), num(fi) >= 0, num(fi) <= z3.ToReal(n1), num(fj) >= 0, num(fj) <= z3.ToReal(n2))
    e.assume((ok != 0) == inside, e.reach[e.cur])
    R_ = e.reach[e.cur]
    pos = []
    for w, f in (("ii", fi), ("jj", fj)):
        k = halfint(e, f)
        if k is not None:
            pos.append((k / 2, k % 2 == 0, k % 2 == 1))
            continue
        n = e.fresh(w, I)
        e.assume(Implies(inside, And(z3.ToReal(n) <= num(f), num(f) < z3.ToReal(n) + 1)), R_)
        pos.append((n, num(f) == z3.ToReal(n), num(f) - z3.ToReal(n) == z3.Q(1, 2)))
    (ii, u0, u1), (jj, v0, v1) = pos
    for w, mt, out in (("x", mx, av[3]), ("y", my, av[4])):
        A = e.getmem(st, mt, "@double", "double")
        res = e.dfacts(e.fresh("fij" + w, F))
        P, Q, S, W = A[jj, ii], A[jj, ii + 1], A[jj + 1, ii], A[jj + 1, ii + 1]
        for x in (P, Q, S, W):
            e.dfacts(x)

        def mean(cond, ns):
            e.assume(Implies(And(inside, cond, Or(*[isnan(x) for x in ns])), isnan(res)), R_)
            e.assume(Implies(And(inside, cond, *[isfin(x) for x in ns]), And(Not(isnan(res)), num(res) * len(ns) == z3.Sum([num(x) for x in ns]))), R_)
        e.assume(Implies(And(inside, u0, v0), res == P), R_)
        mean(And(u1, v0), [P, Q])
        mean(And(u0, v1), [P, S])
        mean(And(u1, v1), [P, Q, S, W])
        e.store(st, out, res, "double")
    return ok


BASE = {"gu_alloc2d": alloc2d, "gu_free2d": free2d, "gridnodes_validate": validate, "gridnodes_copy": copy,
        "gridmap_build": gridmap_build, "gridmap_destroy": gridmap_destroy, "gridmap_fij2xy": gridmap_fij2xy}
KEEP = {"gu_alloc2d", "gu_free2d", "gridnodes_validate", "gridnodes_copy", "gridnodes_subgrid", "gridnodes_transform", "gridnodes_applymask", "gridnodes_destroy",
        "gridnodes_calcstats", "gridnodes_write", "gridnodes_read", "gridmap_build", "gridmap_build2", "gridmap_destroy", "gridmap_fij2xy", "gridmap_xy2fij", "gridmap_xy2ij",
        "kd_create", "kd_insertnode", "kd_insertnodes", "kd_findnearestnode", "kd_findnodeswithinrange", "kd_readresults", "kd_destroy", "kd_getnodecoords",
        "gu_readmask", "gu_fopen"}
