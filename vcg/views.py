"""Building symbolic inputs and reading results: grid node structures etc."""
import z3
from .engine import *

INTMAX = 2 ** 31 - 1
MAXDIM = 2 ** 30        # bound on each grid dimension in every contract (documented)
NT = dict(NONE=0, DD=1, CEN=2, COR=3)


def setf(e, st, obj, path, v, ty):
    st.mem[(obj, path)] = v
    e.pathty[path] = ty


def mkstruct(e, st, name, sname, fresh=False):
    return e.mkobj(st, name, Desc("struct", ("named", "struct." + sname), fresh=fresh))


def matrix(e, st, name, nr, nc, elem="double", ro=False, fresh=False):
    """Row table + matrix; returns (row table object, matrix object)."""
    m = e.mkobj(st, name, Desc("mat", elem, nr=nr, nc=nc, ro=ro, fresh=fresh))
    r = e.mkobj(st, name + ".rows", Desc("rows", "ptr", nr=nr, mat=m, fresh=fresh))
    key = "@double" if elem == "double" else "@i"
    st.mem[(m, key)] = e.fresh(name, A2["double" if elem == "double" else "i"])
    return r, m


def grid(e, st, name, type=None, nx=None, ny=None, fresh=False, ro=False, odd=None):
    """A gridnodes structure with its node arrays and the class invariant assumed."""
    g = mkstruct(e, st, name, "gridnodes", fresh)
    nx = nx if nx is not None else z3.Int(name + ".nx")
    ny = ny if ny is not None else z3.Int(name + ".ny")
    for v in (nx, ny):
        if not isconst(v):
            e.constblock[str(v)] = e.cur
    e.assume(z3.And(nx >= 1, ny >= 1, nx <= MAXDIM, ny <= MAXDIM, nx * ny <= INTMAX))
    rx, mx = matrix(e, st, name + ".gx", ny, nx, ro=ro, fresh=fresh)
    ry, my = matrix(e, st, name + ".gy", ny, nx, ro=ro, fresh=fresh)
    setf(e, st, g, "gridnodes.nx", nx, "i32")
    setf(e, st, g, "gridnodes.ny", ny, "i32")
    setf(e, st, g, "gridnodes.gx", to(rx), "ptr")
    setf(e, st, g, "gridnodes.gy", to(ry), "ptr")
    if type is None:
        t = z3.Int(name + ".type")
        e.assume(z3.And(t >= 0, t <= 3))
    else:
        t = ival(type)
    setf(e, st, g, "gridnodes.type", t, "i32")
    if odd or (odd is None and type == NT["DD"]):
        # nx = 2*hx+1 is kept as a definition so that parity needs no division
        hx, hy = z3.Int(name + ".hx"), z3.Int(name + ".hy")
        e.assume(z3.And(nx == 2 * hx + 1, ny == 2 * hy + 1, hx >= 0, hy >= 0))
        e.factors += [(hx, [2 * hy, 2 * hy + 1, 2 * hy + 2]), (hx + 1, [2 * hy, 2 * hy + 1, 2 * hy + 2])]
    e.dims.append((ny, nx))
    e.terms += [nx, ny]
    return GridView(e, st, g)


class GridView:
    """Reads a gridnodes structure in a given state."""

    def __init__(v, e, st, obj):
        v.e, v.obj = e, obj

    def f(v, st, field, ty="i32"):
        return v.e.getmem(st, v.obj, "gridnodes." + field, ty)

    def nx(v, st):
        return v.f(st, "nx")

    def ny(v, st):
        return v.f(st, "ny")

    def mat(v, st, which):
        """Matrix object behind gx/gy (None if the shape is not a plain matrix)."""
        p = v.f(st, "g" + which, "ptr")
        if len(p.alts) != 1 or p.alts[0][1] is None:
            return None
        t = p.alts[0][1]
        d = st.desc[t.obj]
        if d.kind != "rows" or not is_true(simp(t.col == 0)):
            return None
        return d.mat

    def arr(v, st, which):
        m = v.mat(st, which)
        return v.e.getmem(st, m, "@double", "double")

    def at(v, st, which, r, c):
        return v.arr(st, which)[r, c]


def isn(x):
    return isnan(x)


def untouched(e, st, allowed=()):
    """Obligations: memory that existed on entry is as it was, except the objects in allowed."""
    for k, v in sorted(st.mem.items(), key=lambda a: str(a[0])):
        o, path = k
        if o not in e.st0.desc or o in allowed or o.startswith("glob:"):
            continue
        v0 = e.st0.mem.get(k, e.lazy.get(k))
        if v0 is None or v is v0:
            continue
        if isinstance(v, Ptr):
            e.oblige("frame", z3.BoolVal(isinstance(v0, Ptr) and e.sameptr(v, v0)), "%s.%s unchanged" % k)
        else:
            e.oblige("frame", v == v0, "%s.%s unchanged" % k)
    for o in e.st0.desc:
        if o in st.alive and o not in allowed:
            e.oblige("frame", Implies(e.st0.alive.get(o, T), st.alive[o]), "%s not released" % o)
