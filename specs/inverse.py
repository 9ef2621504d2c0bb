"""C10: physical to index mapping."""
import z3
from fractions import Fraction
from vcg.engine import *
from vcg.views import *
from vcg import contracts as C
from vcg.contracts import only_obj
from specs.mapping import gmap, outcell

KEEP = C.KEEP
TOP = z3.RealVal("%d/%d" % Fraction(1 - 1e-8).as_integer_ratio())     # the clamp below the upper end, as the double it is
EPS0 = z3.RealVal("%d/%d" % Fraction(1e-5).as_integer_ratio())
U, V = z3.Reals("U V")
NOD = z3.Reals("a b c d e f g h")       # the cell: x = aUV + bU + cV + d, y = eUV + fU + gV + h


def located(e, i, av):
    """gridmap_xy2ij (C11): a cell of the grid with valid corners, as a function of the point; -1 on failure."""
    st = e.st
    if only_obj(av[0]) != e.gm:
        raise Unsupported("location through another map")
    x, y = av[1], av[2]
    if not (x.eq(e.x) and y.eq(e.y)):
        raise Unsupported("location of another point")
    r = e.fresh_int("xy2ij", "i32")
    e.assume((r != 0) == e.ok, e.reach[e.cur])
    e.store(st, av[3], e.ci, "i32")
    e.store(st, av[4], e.cj, "i32")
    return r


def engine(module, tag, fn="gridmap_xy2fij"):
    return Engine(module, fn, {"gridmap_xy2ij": located}, tag=tag, arith="real", unroll=2)


def start(e, kind, sign=None):
    st = State()
    e.gm, e.n1, e.n2, e.X, e.Y = gmap(e, st, kind)
    e.x, e.y = e.dfacts(z3.Const("x", F)), e.dfacts(z3.Const("y", F))
    e.ok, e.ci, e.cj = z3.Bool("located"), z3.Int("cell_i"), z3.Int("cell_j")
    e.assume(If(e.ok, z3.And(e.ci >= 0, e.ci < e.n1, e.cj >= 0, e.cj < e.n2, isfin(e.x), isfin(e.y)), z3.And(e.ci == -1, e.cj == -1)))
    for A in (e.X, e.Y):
        for q in corners(e):
            e.assume(z3.Implies(e.ok, isfin(e.dfacts(A[q]))))
    if sign is not None:
        setf(e, st, e.gm, "gridmap.sign", ival(sign), "i32")
    e.outs = [outcell(e, st, "out" + w) for w in "ij"]
    return st, [to(e.gm), e.x, e.y, to(e.outs[0]), to(e.outs[1])]


def corners(e):
    i, j = e.ci, e.cj
    return [(simp(j + m), simp(i + k)) for m, k in ((0, 0), (0, 1), (1, 0), (1, 1))]


def safe(kind):
    """Failure gives NaN, success an index inside the located cell; nothing but the branch is touched."""
    def build(module, tag=""):
        e = engine(module, tag)

        def setup(e):
            st, args = start(e, kind)
            e.s0 = e.getmem(st, e.gm, "gridmap.sign", "i32")
            return st, args

        def finish(e, st, ret):
            fi, fj = [e.getmem(st, o, "@double", "double")[0] for o in e.outs]
            e.oblige("post", Implies(Not(e.ok), ret == 0), "points outside the grid are reported as failure")
            e.oblige("post", Implies(ret == 0, And(isnan(fi), isnan(fj))), "failure leaves NaN in both indices")
            for f, c, w in ((fi, e.ci, "i"), (fj, e.cj, "j")):
                e.oblige("post", Implies(ret != 0, And(isfin(f), num(f) >= z3.ToReal(c), num(f) < z3.ToReal(c) + 1)), "success gives an index %s within the located cell" % w)
            s1 = e.getmem(st, e.gm, "gridmap.sign", "i32")
            e.oblige("post", Implies(e.s0 != 0, s1 == e.s0), "a branch once chosen is kept")
            e.oblige("post", And(s1 >= -1, s1 <= 1), "the branch is -1, 0 or 1")
            untouched(e, st, e.outs + [e.gm])
        e.run(setup, finish)
        return e
    return build


def inverse(kind, case):
    """Every point of the cell is mapped to the indices it comes from (up to the clamp below the upper
    end).  case: 0 for a vanishing quadratic term, 1 and -1 for the branch in use."""
    def build(module, tag=""):
        e = engine(module, tag)
        e.prune = True

        def setup(e):
            st, args = start(e, kind, case if case else 1)
            if not case:
                # any branch may be on record
                s0 = z3.Int("sign0")
                e.assume(z3.And(s0 >= -1, s0 <= 1))
                setf(e, st, e.gm, "gridmap.sign", s0, "i32")
            e.assume(e.ok)
            a, b, c, d, e_, f, g, h = NOD
            if not case:
                t = z3.Real("t")
                a, e_ = t * b, t * f            # a f - b e = 0 and (b, f) != 0
                e.assume(z3.Or(b != 0, f != 0))
            q = corners(e)
            for A, (k, l, m, n) in ((e.X, (a, b, c, d)), (e.Y, (e_, f, g, h))):
                for pos, v in zip(q, (n, l + n, m + n, k + l + m + n)):
                    t_ = A[pos]
                    e.keep.append(t_)
                    e.rv[t_.get_id()] = ((), v)
                    e.assume(z3.And(num(t_) == v, isfin(t_)))
            for t_, (k, l, m, n) in ((e.x, (a, b, c, d)), (e.y, (e_, f, g, h))):
                v = k * U * V + l * U + m * V + n
                e.rv[t_.get_id()] = ((), v)
                e.assume(num(t_) == v)
            e.assume(z3.And(U >= 0, U <= 1, V >= 0, V <= 1))
            A, B_ = a * f - b * e_, (b * e_ - a * f) * U + (c * e_ - a * g) * V + c * f - b * g
            Q = 2 * A * U + B_
            e.quotients = [U, V, z3.RealVal(0)]
            e.roots = [Q * case] if case else []
            nz = lambda p: z3.simplify(p, som=True) != 0
            if case:
                e.assume(z3.Or(z3.simplify(A, som=True) >= EPS0, z3.simplify(A, som=True) <= -EPS0))
                e.assume(z3.simplify(case * Q, som=True) >= 0)
            else:
                e.assume(nz(B_))
            d1, d2 = a * U + c, e_ * U + g
            e.assume(z3.Or(nz(d1), nz(d2)))
            return st, args

        def finish(e, st, ret):
            fi, fj = [e.getmem(st, o, "@double", "double")[0] for o in e.outs]
            e.oblige("post", ret != 0, "a point of the cell is mapped")
            for f, c, W, w in ((fi, e.ci, U, "i"), (fj, e.cj, V, "j")):
                e.oblige("post", isfin(f), "index %s is a number" % w)
                e.oblige("post", Implies(isfin(f), num(f) == z3.ToReal(c) + z3.If(W >= 1, TOP, W)), "index %s is the one the point comes from" % w)
        e.run(setup, finish)
        return e
    return build


def first(kind, s, regular=True):
    """The first point of a cell chooses the branch that solves the cell (s: 1 or -1, opposite to the sign of
    the Jacobian), and is itself mapped to the indices it comes from.

    The other root W of the quadratic is the U of another pair (W, V2) mapped to the same point; the Jacobian is
    of opposite sign there, so that this pair is not in the cell.  With p = b + aV, q = f + eV, W being the other
    root means that (p, q) is t times (c + aW, g + eW), or (not regular) that the latter vanishes."""
    def build(module, tag=""):
        e = engine(module, tag)
        e.prune = e.infinities = True
        A0, e0, c, g, d, h, W, t = z3.Reals("a e c g d h W t")
        a, e_ = A0, e0
        if regular:
            b, f = t * (c + W * a) - a * V, t * (g + W * e_) - e_ * V
        else:
            b, f = z3.Reals("b f")
            c, g = -W * a, -W * e_
        V2 = V + t * (U - W)
        jac = lambda u, v: (b + a * v) * (e_ * u + g) - (f + e_ * v) * (a * u + c)

        def setup(e):
            st, args = start(e, kind, 0)
            e.assume(e.ok)
            q = corners(e)
            for M, (k, l, m, n) in ((e.X, (a, b, c, d)), (e.Y, (e_, f, g, h))):
                for pos, v in zip(q, (n, l + n, m + n, k + l + m + n)):
                    t_ = M[pos]
                    e.keep.append(t_)
                    e.rv[t_.get_id()] = ((), v)
                    e.assume(z3.And(num(t_) == v, isfin(t_)))
            for t_, (k, l, m, n) in ((e.x, (a, b, c, d)), (e.y, (e_, f, g, h))):
                v = k * U * V + l * U + m * V + n
                e.rv[t_.get_id()] = ((), v)
                e.assume(num(t_) == v)
            e.assume(z3.And(U >= 0, U <= 1, V >= 0, V <= 1))
            A = a * f - b * e_
            Q = A * (U - W)
            e.quotients = [U, W, V, V2, z3.RealVal(0)] if regular else [U, W, V, z3.RealVal(0)]
            e.roots = [Q * s]
            som = lambda p: z3.simplify(p, som=True)
            e.assume(z3.Or(som(A) >= EPS0, som(A) <= -EPS0))
            # the Jacobian has one sign in the cell: at (U, V), and at (W, V2) if that is in the cell
            inside = lambda u, v: z3.And(u >= 0, u <= 1, v >= 0, v <= 1)
            e.assume(som(-s * jac(U, V)) > 0)
            if regular:
                e.assume(z3.Implies(inside(W, som(V2)), som(-s * jac(W, V2)) > 0))
            else:
                e.assume(z3.Not(z3.And(W >= 0, W <= 1)))      # it vanishes there for all v
            # no line of constant u in the cell is shorter than 1e-5
            for u in (U, W):
                d1, d2 = som(a * u + c), som(e_ * u + g)
                e.assume(z3.Implies(z3.And(u >= 0, u <= 1), z3.Or(d1 >= EPS0, d1 <= -EPS0, d2 != 0)))
            return st, args
        store = e.store

        def chosen(st, ptr, v, ty):
            if ty == "i32" and only_obj(ptr) == e.gm:
                e.oblige("lemma", v == s, "the first point chooses the branch that solves the cell")
                v = ival(s)
            store(st, ptr, v, ty)
        e.store = chosen

        def finish(e, st, ret):
            fi, fj = [e.getmem(st, o, "@double", "double")[0] for o in e.outs]
            e.oblige("post", ret != 0, "a point of the cell is mapped")
            e.oblige("post", e.getmem(st, e.gm, "gridmap.sign", "i32") == s, "the branch that solves the cell is kept")
            for f_, c_, w_, w in ((fi, e.ci, U, "i"), (fj, e.cj, V, "j")):
                e.oblige("post", isfin(f_), "index %s is a number" % w)
                e.oblige("post", Implies(isfin(f_), num(f_) == z3.ToReal(c_) + z3.If(w_ >= 1, TOP, w_)), "index %s is the one the point comes from" % w)
        e.run(setup, finish)
        return e
    return build
