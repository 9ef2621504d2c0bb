"""C15 (point in polygon), C16 (editing), C17 (thinning, reversal, compaction)."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg import contracts as C

KP = {"poly_create", "poly_destroy", "poly_addpoint", "poly_addpointat", "poly_append", "poly_clear", "poly_close", "poly_containspoint", "poly_copy", "poly_deletepoint",
      "poly_despike", "poly_formbound", "poly_formboundij", "poly_read", "poly_resample", "poly_reverse", "poly_write", "poly_compact", "poly_findindex"}
MAXP = 2 ** 28
DMAX = (2.0 - 2.0 ** -52) * 2.0 ** 1023
EXT = (("xmin", "X", 1), ("ymin", "Y", 1), ("xmax", "X", -1), ("ymax", "Y", -1))
k_ = z3.Int("k")


class Poly:
    """A polyline structure; X(st), Y(st) are the coordinate arrays, n(st) the number of points."""

    def __init__(p, e, obj):
        p.e, p.obj = e, obj

    def f(p, st, name, ty="i32"):
        return p.e.getmem(st, p.obj, "poly." + name, ty)

    def n(p, st):
        return p.f(st, "n")

    def na(p, st):
        return p.f(st, "nallocated")

    def aobj(p, st, w):
        """The array object behind x or y (None unless it is one whole array)."""
        v = p.f(st, w.lower(), "ptr")
        if len(v.alts) != 1 or v.alts[0][1] is None:
            return None
        t = v.alts[0][1]
        if st.desc[t.obj].kind == "raw" and not t.path:
            p.e.retype(st, t.obj, "double")
        if st.desc[t.obj].kind != "arr" or t.path or not is_true(simp(t.col == 0)):
            return None
        return t.obj

    def arr(p, st, w):
        o = p.aobj(st, w)
        return None if o is None else p.e.getmem(st, o, "@double", "double")

    def ext(p, st, f):
        return p.f(st, "e." + f, "double")


def mkpoly(e, st, name="pl", minn=0, ro=False):
    o = mkstruct(e, st, name, "poly", fresh=True)
    p = Poly(e, o)
    n, na = z3.Int(name + ".n"), z3.Int(name + ".na")
    e.assume(z3.And(n >= minn, n <= na, na >= 1, na <= MAXP))
    setf(e, st, o, "poly.n", n, "i32")
    setf(e, st, o, "poly.nallocated", na, "i32")
    for w in "XY":
        a = e.mkobj(st, "%s.%s" % (name, w), Desc("arr", "double", n=na, fresh=True, ro=ro))
        A = e.fresh("%s.%s" % (name, w), A1["double"])
        st.mem[(a, "@double")] = A
        setf(e, st, o, "poly." + w.lower(), to(a), "ptr")
        e.assume(z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n), isfin(A[k_])), patterns=[A[k_]]))
    e.wits = getattr(e, "wits", {})
    for f, w, sg in EXT:
        v = e.dfacts(z3.Const("%s.e.%s" % (name, f), F))
        setf(e, st, o, "poly.e." + f, v, "double")
        wit = z3.Int("%s.w.%s" % (name, f))
        e.wits[(name, f)] = wit
        A = p.arr(st, w)
        e.assume(isfin(v))
        e.assume(z3.Implies(n == 0, num(v) == num(e.dval(sg * DMAX))))
        e.assume(z3.Implies(n > 0, z3.And(wit >= 0, wit < n, num(A[wit]) == num(v))))
        e.assume(z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n), sg * num(v) <= sg * num(A[k_])), patterns=[A[k_]]))
    return p


def exact_extent(e, st, p, what, wits=()):
    """The extent is the bounding box of the points (and cleared when there is none)."""
    n = p.n(st)
    for f, w, sg in EXT:
        A, v = p.arr(st, w), p.ext(st, f)
        if A is None:
            e.oblige("post", FALSE, "%s: the points are held in one array" % what)
            return
        e.oblige("post", Implies(n == 0, And(isfin(v), num(v) == num(e.dval(sg * DMAX)))), "%s: %s cleared without points" % (what, f))
        e.oblige("post", z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n), z3.And(isfin(v), sg * num(v) <= sg * num(A[k_]))), patterns=[A[k_]]), "%s: %s bounds the points" % (what, f))
        ws = [x(f) if callable(x) else x for x in wits]
        e.oblige("post", Implies(n > 0, Or(*[And(x >= 0, x < n, num(A[x]) == num(v)) for x in ws],
                                           Not(z3.ForAll([k_], Not(z3.And(k_ >= 0, k_ < n, num(A[k_]) == num(v))), patterns=[A[k_]])))), "%s: %s is attained" % (what, f))


def wf(e, st, p, what):
    """Class invariant of the storage."""
    n, na = p.n(st), p.na(st)
    objs = [p.aobj(st, w) for w in "XY"]
    if None in objs or objs[0] == objs[1]:
        e.oblige("post", FALSE, "%s: two arrays hold the coordinates" % what)
        return
    e.oblige("post", And(n >= 0, n <= na, na >= 1), "%s: number of points within the storage" % what)
    for o in objs:
        d = st.desc[o]
        e.oblige("post", And(d.n >= na, st.alive.get(o, T), z3.BoolVal(bool(d.fresh))), "%s: storage suffices and is owned" % what)


def content(e, st, p, what, n, fx):
    """n points; coordinate w of point k is fx(w, k) -- an F term or a list of (condition, term)."""
    e.oblige("post", p.n(st) == n, "%s: number of points" % what)
    for w in "XY":
        A = p.arr(st, w)
        if A is None:
            e.oblige("post", FALSE, "%s: the points are held in one array" % what)
            return
        alts = fx(w, k_)
        alts = alts if isinstance(alts, list) else [(T, alts)]
        e.oblige("post", z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n), And(*[Implies(c, A[k_] == v) for c, v in alts])), patterns=[A[k_]]), "%s: %s of every point" % (what, w.lower()))


def frame(e, st, p, what):
    """Another polyline is left alone."""
    st0 = e.st0
    for f, ty in (("n", "i32"), ("nallocated", "i32")):
        e.oblige("post", p.f(st, f, ty) == p.f(st0, f, ty), "%s: %s unchanged" % (what, f))
    for w in "XY":
        same = p.aobj(st, w) == p.aobj(st0, w)
        e.oblige("post", z3.BoolVal(same), "%s: storage in place" % what)
        if same:
            e.oblige("post", And(p.arr(st, w) == p.arr(st0, w), st.alive.get(p.aobj(st, w), T)), "%s: points unchanged" % what)
    for f, w, sg in EXT:
        e.oblige("post", p.ext(st, f) == p.ext(st0, f), "%s: extent unchanged" % what)


# ---------------------------------------------------------------- contracts for callers
def addpoint_c(e, i, av):
    """poly_addpoint: proved by task poly_addpoint."""
    st = e.st
    p = Poly(e, C.only_obj(av[0]))
    x, y = av[1:]
    n, na = p.n(st), p.na(st)
    objs = [p.aobj(st, w) for w in "XY"]
    if None in objs:
        raise Unsupported("poly_addpoint: unusual storage")
    C.may_quit(e, Or(isnan(x), isnan(y)), "poly_addpoint refuses NaN")
    e.oblige("pre", And(n >= 0, n <= na, na >= 1, na <= 2 ** 29, *[And(st.desc[o].n >= na, st.alive.get(o, T)) for o in objs]), "poly_addpoint: well-formed polyline")
    nn = e.fresh("na", I)
    e.assume(nn == z3.If(n == na, 2 * na, na))
    for w, o, v in (("x", objs[0], x), ("y", objs[1], y)):
        A = e.getmem(st, o, "@double", "double")
        q = e.mkobj(st, "grown." + w, Desc("arr", "double", n=nn, fresh=True))
        e.reallocof[q] = e.root(o)
        st.alive[q] = T
        st.alive[o] = FALSE
        st.mem[(q, "@double")] = z3.Store(A, n, v)
        setf(e, st, p.obj, "poly." + w, to(q), "ptr")
    setf(e, st, p.obj, "poly.n", n + 1, "i32")
    setf(e, st, p.obj, "poly.nallocated", nn, "i32")
    for f, w, sg in EXT:
        v = x if w == "X" else y
        old = p.ext(st, f)
        e.dfacts(v)
        e.dfacts(old)
        setf(e, st, p.obj, "poly.e." + f, z3.If(sg * num(v) < sg * num(old), v, old), "double")
    return None


def create_c(e, i, av):
    """poly_create: proved by task poly_create."""
    st = e.st
    o = e.mkobj(st, "poly" + i.res, Desc("struct", ("named", "struct.poly"), fresh=True))
    st.alive[o] = T
    na = e.fresh("na", I)
    e.assume(z3.And(na >= 1, na <= 1024))
    setf(e, st, o, "poly.n", ival(0), "i32")
    setf(e, st, o, "poly.nallocated", na, "i32")
    for w in "XY":
        a = e.mkobj(st, "points%s.%s" % (i.res, w), Desc("arr", "double", n=na, fresh=True))
        st.alive[a] = T
        st.mem[(a, "@double")] = e.fresh("pts" + w, A1["double"])
        setf(e, st, o, "poly." + w.lower(), to(a), "ptr")
    for f, w, sg in EXT:
        setf(e, st, o, "poly.e." + f, e.dval(sg * DMAX), "double")
    return to(o)


CON = {"poly_addpoint": addpoint_c, "poly_create": create_c}


def engine(module, fn, tag, drop=(), arith="real"):
    e = Engine(module, fn, {k: v for k, v in CON.items() if k not in drop and k != fn}, tag=tag, arith=arith)
    return e


def extent_inv(e, L, st, add):
    """Loops that rebuild an extent: it is that of the points visited so far."""
    polys = [o for o, d in st.desc.items() if d.kind == "struct" and d.elem == ("named", "struct.poly")]
    for o in polys:
        p = Poly(e, o)
        for f, w, sg in EXT:
            for ph in L.phis:
                if ph.step != 1:
                    continue

                def bound(s, p=p, f=f, w=w, sg=sg, ph=ph):
                    A = p.arr(s, w)
                    v = p.ext(s, f)
                    return None if A is None else z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < ph.cur), z3.And(isfin(v), sg * num(v) <= sg * num(A[k_]))), patterns=[A[k_]])

                def attained(s, p=p, f=f, w=w, sg=sg, ph=ph):
                    A, v = p.arr(s, w), p.ext(s, f)
                    return None if A is None else And(isfin(v), z3.Or(z3.And(ph.cur <= 0, num(v) == num(e.dval(sg * DMAX))), Not(z3.ForAll([k_], Not(z3.And(k_ >= 0, k_ < ph.cur, num(A[k_]) == num(v))), patterns=[A[k_]]))))
                add("%s bounds below %s" % (f, ph.name), bound)
                add("%s attained below %s" % (f, ph.name), attained)


# ---------------------------------------------------------------- C16
def addpoint(module, tag=""):
    e = engine(module, "poly_addpoint", tag)

    def setup(e):
        st = State()
        e.p = mkpoly(e, st)
        e.x, e.y = e.dfacts(z3.Const("x", F)), e.dfacts(z3.Const("y", F))
        e.assume(z3.And(z3.Or(isnan(e.x), isfin(e.x)), z3.Or(isnan(e.y), isfin(e.y))))
        e.quit_ok = lambda e, st: Or(isnan(e.x), isnan(e.y))
        return st, [to(e.p.obj), e.x, e.y]

    def finish(e, st, ret):
        p, n0 = e.p, e.p.n(e.st0)
        e.oblige("post", And(Not(isnan(e.x)), Not(isnan(e.y))), "NaN is refused")
        A0 = {w: p.arr(e.st0, w) for w in "XY"}
        content(e, st, p, "append", n0 + 1, lambda w, k: [(k < n0, A0[w][k]), (k == n0, e.x if w == "X" else e.y)])
        wf(e, st, p, "append")
        exact_extent(e, st, p, "append", [n0, lambda f: e.wits[("pl", f)]])
        for f, w, sg in EXT:
            v, old = (e.x if w == "X" else e.y), p.ext(e.st0, f)
            e.oblige("post", num(p.ext(st, f)) == z3.If(sg * num(v) < sg * num(old), num(v), num(old)), "append: %s is extended by the point" % f)
    e.run(setup, finish)
    return e


def addpointat(module, tag=""):
    e = engine(module, "poly_addpointat", tag)

    def setup(e):
        st = State()
        e.p = mkpoly(e, st)
        e.x, e.y = e.dfacts(z3.Const("x", F)), e.dfacts(z3.Const("y", F))
        e.assume(z3.And(isfin(e.x), isfin(e.y)))
        e.ix = e.fresh_int("index")
        e.assume(e.ix >= 0)
        return st, [to(e.p.obj), e.ix, e.x, e.y]

    def finish(e, st, ret):
        p, n0 = e.p, e.p.n(e.st0)
        A0 = {w: p.arr(e.st0, w) for w in "XY"}
        at = z3.If(e.ix > n0, n0, e.ix)
        content(e, st, p, "insert", n0 + 1, lambda w, k: [(k < at, A0[w][k]), (k == at, e.x if w == "X" else e.y), (k > at, A0[w][k - 1])])
        wf(e, st, p, "insert")
        exact_extent(e, st, p, "insert", [at, lambda f: e.wits[("pl", f)], lambda f: e.wits[("pl", f)] + 1])
    e.run(setup, finish)
    return e


def deletepoint(module, tag=""):
    e = engine(module, "poly_deletepoint", tag)
    e.loopinv = lambda e_, L, st, add: extent_inv(e, L, st, add)

    def setup(e):
        st = State()
        e.p = mkpoly(e, st, minn=1)
        e.ix = e.fresh_int("index")
        e.assume(z3.And(e.ix >= 0, e.ix < e.p.n(st)))
        return st, [to(e.p.obj), e.ix]

    def finish(e, st, ret):
        p, n0 = e.p, e.p.n(e.st0)
        A0 = {w: p.arr(e.st0, w) for w in "XY"}
        content(e, st, p, "delete", n0 - 1, lambda w, k: [(k < e.ix, A0[w][k]), (k >= e.ix, A0[w][k + 1])])
        wf(e, st, p, "delete")
        exact_extent(e, st, p, "delete", [lambda f: e.wits[("pl", f)], lambda f: e.wits[("pl", f)] - 1])
    e.run(setup, finish)
    return e


def append(module, tag=""):
    e = engine(module, "poly_append", tag)

    def inv(e_, L, st, add):
        extent_inv(e, L, st, add)
        p = e.p
        add("storage grows", lambda s: And(p.na(s) >= p.na(e.st0), p.na(s) <= 2 ** 30))
        add("storage bounded", lambda s: Or(p.na(s) == p.na(e.st0), p.na(s) < 2 * (p.n(e.st0) + e.q.n(e.st0))))
        for ph in L.phis:
            add("flag %s" % ph.name, lambda s, ph=ph: z3.Or(z3.And(ph.cur == ph.init, p.na(s) == p.na(e.st0)), z3.And(ph.cur != ph.init, p.na(s) > p.na(e.st0))))
            add("storage is %s" % ph.name, lambda s, ph=ph: ph.cur == p.na(s))
            add("%s bounded" % ph.name, lambda s, ph=ph: z3.And(ph.cur >= p.na(e.st0), z3.Or(ph.cur == p.na(e.st0), ph.cur < 2 * (p.n(e.st0) + e.q.n(e.st0)))))
    e.loopinv = inv

    def setup(e):
        st = State()
        e.p = mkpoly(e, st, "pl1")
        e.q = mkpoly(e, st, "pl2", ro=True)
        return st, [to(e.p.obj), to(e.q.obj)]

    def finish(e, st, ret):
        p, q = e.p, e.q
        n1, n2 = p.n(e.st0), q.n(e.st0)
        A, Bq = {w: p.arr(e.st0, w) for w in "XY"}, {w: q.arr(e.st0, w) for w in "XY"}
        content(e, st, p, "concatenate", n1 + n2, lambda w, k: [(k < n1, A[w][k]), (k >= n1, Bq[w][k - n1])])
        wf(e, st, p, "concatenate")
        exact_extent(e, st, p, "concatenate", [lambda f: e.wits[("pl1", f)], lambda f: e.wits[("pl2", f)] + n1])
        frame(e, st, q, "concatenate: second polyline")
    e.run(setup, finish)
    return e


def clear(module, tag=""):
    e = engine(module, "poly_clear", tag)

    def setup(e):
        st = State()
        e.p = mkpoly(e, st)
        return st, [to(e.p.obj)]

    def finish(e, st, ret):
        content(e, st, e.p, "clear", ival(0), lambda w, k: [])
        wf(e, st, e.p, "clear")
        exact_extent(e, st, e.p, "clear")
    e.run(setup, finish)
    return e


def result_poly(e, st, ret, what):
    if len(ret.alts) != 1 or ret.alts[0][1] is None or st.desc[ret.alts[0][1].obj].kind not in ("struct", "raw"):
        e.oblige("post", FALSE, "%s: the result is a polyline" % what)
        return None
    o = ret.alts[0][1].obj
    e.oblige("post", And(z3.BoolVal(bool(st.desc[o].fresh)), st.alive.get(o, T)), "%s: the result is a new object" % what)
    return Poly(e, o)


def copy(module, tag=""):
    e = engine(module, "poly_copy", tag)
    e.loopinv = lambda e_, L, st, add: extent_inv(e, L, st, add)

    def setup(e):
        st = State()
        e.p = mkpoly(e, st, ro=True)
        return st, [to(e.p.obj)]

    def finish(e, st, ret):
        p = e.p
        q = result_poly(e, st, ret, "copy")
        if q is None:
            return
        content(e, st, q, "copy", p.n(e.st0), lambda w, k: p.arr(e.st0, w)[k])
        wf(e, st, q, "copy")
        exact_extent(e, st, q, "copy", [lambda f: e.wits[("pl", f)]])
        objs = [q.aobj(st, w) for w in "XY"] + [p.aobj(e.st0, w) for w in "XY"] + [p.obj, q.obj]
        e.oblige("post", z3.BoolVal(len(set(objs)) == 6), "copy: shares no storage with the original")
        frame(e, st, p, "copy: original")
    e.run(setup, finish)
    return e


def create(module, tag=""):
    e = engine(module, "poly_create", tag)

    def setup(e):
        return State(), []

    def finish(e, st, ret):
        q = result_poly(e, st, ret, "create")
        if q is None:
            return
        content(e, st, q, "create", ival(0), lambda w, k: [])
        wf(e, st, q, "create")
        e.oblige("post", q.na(st) <= 1024, "create: storage is small")
        exact_extent(e, st, q, "create")
    e.run(setup, finish)
    return e


def close(module, tag=""):
    e = engine(module, "poly_close", tag)

    def setup(e):
        st = State()
        e.p = mkpoly(e, st)
        return st, [to(e.p.obj)]

    def finish(e, st, ret):
        p, n0 = e.p, e.p.n(e.st0)
        A0 = {w: p.arr(e.st0, w) for w in "XY"}
        closed = And(n0 > 1, *[num(A0[w][0]) == num(A0[w][n0 - 1]) for w in "XY"])
        n1 = z3.If(z3.Or(n0 == 0, closed), n0, n0 + 1)
        content(e, st, p, "close", n1, lambda w, k: [(k < n0, A0[w][k]), (k == n0, A0[w][0])])
        wf(e, st, p, "close")
        exact_extent(e, st, p, "close", [lambda f: e.wits[("pl", f)]])
    e.run(setup, finish)
    return e


def destroy(module, tag=""):
    e = engine(module, "poly_destroy", tag)

    def setup(e):
        st = State()
        e.p = mkpoly(e, st)
        return st, [to(e.p.obj)]

    def finish(e, st, ret):
        for o in [e.p.obj] + [e.p.aobj(e.st0, w) for w in "XY"]:
            e.oblige("post", Not(st.alive.get(o, T)), "destroy: everything is released")
    e.run(setup, finish)
    return e


KEEP = KP


# ---------------------------------------------------------------- C17
def coincide(A, B_, a, b, eps):
    """points a and b of (A, B_) are within eps in both coordinates"""
    dx, dy = num(A[a]) - num(A[b]), num(B_[a]) - num(B_[b])
    E = num(eps)
    return z3.And(dx <= E, -dx <= E, dy <= E, -dy <= E)


def apart(A, B_, a, b, eps):
    return z3.Not(coincide(A, B_, a, b, eps))


def near(A, B_, a, b, d):
    return z3.And(num(d) > 0, Engine.D2(A[a], B_[a], A[b], B_[b]) < num(d) * num(d))


def counters(L):
    """phis and, for an index that moves by one per turn, its value minus one"""
    return [p for p in L.phis if p.ty != "ptr"]


def thin(fn, passes):
    """The result holds point 0 and then, greedily, each point that passes against the last kept one."""
    def build(module, tag=""):
        e = engine(module, fn, tag)
        LAST, CNT = z3.Function("lastkept", I, I), z3.Function("nkept", I, I)

        def defs(i):
            """definition of the kept points up to i (i > 0), from those up to i-1"""
            A, B_ = e.A0["X"], e.A0["Y"]
            ok = passes(A, B_, LAST(i - 1), i, e.eps)
            return z3.And(LAST(i) == z3.If(ok, i, LAST(i - 1)), CNT(i) == z3.If(ok, CNT(i - 1) + 1, CNT(i - 1)))

        def setup(e):
            st = State()
            e.p = p = mkpoly(e, st)
            e.eps = e.dfacts(z3.Const("eps", F))
            e.assume(isfin(e.eps))
            e.A0 = {w: p.arr(st, w) for w in "XY"}
            e.assume(z3.And(LAST(0) == 0, CNT(0) == 0))
            return st, [to(p.obj), e.eps]

        def inv(e_, L, st, add):
            extent_inv(e, L, st, add)
            p, A0 = e.p, e.A0
            n0 = p.n(e.st0)
            for q in counters(L):
                if q.step != 1:
                    continue
                e.glob.append(z3.Implies(q.val > 0, defs(q.val)))
                e.glob.append(z3.Implies(q.val >= 0, defs(q.val + 1)))
                for off in (1, 0):
                    lst = lambda q=q, off=off: q.cur - off
                    for c in counters(L):
                        if c is q or c.step is not None:
                            continue
                        for o2 in (0, 1):
                            add("%s counts the kept points" % c.name, lambda s, c=c, lst=lst, o2=o2: c.cur == CNT(lst()) + o2)
                        add("%s is the last kept point" % c.name, lambda s, c=c, lst=lst: c.cur == LAST(lst()))
                    add("kept points are behind", lambda s, lst=lst: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= lst()), z3.And(CNT(k_) >= 0, CNT(k_) <= k_, CNT(k_) <= CNT(lst()), LAST(k_) >= 0, LAST(k_) <= k_)), patterns=[CNT(k_), LAST(k_)]))
                    for w in "XY":
                        def kept(s, w=w, lst=lst):
                            A = p.arr(s, w)
                            return None if A is None else z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= lst()), A[CNT(k_)] == A0[w][LAST(k_)]), patterns=[CNT(k_), LAST(k_)])

                        def rest(s, w=w, lst=lst):
                            A = p.arr(s, w)
                            return None if A is None else z3.ForAll([k_], z3.Implies(z3.And(k_ > lst(), k_ < n0), A[k_] == A0[w][k_]), patterns=[A[k_]])
                        def finite(s, w=w):
                            A = p.arr(s, w)
                            return None if A is None else z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n0), isfin(A[k_])), patterns=[A[k_]])
                        add("%s finite" % w, finite)
                        add("%s kept" % w, kept)
                        add("%s ahead unchanged" % w, rest)
                    add("all kept", lambda s, lst=lst: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= lst(), CNT(lst()) == lst()), z3.And(CNT(k_) == k_, LAST(k_) == k_)), patterns=[CNT(k_), LAST(k_), A0["X"][k_], A0["Y"][k_]]))
                    add("kept distinct", lambda s, lst=lst: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= lst(), CNT(k_) == CNT(lst())), LAST(k_) == LAST(lst())), patterns=[z3.MultiPattern(CNT(k_), LAST(k_))]))
        e.loopinv = inv

        def finish(e, st, ret):
            p, n0 = e.p, e.p.n(e.st0)
            what = "thinning"
            e.oblige("post", Implies(n0 == 0, p.n(st) == 0), "%s: an empty polyline stays empty" % what)
            e.oblige("post", Implies(n0 > 0, p.n(st) == CNT(n0 - 1) + 1), "%s: number of points kept" % what)
            for w in "XY":
                A = p.arr(st, w)
                if A is None:
                    e.oblige("post", FALSE, "%s: the points are held in one array" % what)
                    return
                e.oblige("post", z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n0), A[CNT(k_)] == e.A0[w][LAST(k_)]), patterns=[LAST(k_), CNT(k_)]), "%s: %s of the points kept" % (what, w.lower()))
            wf(e, st, p, what)
            exact_extent(e, st, p, what, [lambda f: e.wits[("pl", f)]])
        e.run(setup, finish)
        return e
    return build


resample = thin("poly_resample", apart)
despike = thin("poly_despike", near)


def reverse(module, tag=""):
    e = engine(module, "poly_reverse", tag)

    def setup(e):
        st = State()
        e.p = mkpoly(e, st)
        e.A0 = {w: e.p.arr(st, w) for w in "XY"}
        return st, [to(e.p.obj)]

    def inv(e_, L, st, add):
        n0 = e.p.n(e.st0)
        extent_inv(e, L, st, add)
        for q in counters(L):
            if q.step not in (1, -1):
                continue
            low = lambda q=q: q.cur if q.step == 1 else n0 - 1 - q.cur
            for w in "XY":
                def f(s, w=w, low=low):
                    A = e.p.arr(s, w)
                    if A is None:
                        return None
                    return z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n0), A[k_] == z3.If(z3.Or(k_ < low(), k_ > n0 - 1 - low()), e.A0[w][n0 - 1 - k_], e.A0[w][k_])), patterns=[A[k_]])
                add("%s reversed outside %s" % (w, q.name), f)
    e.loopinv = inv

    def finish(e, st, ret):
        p, n0 = e.p, e.p.n(e.st0)
        content(e, st, p, "reverse", n0, lambda w, k: e.A0[w][n0 - 1 - k])
        wf(e, st, p, "reverse")
        exact_extent(e, st, p, "reverse", [lambda f: n0 - 1 - e.wits[("pl", f)]])
    e.run(setup, finish)
    return e


def compact(module, tag=""):
    """Points that coincide with the next distinct one, or lie on one line with the last kept and the
    next distinct point, are dropped; the others are kept in order."""
    e = engine(module, "poly_compact", tag)
    LEFT, MID, CNT = [z3.Function(n, I, I) for n in ("lastkept", "current", "nkept")]
    L0 = z3.Int("initial_left")
    KEPT = z3.Function("kept", I, B)
    apart_ = lambda a, b: apart(e.A0["X"], e.A0["Y"], a, b, e.eps)

    def online(l, m, r):
        X, Y = (lambda i: num(e.A0["X"][i])), (lambda i: num(e.A0["Y"][i]))
        c = z3.simplify((X(l) - X(m)) * (Y(r) - Y(m)) - (X(r) - X(m)) * (Y(l) - Y(m)), som=True)
        return z3.And(c <= num(e.eps), -c <= num(e.eps))

    def step(i, l, m, r):
        keep = z3.And(apart_(r, m), z3.Not(online(l, m, r)))
        return z3.And(KEPT(i) == keep, MID(i + 1) == z3.If(apart_(r, m), r, m), LEFT(i + 1) == z3.If(keep, m, l), CNT(i + 1) == z3.If(keep, CNT(i) + 1, CNT(i)))

    def nxt(i, n):
        return z3.If(i + 1 == n, 0, i + 1)

    def setup(e):
        st = State()
        e.p = p = mkpoly(e, st)
        e.eps = e.dfacts(z3.Const("eps", F))
        e.assume(isfin(e.eps))
        e.A0 = {w: p.arr(st, w) for w in "XY"}
        n = p.n(st)
        e.assume(z3.And(LEFT(0) == L0, MID(0) == 0, CNT(0) == 0))
        e.assume(z3.Implies(n > 0, z3.And(L0 >= 0, L0 < n, z3.Or(L0 == 0, apart_(L0, 0)))))
        e.assume(z3.ForAll([k_], z3.Implies(z3.And(k_ > L0, k_ < n), z3.Not(apart_(k_, ival(0)))), patterns=[e.A0["X"][k_], e.A0["Y"][k_]]))
        return st, [to(p.obj), e.eps]

    def inv(e_, L, st, add):
        extent_inv(e, L, st, add)
        p, A0 = e.p, e.A0
        n0 = p.n(e.st0)
        cs = counters(L)
        ints = [o for o, d in st.desc.items() if d.elem == "i32" and d.kind == "arr" and d.fresh]
        raws = [o for o, d in st.desc.items() if d.kind == "raw" and d.fresh]
        for o in raws:
            e.retype(st, o, "i32")
            ints.append(o)
        I_ = lambda s, o: e.getmem(s, o, "@i", "i32")
        for w in "XY":
            def finite(s, w=w):
                A = p.arr(s, w)
                return None if A is None else z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n0), isfin(A[k_])), patterns=[A[k_]])
            add("%s finite" % w, finite)
        for q in cs:
            if q.step == -1 or q.step is None:
                add("%s skips copies of point 0" % q.name, lambda s, q=q: z3.ForAll([k_], z3.Implies(z3.And(k_ > q.cur, k_ < n0), z3.Not(apart_(k_, ival(0)))), patterns=[A0["X"][k_], A0["Y"][k_]]))
            if q.step != 1:
                continue
            i = q.val
            e.glob.append(z3.Implies(i >= 0, step(i, LEFT(i), MID(i), nxt(i, n0))))
            free_ = [c for c in cs if c.step is None]
            # what an index may stand for, told by its value on entry (all are tried if that tells nothing)
            at = lambda v: [c for c in free_ if z3.is_int_value(c.init) and c.init.as_long() == v] or free_
            lasts, curs, nexts = [c for c in free_ if not z3.is_int_value(c.init)] or free_, at(0), at(1)
            for l in lasts:
                add("%s is the last kept" % l.name, lambda s, c=l, q=q: c.cur == LEFT(q.cur))
                for m in curs:
                    for r in nexts:
                        if len({l.name, m.name, r.name}) == 3:
                            e.glob.append(z3.Implies(z3.And(i >= 0, LEFT(i) == l.val, MID(i) == m.val, nxt(i, n0) == r.val), step(i, l.val, m.val, r.val)))
            for c in curs:
                add("%s is current" % c.name, lambda s, c=c, q=q: c.cur == MID(q.cur))
                add("%s counts the kept" % c.name, lambda s, c=c, q=q: c.cur == CNT(q.cur))
            for c in nexts:
                add("%s is the next" % c.name, lambda s, c=c, q=q: c.cur == z3.If(q.cur < n0 - 1, q.cur + 1, z3.If(q.cur == n0 - 1, 0, 1)))
            add("shape", lambda s, q=q: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= q.cur), z3.And(CNT(k_) >= 0, CNT(k_) <= k_, CNT(k_) <= CNT(q.cur), LEFT(k_) >= 0, LEFT(k_) < n0, MID(k_) >= 0, MID(k_) < n0,
                z3.Implies(k_ < n0, z3.And(MID(k_) <= k_, CNT(k_) <= MID(k_))))), patterns=[CNT(k_), MID(k_), LEFT(k_)]))
            add("all kept", lambda s, q=q: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= q.cur, CNT(q.cur) == q.cur), z3.And(CNT(k_) == k_, z3.Implies(k_ < n0, MID(k_) == k_), z3.Implies(k_ < q.cur, KEPT(k_)))), patterns=[CNT(k_), MID(k_), KEPT(k_)]))
            for o in ints:
                add("%s lists the kept" % o, lambda s, q=q, o=o: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < q.cur, KEPT(k_)), z3.And(CNT(k_) < CNT(q.cur), I_(s, o)[CNT(k_)] == MID(k_))), patterns=[KEPT(k_)]))
                add("%s entries are ahead" % o, lambda s, q=q, o=o: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < CNT(q.cur)), z3.And(I_(s, o)[k_] >= k_, I_(s, o)[k_] < n0)), patterns=[I_(s, o)[k_]]))
                for w in "XY":
                    def moved(s, q=q, w=w, o=o):
                        A = p.arr(s, w)
                        return None if A is None else z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n0), A[k_] == z3.If(k_ < q.cur, A0[w][I_(s, o)[k_]], A0[w][k_])), patterns=[I_(s, o)[k_] if A.eq(A0[w]) else A[k_]])
                    add("%s moved below %s" % (w, q.name), moved)
    e.loopinv = inv

    def finish(e, st, ret):
        p, n0 = e.p, e.p.n(e.st0)
        what = "compaction"
        short = n0 <= 4
        e.oblige("post", Implies(short, p.n(st) == n0), "%s: short polylines keep their points" % what)
        e.oblige("post", Implies(Not(short), p.n(st) == CNT(n0)), "%s: number of points kept" % what)
        for w in "XY":
            A = p.arr(st, w)
            if A is None:
                e.oblige("post", FALSE, "%s: the points are held in one array" % what)
                return
            e.oblige("post", Implies(short, z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n0), A[k_] == e.A0[w][k_]), patterns=[A[k_]])), "%s: %s of short polylines" % (what, w.lower()))
            e.oblige("post", Implies(Not(short), z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n0, KEPT(k_)), A[CNT(k_)] == e.A0[w][MID(k_)]), patterns=[KEPT(k_)])), "%s: %s of the points kept" % (what, w.lower()))
        wf(e, st, p, what)
        exact_extent(e, st, p, what, [lambda f: e.wits[("pl", f)]])
    e.run(setup, finish)
    return e


# ---------------------------------------------------------------- C15
def contains(module, tag=""):
    """Closed even-odd containment: on a segment, or an odd number of segments cross the ray to the right
    (a segment crosses if exactly one end is strictly above the point and it meets the ray)."""
    e = engine(module, "poly_containspoint", tag)
    e.keepdiff = True
    ON, CRS, PAR = z3.Function("onsegment", I, B), z3.Function("crosses", I, B), z3.Function("oddcrossings", I, B)

    def nxt(k):
        return z3.If(k + 1 == e.n, 0, k + 1)

    def rel(k):
        """coordinates of point k relative to the query point"""
        return [num(e.fop("fsub", e.dfacts(e.A0[w][k]), v)) for w, v in (("X", e.x), ("Y", e.y))]

    def defs(k):
        x1, y1 = rel(k)
        x2, y2 = rel(z3.simplify(nxt(k)))
        D = x1 * y2 - x2 * y1
        on = z3.And(D == 0, x1 * x2 <= 0, y1 * y2 <= 0)
        cr = z3.And((y1 > 0) != (y2 > 0), z3.If(y2 > y1, D > 0, D < 0))
        return z3.And(ON(k) == on, CRS(k) == cr, PAR(k + 1) == z3.Xor(PAR(k), CRS(k)))

    def above(k):
        return rel(z3.simplify(z3.If(k == e.n, 0, k)))[1] > 0

    def side(k):
        x, y = rel(z3.simplify(z3.If(k == e.n, 0, k)))
        return z3.If(z3.And(y == 0, x > 0), 1, 0)

    def setup(e):
        st = State()
        e.p = p = mkpoly(e, st)
        e.n = p.n(st)
        e.x, e.y = e.dfacts(z3.Const("x", F)), e.dfacts(z3.Const("y", F))
        e.assume(z3.And(isfin(e.x), isfin(e.y)))
        e.A0 = {w: p.arr(st, w) for w in "XY"}
        e.assume(z3.Not(PAR(0)))
        # lemma: outside the extent no segment is hit and the number of crossings is even
        x, y = num(e.x), num(e.y)
        ex = {f: num(p.ext(st, f)) for f, w, sg in EXT}
        left = x < ex["xmin"]
        outside = z3.Or(left, x > ex["xmax"], y < ex["ymin"], y > ex["ymax"])

        def claim(k):
            return PAR(k) == z3.And(left, z3.Xor(above(k), above(ival(0))))
        kk = e.fresh("kk", I)
        e.lemmadefs = defs(kk)
        e.glob.append(z3.Implies(z3.And(kk >= 0, kk < e.n), e.lemmadefs))
        e.oblige("lemma", Implies(z3.And(outside, e.n > 0), claim(ival(0))), "outside the extent: base")
        e.oblige("lemma", Implies(z3.And(outside, kk >= 0, kk < e.n), Not(ON(kk))), "outside the extent: not on a segment")
        e.oblige("lemma", Implies(z3.And(outside, kk >= 0, kk < e.n, claim(kk)), claim(kk + 1)), "outside the extent: step")
        e.assume(z3.Implies(outside, z3.And(z3.Implies(e.n > 0, z3.Not(PAR(e.n))), z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < e.n), z3.Not(ON(k_))), patterns=[ON(k_)]))))
        return st, [to(p.obj), e.x, e.y]

    def inv(e_, L, st, add):
        for q in counters(L):
            if q.step != 1:
                continue
            e.glob.append(z3.Implies(z3.And(q.val >= 0, q.val < e.n), defs(q.val)))
            add("no segment hit yet", lambda s, q=q: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < q.cur), z3.Not(ON(k_))), patterns=[ON(k_)]))
            for c in counters(L):
                if c.step is None:
                    add("%s counts half crossings" % c.name, lambda s, c=c, q=q: (c.cur - z3.If(PAR(q.cur), 2, 0) - side(q.cur) + side(ival(0))) % 4 == 0)
                    add("%s bounded" % c.name, lambda s, c=c, q=q: z3.And(c.cur <= 2 * q.cur, c.cur >= -2 * q.cur))
    e.loopinv = inv

    def finish(e, st, ret):
        n = e.n
        e.oblige("post", Implies(n < 2, ret == 0), "fewer than two points contain nothing")
        some = Not(z3.ForAll([k_], z3.Not(z3.And(k_ >= 0, k_ < n, ON(k_))), patterns=[ON(k_)]))
        e.oblige("post", Implies(And(n >= 2, ret != 0), Or(PAR(n), some)), "yes only on a segment or with an odd number of crossings")
        e.oblige("post", Implies(And(n >= 2, ret == 0), Not(PAR(n))), "an odd number of crossings means yes")
        e.oblige("post", Implies(And(n >= 2, ret == 0), z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n), z3.Not(ON(k_))), patterns=[ON(k_)])), "a point on a segment means yes")
        frame(e, st, e.p, "containment: polyline")
    e.run(setup, finish)
    return e
