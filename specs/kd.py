"""C12 (insertion), C13 (nearest point), C14 (range search): the spatial tree.

Ghost functions: PAR(m), LEFT(m) give the place node m was attached to (fixed once m is inserted);
SUB(a, m): m is in the subtree of a; SIDE(a, m): it is in the left part of it.  SUB and SIDE are defined
by recursion on m from PAR and LEFT; the definition is instantiated at named nodes only."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg import contracts as C
from vcg.contracts import only_obj

KEEP = {"kd_create", "kd_destroy", "_kd_insertnode", "kd_insertnode", "kd_insertnodes", "shuffle", "_kd_findnearestnode", "kd_findnearestnode",
        "_kdset_insert", "_kd_findnodeswithinrange", "kd_findnodeswithinrange", "kdset_read", "kdset_free", "kdset_getsize",
        "kd_getsize", "kd_getnodecoords", "kd_getnodeorigid", "kd_getminmax"}
MAXN = 2 ** 30
DMAX = (2.0 - 2.0 ** -52) * 2.0 ** 1023
PAR, LEFT = z3.Function("parent", I, I), z3.Function("isleft", I, B)
SUB, SIDE = z3.Function("insubtree", I, I, B), z3.Function("inleftpart", I, I, B)
a_, m_ = z3.Ints("a m")
FIELDS = (("id", "i64"), ("id_orig", "i64"), ("dir", "i32"), ("left", "i64"), ("right", "i64"))


def named(e, v):
    """A constant standing for a term, fit for patterns."""
    v = simp(v) if z3.is_expr(v) and v.sort() == I else v
    if z3.is_const(v):
        return v
    for w, c in e.__dict__.setdefault("names", []):
        if w.eq(v):
            return c
    c = e.fresh("name", v.sort())
    e.glob.append(c == v)
    e.names.append((v, c))
    return c


def lt(x, y):
    return z3.And(z3.Not(isnan(x)), z3.Not(isnan(y)), num(x) < num(y))


def defs(m):
    """SUB and SIDE of node m."""
    return z3.ForAll([a_], z3.And(SUB(a_, m) == z3.Or(a_ == m, z3.And(m >= 1, SUB(a_, PAR(m)))),
                                  z3.Implies(m >= 1, SIDE(a_, m) == z3.If(PAR(m) == a_, LEFT(m), SIDE(a_, PAR(m))))), patterns=[SUB(a_, m)])


class Tree:
    def __init__(t, e, obj, nd):
        t.e, t.obj, t.nd = e, obj, nd

    def f(t, st, w, ty="i64"):
        return t.e.getmem(st, t.obj, "kdtree." + w, ty)

    def o(t, st, w):
        """The object behind nodes, coords or min (None if not one whole block)."""
        v = t.f(st, w, "ptr")
        if len(v.alts) != 1 or v.alts[0][1] is None:
            return None
        u = v.alts[0][1]
        if st.desc[u.obj].kind == "raw":
            t.e.retype(st, u.obj, ("named", "struct.kdnode") if w == "nodes" else "double")
        return u.obj if not u.path and is_true(simp(And(u.row == 0, u.col == 0))) else None

    def a(t, st, w):
        """Array of a member of the nodes."""
        return named(t.e, t.e.getmem(st, t.o(st, "nodes"), "kdnode." + w, dict(FIELDS)[w]))

    def c(t, st):
        return named(t.e, t.e.getmem(st, t.o(st, "coords"), "@double", "double"))

    def box(t, st):
        return named(t.e, t.e.getmem(st, t.o(st, "min"), "@double", "double"))

    def storage(t, st, na):
        """Blocks of the tree hold na nodes."""
        n, c, b = [t.o(st, w) for w in ("nodes", "coords", "min")]
        if None in (n, c, b):
            return FALSE
        dn, dc, db = st.desc[n], st.desc[c], st.desc[b]
        if dn.kind != "arr" or not dc.flat or not db.flat:
            return FALSE
        mx = t.f(st, "max", "ptr")
        u = mx.alts[0][1] if len(mx.alts) == 1 else None
        if u is None or u.obj != b:
            return FALSE
        u = t.e.flatten(db, u)
        return And(dn.n >= na, dc.nr >= na, db.nr == 2, u.row == 1, u.col == 0, *[st.alive.get(x, T) for x in (n, c, b)])

    def shape(t, st, n):
        """Labelled formulas: the tree of n nodes is well formed."""
        nd = t.nd
        ID, DIR, L, R_, Cc = t.a(st, "id"), t.a(st, "dir"), t.a(st, "left"), t.a(st, "right"), t.c(st)
        m = m_
        ins = z3.And(m >= 0, m < n)
        child = lambda A, left: z3.Or(A[m] == -1, z3.And(A[m] > m, A[m] < n, PAR(A[m]) == m, LEFT(A[m]) == z3.BoolVal(left)))
        return [("nodes carry their numbers", z3.ForAll([m], z3.Implies(ins, ID[m] == m), patterns=[ID[m]])),
                ("split directions are dimensions", z3.ForAll([m], z3.Implies(ins, z3.And(DIR[m] >= 0, DIR[m] < nd)), patterns=[DIR[m]])),
                ("left links lead to children", z3.ForAll([m], z3.Implies(ins, child(L, True)), patterns=[L[m]])),
                ("right links lead to children", z3.ForAll([m], z3.Implies(ins, child(R_, False)), patterns=[R_[m]])),
                ("every node but the first hangs where it was attached", z3.ForAll([m], z3.Implies(z3.And(m >= 1, m < n), z3.And(PAR(m) >= 0, PAR(m) < m, z3.If(LEFT(m), L[PAR(m)] == m, R_[PAR(m)] == m))), patterns=[PAR(m)])),
                ("smaller left, not smaller right", z3.ForAll([a_, m], z3.Implies(z3.And(a_ >= 0, a_ < m, ins, SUB(a_, m)), lt(Cc[m, DIR[a_]], Cc[a_, DIR[a_]]) == SIDE(a_, m)), patterns=[SUB(a_, m)]))]

    def bounded(t, st, n):
        Bx, Cc = t.box(st), t.c(st)
        out = []
        for d in range(t.nd):
            out.append(("lower bound of dimension %d" % d, z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < n), z3.Not(lt(Cc[m_, d], Bx[0, d]))), patterns=[Cc[m_, d]])))
            out.append(("upper bound of dimension %d" % d, z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < n), z3.Not(lt(Bx[1, d], Cc[m_, d]))), patterns=[Cc[m_, d]])))
        return out

    def attained(t, st, n, wits):
        """Each bound is a coordinate of a node, or still at the end of the range."""
        Bx, Cc = t.box(st), t.c(st)
        out = []
        for k in (0, 1):
            for d in range(t.nd):
                v = Bx[k, d]
                some = z3.Or(*[z3.And(w >= 0, w < n, Cc[w, d] == v) for w in wits(k, d)])
                out.append(("%s bound of dimension %d is attained" % (("lower", "upper")[k], d), z3.Or(some, v == t.e.dval(DMAX if k == 0 else -DMAX))))
        return out


def mktree(e, st, nd, case="room"):
    """A tree of N nodes with storage for NA.  case: empty (no storage), full, room."""
    o = mkstruct(e, st, "tree", "kdtree", fresh=True)
    t = Tree(e, o, nd)
    e.N = z3.Int("nnodes")
    if case == "empty":
        e.N = NA = ival(0)
    elif case == "full":
        NA = e.N
        e.assume(z3.And(e.N >= 1, e.N <= MAXN))
    else:
        NA = z3.Int("nallocated")
        e.assume(z3.And(e.N >= 0, e.N < NA, NA <= MAXN))
    e.NA = NA
    setf(e, st, o, "kdtree.ndim", ival(nd), "i32")
    setf(e, st, o, "kdtree.nnodes", e.N, "i64")
    setf(e, st, o, "kdtree.nallocated", NA, "i64")
    flat = lambda name, nr: flatmat(e, st, name, nr, nd)
    b = flat("tree.min", ival(2))
    setf(e, st, o, "kdtree.min", to(b), "ptr")
    setf(e, st, o, "kdtree.max", to(b, col=ival(nd)), "ptr")
    if case == "empty":
        setf(e, st, o, "kdtree.nodes", NULL, "ptr")
        setf(e, st, o, "kdtree.coords", NULL, "ptr")
    else:
        n = e.mkobj(st, "tree.nodes", Desc("arr", ("named", "struct.kdnode"), n=NA, fresh=True))
        for w, ty in FIELDS:
            st.mem[(n, "kdnode." + w)] = e.fresh("tree." + w, A1["i"])
            e.pathty["kdnode." + w] = ty
        setf(e, st, o, "kdtree.nodes", to(n), "ptr")
        setf(e, st, o, "kdtree.coords", to(flat("tree.coords", NA)), "ptr")
    return t


def flatmat(e, st, name, nr, nd, fresh=True, ro=False):
    d = Desc("mat", "double", nr=nr, nc=ival(nd), fresh=fresh, ro=ro)
    d.flat = True
    o = e.mkobj(st, name, d)
    st.mem[(o, "@double")] = e.fresh(name, A2["double"])
    return o


def assume_tree(e, st, t, case, bounds=True):
    N = e.N
    if case != "empty":
        for l, f in t.shape(st, N):
            e.assume(f)
        e.assume(defs(ival(0)))
        e.assume(z3.Implies(N == 0, t.a(st, "id")[0] == -1))
    if bounds:
        if case != "empty":
            for l, f in t.bounded(st, N):
                e.assume(f)
        e.w = {(k, d): z3.Int("witness%d.%d" % (k, d)) for k in (0, 1) for d in range(t.nd)}
        Bx = t.box(st)
        for k in (0, 1):
            for d in range(t.nd):
                e.dfacts(Bx[k, d])
        if case != "empty":
            for l, f in t.attained(st, N, lambda k, d: [e.w[(k, d)]]):
                e.assume(f)
        e.assume(z3.Implies(N == 0, z3.And(*[Bx[k, d] == e.dval(DMAX if k == 0 else -DMAX) for k in (0, 1) for d in range(t.nd)])))


def path(t, st, n, p, left, coords):
    """The point goes where (p, left) is: it is on the right side of the splits of all ancestors."""
    DIR, Cc = t.a(st, "dir"), t.c(st)
    cd = pick(coords, DIR[a_])
    return z3.ForAll([a_], z3.Implies(z3.And(a_ >= 0, a_ < n, SUB(a_, p)), lt(cd, Cc[a_, DIR[a_]]) == z3.If(a_ == p, left, SIDE(a_, p))), patterns=[SUB(a_, p)])


def pick(xs, d):
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = z3.If(d == k, xs[k], r)
    return r


def insert_c(e, i, av):
    """_kd_insertnode: proved by the tasks insert_* (its own recursive call against this contract)."""
    tp, slot, cp, orig, dr = av
    st = e.st
    t = e.tree
    if only_obj(tp) != t.obj:
        raise Unsupported("insertion into another tree")
    N, nd = t.f(st, "nnodes"), t.nd
    no, co = t.o(st, "nodes"), t.o(st, "coords")
    e.oblige("pre", t.storage(st, N + 1), "insertion: there is room for the node")
    if no is None or co is None:
        raise Unsupported("storage of the tree")
    e.oblige("pre", And(N >= 0, N < MAXN), "insertion: number of nodes")
    if not is_true(simp(N == 0)):
        for l, f in t.shape(st, N):
            e.oblige("pre", f, "insertion: " + l)
    e.oblige("pre", And(dr >= 0, dr < nd), "insertion: direction is a dimension")
    cs = [e.load(st, Ptr([(g, u if u is None else PV(u.obj, u.row, simp(u.col + k), u.path)) for g, u in cp.alts]), "double") for k in range(nd)]
    if any(u is not None and u.obj == co for g, u in cp.alts):
        raise Unsupported("coordinates of a point are those of a node")
    L, R_, ID = t.a(st, "left"), t.a(st, "right"), t.a(st, "id")
    bad = []
    root, x, side = FALSE, ival(0), FALSE
    for g, u in slot.alts:
        u = e.first_field(st, u, "i64") if u is not None else None
        if u is None or u.obj != no or u.path not in ("kdnode.id", "kdnode.left", "kdnode.right"):
            bad.append(g)
        elif u.path == "kdnode.id":
            root = Or(root, g)
            bad.append(And(g, u.col != 0))
        else:
            x = If(g, u.col, x)
            if u.path == "kdnode.left":
                side = Or(side, g)
    x, side, root = named(e, x), simp(side), simp(root)
    e.oblige("pre", Not(Or(*bad)), "insertion: a link of a node")
    e.oblige("pre", Implies(Not(root), And(x >= 0, x < N)), "insertion: link of an existing node")
    e.oblige("pre", Implies(And(root, N == 0), ID[0] == -1), "insertion: the first node of an empty tree")
    e.glob.append(z3.Implies(z3.And(x >= 0, x < N), defs(x)))
    if not is_true(root):
        e.oblige("pre", Implies(Not(root), path(t, st, N, x, side, cs)), "insertion: the point belongs below this link")
        if e.fname == "_kd_insertnode":
            e.oblige("variant", Implies(Not(root), x > e.x), "insertion: the search moves on to a later node")
    if e.fname == "_kd_insertnode":
        e.oblige("variant", Not(root), "insertion: the search moves down")
    # effect
    if e.fname == "_kd_insertnode":
        p, q = e.fresh_int("p", "i64"), e.fresh("q", B)
    else:
        p, q = PAR(N), LEFT(N)
    d = e.fresh_int("dir", "i32")
    e.assume(z3.And(d >= 0, d < nd))
    some = N > 0
    facts = [z3.Implies(some, z3.And(p >= 0, p < N, z3.If(q, L[p] == -1, R_[p] == -1), path(t, st, N, p, q, cs)))]
    effect(e, st, t, N, p, q, cs, orig, d, facts)
    if e.fname == "_kd_insertnode":
        setf(e, st, e.ghost, "ghost.p", p, "i64")
        setf(e, st, e.ghost, "ghost.q", If(q, ival(1), ival(0)), "i64")
    else:
        e.glob.append(defs(N))
    for f in facts:
        e.assume(f, e.reach[e.cur])
    return e.fresh_int("ins", "i32")


def effect(e, st, t, N, p, q, cs, orig, dr, facts):
    no, co = t.o(st, "nodes"), t.o(st, "coords")
    new = dict(id=N, id_orig=orig, dir=dr, left=ival(-1), right=ival(-1))
    for w, ty in FIELDS:
        A = t.a(st, w)
        if w == "left":
            A = z3.If(z3.And(N > 0, q), z3.Store(A, p, N), A)
        if w == "right":
            A = z3.If(z3.And(N > 0, z3.Not(q)), z3.Store(A, p, N), A)
        n = e.fresh("ins." + w, A.sort())
        facts.append(n == z3.Store(A, N, new[w]))
        st.mem[(no, "kdnode." + w)] = n
    c = t.c(st)
    for k, v in enumerate(cs):
        c = z3.Store(c, N, ival(k), v)
    n = e.fresh("ins.coords", c.sort())
    facts.append(n == c)
    st.mem[(co, "@double")] = n


def engine(module, fn, tag, nd, con=None, **k):
    con = dict(con or {})
    con.setdefault("_kd_insertnode", insert_c)
    con.setdefault("shuffle", shuffle_c)
    e = Engine(module, fn, con, tag=tag, unroll=2 * nd, spec={"kdtree.ndim": nd, "@ndim": nd}, **k)
    e.exact = True
    e.flatcols = nd
    e.prune = True
    return e


def insert(nd, case):
    """_kd_insertnode at a link of the given kind: root (of an empty tree), first, left, right."""
    def build(module, tag=""):
        e = engine(module, "_kd_insertnode", tag, nd)

        def setup(e):
            st = State()
            e.tree = t = mktree(e, st, nd, "room")
            e.ghost = e.mkobj(st, "ghost", Desc("struct", None))
            if case == "root":
                setf(e, st, t.obj, "kdtree.nnodes", ival(0), "i64")
                e.N = ival(0)
            elif case == "first":
                e.assume(e.N >= 1)
            assume_tree(e, st, t, "room", bounds=False)
            co = flatmat(e, st, "coords", ival(1), nd, ro=True)
            C0 = st.mem[(co, "@double")]
            e.cs = [e.dfacts(C0[0, k]) for k in range(nd)]
            e.x = z3.Int("x")
            no = t.o(st, "nodes")
            side = z3.BoolVal(case == "left")
            if case in ("left", "right"):
                e.assume(z3.And(e.x >= 0, e.x < e.N))
                e.assume(path(t, st, e.N, e.x, side, e.cs))
                slot = to(no, col=e.x, path="kdnode." + case)
                v = named(e, t.a(st, case)[e.x])
                e.glob.append(z3.Implies(v >= 0, defs(v)))
                e.glob.append(defs(e.x))
                setf(e, st, e.ghost, "ghost.p", e.x, "i64")
            else:
                slot = to(no, path="kdnode.id")
                e.x = ival(-1)
                setf(e, st, e.ghost, "ghost.p", ival(0), "i64")
            setf(e, st, e.ghost, "ghost.q", ival(int(case == "left")), "i64")
            e.orig, e.dr = e.fresh_int("orig", "i64"), e.fresh_int("dr", "i32")
            e.assume(z3.And(e.dr >= 0, e.dr < nd))
            e.A0 = {w: t.a(st, w) for w, ty in FIELDS}
            e.C0 = t.c(st)
            return st, [to(t.obj), slot, to(co), e.orig, e.dr]

        def finish(e, st, ret):
            t, N, nd = e.tree, e.N, e.tree.nd
            p, q = named(e, e.getmem(st, e.ghost, "ghost.p", "i64")), e.getmem(st, e.ghost, "ghost.q", "i64") == 1
            some = N > 0
            if t.o(st, "nodes") is None or t.o(st, "coords") is None:
                e.oblige("post", FALSE, "the storage stays in place")
                return
            e.oblige("post", Implies(some, And(p >= 0, p < N, If(q, e.A0["left"][p] == -1, e.A0["right"][p] == -1))), "the node is attached to a free link")
            sv = State.copy(st)
            for w, ty in FIELDS:
                sv.mem[(t.o(st, "nodes"), "kdnode." + w)] = e.A0[w]
            sv.mem[(t.o(st, "coords"), "@double")] = e.C0
            e.oblige("post", Implies(some, path(t, sv, N, p, q, e.cs)), "the node is on the right side of all splits above it")
            new = dict(id=N, id_orig=e.orig, dir=e.dr, left=ival(-1), right=ival(-1))
            new["dir"] = e.newdir = named(e, t.a(st, "dir")[N])
            e.oblige("post", And(e.newdir >= 0, e.newdir < nd), "the split direction of the node is a dimension")
            for w, ty in FIELDS:
                A, old = t.a(st, w), e.A0[w][m_]
                if w in ("left", "right"):
                    old = z3.If(z3.And(N > 0, m_ == p, q == z3.BoolVal(w == "left")), N, old)
                e.oblige("post", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.NA), A[m_] == z3.If(m_ == N, new[w], old)), patterns=[A[m_]]), "%s of the nodes" % w)
            Cc = t.c(st)
            for k in range(nd):
                e.oblige("post", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.NA), Cc[m_, k] == z3.If(m_ == N, e.cs[k], e.C0[m_, k])), patterns=[Cc[m_, k]]), "coordinate %d of the nodes" % k)
            untouched(e, st, {t.o(st, "nodes"), t.o(st, "coords"), e.ghost})
        e.run(setup, finish)
        return e
    return build


def distinct(A, n):
    i_, j_ = z3.Ints("i j")
    return z3.ForAll([i_, j_], z3.Implies(z3.And(i_ >= 0, i_ < n, j_ >= 0, j_ < n, i_ != j_), A[i_] != A[j_]), patterns=[z3.MultiPattern(A[i_], A[j_])])


def shuffle_c(e, i, av):
    """shuffle: proved by task shuffle: the entries are the same as before in another order."""
    n, ids = av
    st = e.st
    o = only_obj(ids)
    d = st.desc[o]
    if d.kind == "raw":
        e.retype(st, o, "i64")
        d = st.desc[o]
    t = ids.alts[0][1]
    e.oblige("pre", And(t.col == 0, n >= 0, n <= d.n, n <= MAXN), "shuffle: entries of the array")
    A = named(e, e.getmem(st, o, "@i", "i64"))
    R_ = e.reach[e.cur]
    P, FROM_, TO_ = [e.fresh(w, A1["i"]) for w in ("perm", "movedfrom", "movedto")]
    ins = lambda k: z3.And(k >= 0, k < n)
    e.assume(z3.ForAll([m_], z3.Implies(ins(m_), z3.And(ins(FROM_[m_]), P[m_] == A[FROM_[m_]])), patterns=[P[m_]]), R_)
    e.assume(z3.ForAll([m_], z3.Implies(ins(m_), z3.And(ins(TO_[m_]), P[TO_[m_]] == A[m_])), patterns=[TO_[m_]]), R_)
    e.assume(Implies(distinct(A, n), distinct(P, n)), R_)
    e.perm, e.perm_to = P, TO_
    st.mem[(o, "@i")] = P
    return None


def shuffle(unit):
    """shuffle of the given source file."""
    def build(module, tag=""):
        return shuffled(module, tag, "shuffle." + unit)
    return build


def shuffled(module, tag, fn):
    if fn not in module.funcs:
        fn = "shuffle"
    e = Engine(module, fn, {}, tag=tag, arith="real")
    D = z3.Bool("entries are distinct")
    # true of everything; they only steer the instances
    T1, T2, T3, T4 = TS = [z3.Function("seen%d" % k, I, B) for k in range(4)]
    e.skolem_hints = [lambda vs: [t(v) for v in vs for t in TS if v.sort() == I]]
    load = e.load

    def seen(st, p, ty):
        for g, u in p.alts:
            if u is not None and u.obj == "ids":
                e.glob.append(z3.And(T1(u.col), T4(u.col)))
        return load(st, p, ty)
    e.load = seen

    def permuted(A):
        """Labelled formulas: the n entries of A are those at the start in another order."""
        n, A0 = e.n, e.A0
        k, m = z3.Ints("k m")
        ins = lambda k: z3.And(k >= 0, k < n)
        some = lambda x, f, t: z3.Exists([x], z3.And(t(x), ins(x), f), patterns=[t(x)])
        return [("every entry was there before", z3.ForAll([k], z3.Implies(z3.And(T1(k), ins(k)), some(m, A[k] == A0[m], T2)), patterns=[T1(k)])),
                ("every entry before is still there", z3.ForAll([m], z3.Implies(z3.And(T3(m), ins(m)), some(k, A[k] == A0[m], T4)), patterns=[T3(m)])),
                ("distinct entries stay distinct", Implies(D, distinct(A, n)))]

    def setup(e):
        st = State()
        for t in TS:
            e.glob.append(z3.ForAll([m_], t(m_), patterns=[t(m_)]))
        n = e.n = e.fresh_int("n", "i64")
        e.assume(z3.And(n >= 0, n <= MAXN))
        o = e.o = e.mkobj(st, "ids", Desc("arr", "i64", n=n))
        A = e.A0 = st.mem[(o, "@i")] = e.fresh("ids", A1["i"])
        e.assume(Implies(D, distinct(A, n)))
        e.terms.append(n)
        return st, [n, to(o)]

    def inv(e_, L, st, add):
        for q in range(3):
            add(permuted(e.A0)[q][0], lambda s, q=q: permuted(named(e, s.mem[(e.o, "@i")]))[q][1])
    e.loopinv = inv

    def finish(e, st, ret):
        for l, f in permuted(named(e, st.mem[(e.o, "@i")])):
            e.oblige("post", f, l)
        untouched(e, st, {e.o})
    e.run(setup, finish)
    return e


def create(nd):
    def build(module, tag=""):
        e = engine(module, "kd_create", tag, nd)

        def setup(e):
            return State(), [ival(nd)]

        def finish(e, st, ret):
            o = e.deref(ret, "result").obj
            t = Tree(e, o, nd)
            e.oblige("post", And(z3.BoolVal(bool(st.desc[o].fresh)), st.alive.get(o, T)), "the tree is new")
            for w in ("nnodes", "nallocated"):
                e.oblige("post", t.f(st, w) == 0, "%s is zero" % w)
            e.oblige("post", e.getmem(st, o, "kdtree.ndim", "i32") == nd, "the tree has the dimensions asked for")
            for w in ("nodes", "coords"):
                p = t.f(st, w, "ptr")
                e.oblige("post", And(*[Not(g) for g, u in p.alts if u is not None]), "no storage for %s" % w)
            b = t.o(st, "min")
            ok = b is not None and st.desc[b].flat
            mx = t.f(st, "max", "ptr").alts
            if not ok or len(mx) != 1 or mx[0][1] is None or mx[0][1].obj != b:
                e.oblige("post", FALSE, "the bounds are held in one block")
                return
            u = e.flatten(st.desc[b], mx[0][1])
            e.oblige("post", And(st.desc[b].nr == 2, u.row == 1, u.col == 0, st.alive.get(b, T)), "the bounds are held in one block")
            Bx = t.box(st)
            for k in (0, 1):
                for d in range(nd):
                    e.oblige("post", Bx[k, d] == e.dval(DMAX if k == 0 else -DMAX), "no bounds yet")
        e.run(setup, finish)
        return e
    return build


def destroy(nd, case):
    def build(module, tag=""):
        e = engine(module, "kd_destroy", tag, nd)

        def setup(e):
            st = State()
            e.tree = mktree(e, st, nd, case)
            return st, [to(e.tree.obj)]

        def finish(e, st, ret):
            t = e.tree
            for o in st.desc:
                if o.startswith("tree"):
                    e.oblige("post", Not(st.alive.get(o, T)), "%s is released" % o)
        e.run(setup, finish)
        return e
    return build


def wellformed(e, st, t, n, wits):
    """Obligations: a well-formed tree of n nodes with exact bounds and storage enough."""
    e.oblige("post", t.f(st, "nnodes") == n, "number of nodes")
    NA = t.f(st, "nallocated")
    if None in [t.o(st, w) for w in ("nodes", "coords", "min")]:
        e.oblige("post", FALSE, "the tree is held in whole blocks")
        return False
    e.oblige("post", And(t.storage(st, NA), NA >= n, NA >= 1), "the storage holds the nodes")
    if not is_true(simp(n == 0)):
        for l, f in t.shape(st, n):
            e.oblige("post", f, l)
    e.oblige("post", Implies(n == 0, t.a(st, "id")[0] == -1), "an empty tree has no first node")
    for l, f in t.bounded(st, n):
        e.oblige("post", f, l)
    for l, f in t.attained(st, n, wits):
        e.oblige("post", f, l)
    return True


def refused(nd):
    """kd_insertnode of a point whose first coordinate is not finite: nothing happens."""
    def build(module, tag=""):
        e = engine(module, "kd_insertnode", tag, nd)

        def setup(e):
            st = State()
            e.tree = t = mktree(e, st, nd, "room")
            co = flatmat(e, st, "coords", ival(1), nd, ro=True)
            NA = z3.Int("na")
            e.assume(z3.And(NA >= e.N, NA <= MAXN))
            setf(e, st, t.obj, "kdtree.nallocated", NA, "i64")
            e.assume(z3.Not(isfin(e.dfacts(st.mem[(co, "@double")][0, 0]))))
            return st, [to(t.obj), to(co), e.fresh_int("orig", "i64")]

        def finish(e, st, ret):
            untouched(e, st, set())
        e.run(setup, finish)
        return e
    return build


def insertnode(nd, case):
    """kd_insertnode into a tree without storage (empty), with full storage (full) or with room."""
    def build(module, tag=""):
        e = engine(module, "kd_insertnode", tag, nd)

        def setup(e):
            st = State()
            e.tree = t = mktree(e, st, nd, case)
            assume_tree(e, st, t, case)
            if case == "full":
                e.assume(2 * e.N <= MAXN)
            e.assume(e.N < MAXN)
            co = flatmat(e, st, "coords", ival(1), nd, ro=True)
            C0 = st.mem[(co, "@double")]
            e.cs = [e.dfacts(C0[0, k]) for k in range(nd)]
            for k in range(1, nd):
                e.assume(z3.Not(isnan(e.cs[k])))
            e.assume(isfin(e.cs[0]))
            e.orig = e.fresh_int("orig", "i64")
            if case != "empty":
                e.old = {w: t.a(st, w) for w, ty in FIELDS}
                e.C0 = t.c(st)
            return st, [to(t.obj), to(co), e.orig]

        def finish(e, st, ret):
            t, N = e.tree, e.N
            if not wellformed(e, st, t, N + 1, lambda k, d: [e.w[(k, d)], N]):
                return
            if case != "empty":
                for w in ("id", "id_orig", "dir"):
                    A = t.a(st, w)
                    e.oblige("post", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < N), A[m_] == e.old[w][m_]), patterns=[A[m_]]), "%s of earlier nodes" % w)
                Cc = t.c(st)
                e.oblige("post", z3.ForAll([m_, a_], z3.Implies(z3.And(m_ >= 0, m_ < N, a_ >= 0, a_ < nd), Cc[m_, a_] == e.C0[m_, a_]), patterns=[Cc[m_, a_]]), "coordinates of earlier nodes")
            e.oblige("post", And(t.a(st, "id_orig")[N] == e.orig, *[t.c(st)[N, k] == e.cs[k] for k in range(nd)]), "the node has the coordinates and the number of the point")
        e.run(setup, finish)
        return e
    return build


COUNT, FROM = z3.Function("nodesafter", I, I), z3.Function("madefrom", I, I)
WIT = z3.Function("extreme", I, I, I, I)


def insertnodes(nd, case, randomise):
    """kd_insertnodes of a batch of points, in order or shuffled."""
    def build(module, tag=""):
        e = engine(module, "kd_insertnodes", tag, nd)

        def finite(k):
            return isfin(e.X[0][k])

        def place(k):
            """number of point k of the order of insertion"""
            return e.perm[k] if e.perm is not None else k

        def counted(k):
            """point k+1 of the sequence: the number of nodes after it, and its node"""
            p = named(e, place(k))
            Bx = e.tree.box(e.st)
            wit = [WIT(ival(s), ival(d), k + 1) == z3.If(z3.And(finite(p), lt(e.X[d][p], Bx[0, d]) if s == 0 else lt(Bx[1, d], e.X[d][p])), COUNT(k), WIT(ival(s), ival(d), k))
                   for s in (0, 1) for d in range(nd)]
            return z3.And(COUNT(k + 1) == COUNT(k) + z3.If(finite(p), 1, 0), z3.Implies(finite(p), FROM(COUNT(k)) == k), *wit)

        def setup(e):
            st = State()
            e.perm = None
            e.names = []
            e.tree = t = mktree(e, st, nd, case if case == "empty" else "room")
            if case != "empty":
                NA = e.NA
                e.assume(e.N < MAXN)
            assume_tree(e, st, t, case)
            n = e.n = e.fresh_int("n", "i64")
            e.assume(z3.And(n >= 1, n <= MAXN, e.N + n <= MAXN, e.NA + n <= MAXN))
            if case == "grow":
                e.assume(e.NA - e.N < n)
            elif case == "room":
                e.assume(e.NA - e.N >= n)
            e.terms += [n]
            src = e.mkobj(st, "src", Desc("cells", n=ival(nd), ro=True))
            e.X = []
            for k in range(nd):
                o = e.mkobj(st, "src%d" % k, Desc("arr", "double", n=n, ro=True))
                e.X.append(e.getmem(st, o, "@double", "double"))
                st.mem[("src", "@ptr%d" % k)] = to(o)
            for k in range(1, nd):
                e.assume(z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < n, finite(m_)), z3.Not(isnan(e.X[k][m_]))), patterns=[e.X[k][m_]]))
            e.assume(COUNT(0) == e.N)
            for (k, d), w in e.w.items():
                e.assume(WIT(ival(k), ival(d), 0) == w)
            if case != "empty":
                e.old = {w: t.a(st, w) for w, ty in FIELDS}
                e.C0 = t.c(st)
            return st, [to(t.obj), n, to(src), ival(int(randomise))]

        def made(st, i):
            """the first i points: labelled formulas"""
            t, N = e.tree, e.N
            now = t.f(st, "nnodes")
            O, Cc = t.a(st, "id_orig"), t.c(st)
            k = m_
            out = [("number of nodes", now == COUNT(i)),
                   ("the number of nodes grows by at most one a point", z3.And(now >= N, now <= N + i)),
                   ("every finite point has its node", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i, finite(place(k))), z3.And(
                       COUNT(k) >= N, COUNT(k) < now, O[COUNT(k)] == place(k) + N, FROM(COUNT(k)) == k, *[Cc[COUNT(k), d] == e.X[d][place(k)] for d in range(nd)])), patterns=[COUNT(k)])),
                   ("every new node is of a finite point", z3.ForAll([m_], z3.Implies(z3.And(m_ >= N, m_ < now), z3.And(FROM(m_) >= 0, FROM(m_) < i, COUNT(FROM(m_)) == m_, finite(place(FROM(m_))))), patterns=[FROM(m_)]))]
            if case != "empty":
                for w in ("id", "id_orig", "dir"):
                    A = t.a(st, w)
                    out.append(("%s of earlier nodes" % w, z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < N), A[m_] == e.old[w][m_]), patterns=[A[m_]])))
                for d in range(nd):
                    out.append(("coordinate %d of earlier nodes" % d, z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < N), Cc[m_, d] == e.C0[m_, d]), patterns=[Cc[m_, d]])))
            return out

        def wf(st, i):
            t = e.tree
            n = t.f(st, "nnodes")
            out = [("storage", t.storage(st, t.f(st, "nallocated"))), ("storage enough", t.f(st, "nallocated") >= n)]
            out += [("no first node in an empty tree", z3.Implies(n == 0, t.a(st, "id")[0] == -1))]
            return out + t.shape(st, n) + t.bounded(st, n) + t.attained(st, n, lambda k, d: [WIT(ival(k), ival(d), i)])

        def inv(e_, L, st, add):
            t = e.tree
            if (t.obj, "kdtree.nnodes") not in e.mods.get(L.header, ()):
                for ph in L.phis:
                    if ph.step == 1:
                        for o, d in st.desc.items():
                            if d.elem == "i64" and d.fresh and d.kind == "arr":
                                def numbered(s, o=o, ph=ph):
                                    A = named(e, s.mem[(o, "@i")])
                                    return z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < ph.cur), A[m_] == m_), patterns=[A[m_]])
                                if (o, "@i") in st.mem:
                                    add("numbered so far", numbered)
                return
            for ph in L.phis:
                if ph.step != 1:
                    continue
                e.glob.append(z3.Implies(ph.cur >= 0, counted(ph.cur)))
                add("points so far", lambda s, ph=ph: z3.And(ph.cur >= 0, ph.cur <= e.n))
                for q in range(len(made(st, ph.cur))):
                    add(made(st, ph.cur)[q][0], lambda s, q=q, ph=ph: made(s, ph.cur)[q][1])
                for q in range(len(wf(st, ph.cur))):
                    add(wf(st, ph.cur)[q][0], lambda s, q=q, ph=ph: wf(s, ph.cur)[q][1])
        e.loopinv = inv

        def finish(e, st, ret):
            t = e.tree
            if None in [t.o(st, w) for w in ("nodes", "coords", "min")]:
                e.oblige("post", FALSE, "the tree is held in whole blocks")
                return
            for l, f in wf(st, e.n) + made(st, e.n):
                e.oblige("post", f, l)
            x = z3.Int("x")
            e.oblige("post", z3.Implies(z3.And(x >= 0, x < e.n), z3.And(e.perm_to[x] >= 0, e.perm_to[x] < e.n, place(e.perm_to[x]) == x) if e.perm is not None else place(x) == x), "every point has its turn")
        e.run(setup, finish)
        return e
    return build


# ---------------------------------------------------------------- searches

def below(t, st, n, a, m):
    """Node m other than a in the subtree of a is in that of a's child on its side."""
    L, R_ = t.a(st, "left"), t.a(st, "right")
    c = z3.If(SIDE(a, m), L[a], R_[a])
    return z3.Implies(z3.And(m >= 0, m < n, SUB(a, m), a != m), z3.And(c > a, c < n, SUB(c, m)))


def above(n, c, m):
    """What is in the subtree of c is in that of its parent, on its side."""
    return z3.Implies(z3.And(m >= 0, m < n, c >= 1, c < n, SUB(c, m)), z3.And(SUB(PAR(c), m), PAR(c) < m, SIDE(PAR(c), m) == LEFT(c)))


def lemmas(e, st, t, n):
    """Facts on subtrees, by induction on the number of the node (the steps are obligations).  Returns the
    facts of a node and of its children."""
    m0, a0, c0 = z3.Ints("m0 a0 c0")
    e.assume(defs(m0))
    e.assume(defs(PAR(m0)))
    inside = z3.And(m0 >= 0, m0 < n)
    ih = lambda P, pat: z3.ForAll([m_], z3.Implies(m_ < m0, P(m_)), patterns=[pat(m_)])

    def step(label, P, pat):
        e.oblige("lemma", Implies(And(inside, ih(P, pat)), P(m0)), "%s (induction step)" % label)
    p0 = lambda m: z3.Implies(z3.And(m >= 0, m < n), SUB(0, m))
    p1 = lambda m: z3.Implies(z3.And(m >= 0, m < n, SUB(a0, m)), z3.And(a0 >= 0, a0 <= m))
    step("the first node is above all", p0, lambda m: SUB(0, m))
    step("ancestors come first", p1, lambda m: SUB(a0, m))
    step("subtrees of children are on their side", lambda m: above(n, c0, m), lambda m: SUB(c0, m))
    step("subtrees are split between the children", lambda m: below(t, st, n, a0, m), lambda m: SUB(a0, m))
    e.glob.append(z3.ForAll([m_], p0(m_), patterns=[SUB(0, m_)]))
    e.glob.append(z3.ForAll([a_, m_], z3.Implies(z3.And(m_ >= 0, m_ < n, SUB(a_, m_)), z3.And(a_ >= 0, a_ <= m_)), patterns=[SUB(a_, m_)]))


def split(e, st, t, n, v):
    """The facts of node v and its children."""
    L, R_ = t.a(st, "left"), t.a(st, "right")
    e.glob.append(z3.ForAll([m_], below(t, st, n, v, m_), patterns=[SUB(v, m_)]))
    for A in (L, R_):
        c = named(e, A[v])
        e.glob.append(z3.ForAll([m_], above(n, c, m_), patterns=[SUB(c, m_)]))


def query(e, st, t):
    """A finite query point; all coordinates of the nodes finite."""
    nd = t.nd
    q = flatmat(e, st, "query", ival(1), nd, ro=True)
    Q = st.mem[(q, "@double")]
    e.q = [e.dfacts(Q[0, k]) for k in range(nd)]
    for v in e.q:
        e.assume(isfin(v))
    Cc = t.c(st)
    for d in range(nd):
        e.assume(z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.N), z3.And(isfin(Cc[m_, d]), z3.Not(isnan(Cc[m_, d])))), patterns=[Cc[m_, d]]))
    return q


def dist2(e, st, t, m):
    """Squared distance of node m and the query point."""
    Cc = t.c(st)
    return z3.Sum([e.square(num(Cc[m, d]) - num(e.q[d])) for d in range(t.nd)])


def contained(e, st, t, box, v):
    """The box contains the subtree of v."""
    Cc = t.c(st)
    return z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.N, SUB(v, m_)), z3.And(*[z3.And(num(box[0, d]) <= num(Cc[m_, d]), num(Cc[m_, d]) <= num(box[1, d])) for d in range(t.nd)])), patterns=[SUB(v, m_)])


def searchtree(e, st, nd):
    e.tree = t = mktree(e, st, nd, "room")
    st.desc[t.o(st, "nodes")].ro = st.desc[t.o(st, "coords")].ro = st.desc[t.o(st, "min")].ro = st.desc[t.obj].ro = True
    NA = z3.Int("na")
    e.assume(z3.And(e.N >= 1, e.N <= NA, NA <= MAXN))
    return t


def nearest_post(e, st, t, v, best0, d0, best, d):
    """What the search below v leaves in (best, d) when it finds (best0, d0)."""
    valid = And(best >= 0, best < e.N, isfin(d), num(d) == dist2(e, st, t, best))
    return [("the distance does not grow", And(isfin(d), num(d) <= num(d0))),
            ("the node found has the distance", Or(And(best == best0, d == d0), valid)),
            ("a node no farther than the first distance is found", Implies(dist2(e, st, t, v) <= num(d0), valid)),
            ("no node below is nearer", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.N, SUB(v, m_)), num(d) <= dist2(e, st, t, m_)), patterns=[SUB(v, m_)]))]


def nearestbelow_c(e, i, av):
    """_kd_findnearestnode: proved by task nearest_below (its own recursive calls against this contract)."""
    tp, v, cp, rp, dp, bp = av
    st, t = e.st, e.tree
    if only_obj(tp) != t.obj or only_obj(cp) != e.qobj:
        raise Unsupported("search in another tree or for another point")
    e.oblige("pre", And(v >= 0, v < e.N), "search: a node of the tree")
    if e.fname == "_kd_findnearestnode":
        e.oblige("variant", v > e.v, "search: moves on to a later node")
    bo, ro, do = only_obj(bp), only_obj(rp), only_obj(dp)
    if st.desc[bo].kind == "raw":
        e.retype(st, bo, "double")
    u = e.flatten(st.desc[bo], bp.alts[0][1])
    e.oblige("pre", And(u.row == 0, u.col == 0, st.desc[bo].nr == 2, st.alive.get(bo, T)), "search: the box")
    Bx = named(e, e.getmem(st, bo, "@double", "double"))
    v = named(e, v)
    e.oblige("pre", And(*[isfin(Bx[k, d]) for k in (0, 1) for d in range(t.nd)]), "search: the box is finite")
    e.oblige("pre", contained(e, st, t, Bx, v), "search: the box contains the subtree")
    b0, d0 = e.load(st, rp, "i64"), e.load(st, dp, "double")
    e.oblige("pre", isfin(d0), "search: the distance is finite")
    best, d = e.fresh_int("best", "i64"), e.dfacts(e.fresh_dbl("dist"))
    for l, f in nearest_post(e, st, t, v, b0, d0, best, d):
        e.assume(f, e.reach[e.cur])
    e.store(st, rp, best, "i64")
    e.store(st, dp, d, "double")
    return None


def nearest_below(nd):
    """_kd_findnearestnode."""
    def build(module, tag=""):
        e = engine(module, "_kd_findnearestnode", tag, nd, {"_kd_findnearestnode": nearestbelow_c}, arith="real")
        e.squares = True

        def setup(e):
            st = State()
            e.names = []
            t = searchtree(e, st, nd)
            for l, f in t.shape(st, e.N):
                e.assume(f)
            e.v = v = z3.Int("nodeid")
            e.assume(z3.And(v >= 0, v < e.N))
            e.assume(defs(v))
            lemmas(e, st, t, e.N)
            split(e, st, t, e.N, v)
            e.qobj = query(e, st, t)
            b = e.b = flatmat(e, st, "minmax", ival(2), nd)
            Bx = st.mem[(b, "@double")]
            for k in (0, 1):
                for d in range(nd):
                    e.assume(isfin(e.dfacts(Bx[k, d])))
            e.assume(contained(e, st, t, Bx, v))
            e.Bx = Bx
            outs = [e.mkobj(st, "result", Desc("arr", "i64", n=ival(1))), e.mkobj(st, "resdist", Desc("arr", "double", n=ival(1)))]
            e.outs = outs
            e.b0 = e.getmem(st, outs[0], "@i", "i64")[0]
            e.d0 = e.dfacts(e.getmem(st, outs[1], "@double", "double")[0])
            e.assume(isfin(e.d0))
            return st, [to(t.obj), v, to(e.qobj), to(outs[0]), to(outs[1]), to(b)]

        def finish(e, st, ret):
            t = e.tree
            B1 = st.mem[(e.b, "@double")]
            for k in (0, 1):
                for d in range(nd):
                    e.oblige("post", B1[k, d] == e.Bx[k, d], "the box is restored")
            best, d = named(e, e.getmem(st, e.outs[0], "@i", "i64")[0]), named(e, e.getmem(st, e.outs[1], "@double", "double")[0])
            for l, f in nearest_post(e, st, t, e.v, e.b0, e.d0, best, d):
                e.oblige("post", f, l)
            untouched(e, st, set(e.outs) | {e.b})
        e.run(setup, finish)
        return e
    return build


def nearest(nd):
    """kd_findnearestnode."""
    def build(module, tag=""):
        e = engine(module, "kd_findnearestnode", tag, nd, {"_kd_findnearestnode": nearestbelow_c}, arith="real")
        e.squares = True

        def setup(e):
            st = State()
            e.names = []
            t = searchtree(e, st, nd)
            for l, f in t.shape(st, e.N):
                e.assume(f)
            assume_tree(e, st, t, "room")
            lemmas(e, st, t, e.N)
            e.qobj = query(e, st, t)
            return st, [to(t.obj), to(e.qobj)]

        def finish(e, st, ret):
            t = e.tree
            e.oblige("post", And(ret >= 0, ret < e.N), "the result is a node of the tree")
            r = named(e, ret)
            e.oblige("post", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.N), z3.And(SUB(0, m_), dist2(e, st, t, r) <= dist2(e, st, t, m_))), patterns=[SUB(0, m_)]), "no node is nearer")
            e.oblige("post", And(*[Not(st.alive.get(o, T)) for o, d in st.desc.items() if o.startswith("heap")]), "the box is released")
            untouched(e, st, set())
        e.run(setup, finish)
        return e
    return build


# ---------------------------------------------------------------- search within a range

AI = z3.ArraySort(I, I)
FD = z3.ArraySort(I, F)


class Results:
    """A kdset in a state: a linked list of elements SEQ[0..LEN-1] (POS is the inverse), each of a node of its
    own (AT: node -> element, negative if the node is not in the set)."""

    def __init__(s, e, st, obj):
        s.e, s.st, s.obj = e, st, obj
        mem = lambda w, ty: named(e, e.getmem(st, "results", w, ty))
        s.next, s.id, s.dist = mem("resnode.next", "i64"), mem("resnode.id", "i64"), mem("resnode.dist", "double")
        s.live = named(e, st.mem[("results", "@live")])
        s.root = named(e, e.number(st, e.getmem(st, obj, "kdset.root", "ptr"), "results"))
        s.SEQ, s.POS, s.AT, s.LEN = [named(e, st.ghost[w]) for w in ("SEQ", "POS", "AT", "LEN")]

    def wf(s, n):
        k = m_
        ink = z3.And(k >= 0, k < s.LEN)
        return [("the list has a length", z3.And(s.LEN >= 0, (s.LEN == 0) == (s.root == -1), z3.Implies(s.LEN > 0, s.root == s.SEQ[0]), s.root >= -1)),
                ("elements are linked in order", z3.ForAll([k], z3.Implies(ink, z3.And(s.SEQ[k] >= 0, s.live[s.SEQ[k]], s.POS[s.SEQ[k]] == k, s.next[s.SEQ[k]] == z3.If(k + 1 < s.LEN, s.SEQ[k + 1], -1))), patterns=[s.SEQ[k]])),
                ("elements are of nodes", z3.ForAll([k], z3.Implies(ink, z3.And(s.id[s.SEQ[k]] >= 0, s.id[s.SEQ[k]] < n, s.AT[s.id[s.SEQ[k]]] == s.SEQ[k])), patterns=[s.SEQ[k]])),
                ("nodes have their elements", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n, s.AT[k] >= 0), s.of(k)), patterns=[s.AT[k]]))]

    def of(s, m):
        p = s.POS[s.AT[m]]
        return z3.And(p >= 0, p < s.LEN, s.SEQ[p] == s.AT[m], s.id[s.AT[m]] == m)

    def sorted(s):
        k, l = a_, m_
        return z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < s.LEN), num(s.dist[s.SEQ[k]]) <= num(s.dist[s.SEQ[l]])), patterns=[z3.MultiPattern(s.SEQ[k], s.SEQ[l])])

    def finite(s):
        return z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < s.LEN), z3.And(isfin(s.dist[s.SEQ[m_]]), z3.Not(isnan(s.dist[s.SEQ[m_]])))), patterns=[s.SEQ[m_]])


def mkresults(e, st, empty=False, fresh=True):
    """A set (kdset) of results in any state."""
    e.allocator(st, "results", "resnode", ["next"])
    o = mkstruct(e, st, "set", "kdset", fresh=fresh)
    for w, srt in (("SEQ", AI), ("POS", AI), ("AT", AI), ("LEN", I)):
        st.ghost[w] = z3.Const(w, srt)
    r = z3.Int("root")
    e.assume(r >= -1)
    setf(e, st, o, "kdset.root", NULL if empty else e.element("results", r), "ptr")
    return o


def inserted(R0, R1, A, p, id, d):
    """R1 is R0 with element A of node id put at position p."""
    k = m_
    return [("the new element is at its place", z3.And(p >= 0, p <= R0.LEN, R1.LEN == R0.LEN + 1, R1.SEQ[p] == A)),
            ("the others keep their order", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < R1.LEN, k != p), R1.SEQ[k] == z3.If(k < p, R0.SEQ[k], R0.SEQ[k - 1])), patterns=[R1.SEQ[k]]))]


def setinsert_c(e, i, av):
    """_kdset_insert: proved by task set_insert."""
    sp, id, d, ordered = av
    st = e.st
    o = only_obj(sp)
    R0 = Results(e, st, o)
    e.oblige("pre", And(id >= 0, id < e.N), "result: a node of the tree")
    e.oblige("pre", R0.AT[id] < 0, "result: the node is not in the set yet")
    e.oblige("pre", isfin(d), "result: the distance is finite")
    e.oblige("pre", (ordered != 0) == (e.ordered != 0), "result: the set is ordered as asked")
    for l, f in R0.wf(e.N):
        e.oblige("pre", f, "result: " + l)
    e.oblige("pre", R0.finite(), "result: distances are finite")
    e.oblige("pre", z3.Implies(ordered != 0, R0.sorted()), "result: the list is in order")
    A = e.fresh_int("element", "i64")
    e.assume(z3.And(A >= 0, z3.Not(R0.live[A])))
    st.mem[("results", "@live")] = z3.Store(R0.live, A, T)
    st.mem[("results", "resnode.id")] = z3.Store(R0.id, A, id)
    st.mem[("results", "resnode.dist")] = z3.Store(R0.dist, A, d)
    st.mem[("results", "resnode.next")] = e.fresh("next", AI)
    for w, srt in (("SEQ", AI), ("POS", AI)):
        st.ghost[w] = e.fresh(w, srt)
    st.ghost["AT"] = z3.Store(R0.AT, id, A)
    st.ghost["LEN"] = R0.LEN + 1
    r = e.fresh_int("root", "i64")
    e.assume(r >= 0)
    setf(e, st, o, "kdset.root", e.element("results", r), "ptr")
    if True:
        q = e.fresh_int("beingread", "i32")
        old = e.getmem(st, o, "kdset.beingread", "i32")
        e.assume(q == z3.If(R0.LEN == 0, 0, old))
        setf(e, st, o, "kdset.beingread", q, "i32")
        setf(e, st, o, "kdset.size", e.fresh_int("size", "i64"), "i64")
        setf(e, st, o, "kdset.toread", to(e.opaque(st, "toread")), "ptr")
    R1 = Results(e, st, o)
    g = e.reach[e.cur]
    p = e.fresh_int("place", "i64")
    for l, f in R1.wf(e.N) + [("", R1.finite()), ("", z3.Implies(ordered != 0, R1.sorted()))] + inserted(R0, R1, A, p, id, d):
        e.assume(f, g)
    e.assume(R1.LEN <= e.N, g)      # distinct nodes: by counting
    return None


def set_insert(case):
    """_kdset_insert into an empty or a non-empty set."""
    def build(module, tag=""):
        e = Engine(module, "_kdset_insert", {}, tag=tag, arith="real")
        e.prune = True

        def setup(e):
            st = State()
            e.names = []
            e.N = z3.Int("nnodes")
            e.assume(z3.And(e.N >= 1, e.N <= MAXN))
            e.set = o = mkresults(e, st, empty=(case == "empty"))
            R0 = e.R0 = Results(e, st, o)
            e.assume(R0.LEN == 0 if case == "empty" else R0.LEN > 0)
            e.ordered = z3.Int("ordered")
            for l, f in R0.wf(e.N):
                e.assume(f)
            e.assume(R0.finite())
            e.assume(z3.Implies(e.ordered != 0, R0.sorted()))
            e.id, e.d = e.fresh_int("id", "i64"), e.dfacts(e.fresh_dbl("dist"))
            e.assume(z3.And(e.id >= 0, e.id < e.N, R0.AT[e.id] < 0, isfin(e.d)))
            e.old = {w: e.getmem(st, o, "kdset." + w, ty) for w, ty in (("beingread", "i32"),)}
            return st, [to(o), e.id, e.d, e.ordered]

        def inv(e_, L, st, add):
            R = e.R0
            for ph in L.phis:
                if ph.pool:
                    add("%s is in the list" % ph.name, lambda s, ph=ph: z3.And(ph.cur >= 0, R.POS[ph.cur] >= 0, R.POS[ph.cur] < R.LEN, R.SEQ[R.POS[ph.cur]] == ph.cur))
                    add("not before %s" % ph.name, lambda s, ph=ph: num(R.dist[ph.cur]) <= num(e.d))
        e.loopinv = inv

        def finish(e, st, ret):
            R0, N = e.R0, e.N
            new = [(o, d.addr) for o, d in st.desc.items() if d.kind == "pooled"]
            if len(new) != 1:
                e.oblige("post", FALSE, "one element is made")
                return
            A = new[0][1]
            R = Results(e, st, e.set)
            # the element the new one follows, if there is one
            w = e.fresh("before", I)
            hit = lambda x: z3.And(R0.POS[x] >= 0, R0.POS[x] < R0.LEN, R0.SEQ[R0.POS[x]] == x, R.next[x] == A)
            e.assume(z3.ForAll([m_], z3.Implies(hit(m_), hit(w)), patterns=[R.next[m_]]))
            p = named(e, z3.If(R.root == A, 0, R0.POS[w] + 1))
            seq, pos = e.fresh("seq", AI), e.fresh("pos", AI)
            e.assume(z3.ForAll([m_], seq[m_] == z3.If(m_ < p, R0.SEQ[m_], z3.If(m_ == p, A, R0.SEQ[m_ - 1])), patterns=[seq[m_]]))
            e.assume(z3.ForAll([m_], pos[m_] == z3.If(m_ == A, p, z3.If(R0.POS[m_] < p, R0.POS[m_], R0.POS[m_] + 1)), patterns=[pos[m_]]))
            st = st.copy()
            st.ghost.update(SEQ=seq, POS=pos, AT=z3.Store(R0.AT, e.id, A), LEN=R0.LEN + 1)
            R1 = Results(e, st, e.set)
            e.oblige("post", Or(R.root == A, hit(w)), "the element is linked into the list")
            for l, f in R1.wf(N) + inserted(R0, R1, A, p, e.id, e.d) + [("distances are finite", R1.finite()), ("the order is kept", z3.Implies(e.ordered != 0, R1.sorted()))]:
                e.oblige("post", f, l)
            e.oblige("post", And(R1.id[A] == e.id, R1.dist[A] == e.d), "the element holds the node and its distance")
            e.oblige("post", z3.ForAll([m_], z3.Implies(z3.And(m_ != A), z3.And(R1.id[m_] == R0.id[m_], R1.dist[m_] == R0.dist[m_], R1.live[m_] == R0.live[m_])), patterns=[R1.id[m_]]), "other elements are as they were")
            q = e.getmem(st, e.set, "kdset.beingread", "i32")
            e.oblige("post", q == (0 if case == "empty" else e.old["beingread"]), "reading is as before, not begun in a new set")
            untouched(e, st, {e.set, "results"})
        e.run(setup, finish)
        return e
    return build


def inrange(e, st, t, m):
    return dist2(e, st, t, m) <= e.square(num(e.range))


def range_pre(e, st, t, R, v):
    return R.wf(e.N) + [("distances are finite", R.finite()), ("the list is in order", z3.Implies(e.ordered != 0, R.sorted())),
                        ("distances are those of the nodes", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.N, R.AT[m_] >= 0), num(R.dist[R.AT[m_]]) == dist2(e, st, t, m_)), patterns=[R.AT[m_]])),
                        ("no node below is in the set yet", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.N, v >= 0, SUB(v, m_)), R.AT[m_] < 0), patterns=[R.AT[m_]]))]


def range_post(e, st, t, R0, R, v, ret):
    return R.wf(e.N) + [("distances are finite", R.finite()), ("the list is in order", z3.Implies(e.ordered != 0, R.sorted())),
                        ("distances are those of the nodes", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.N, R.AT[m_] >= 0), num(R.dist[R.AT[m_]]) == dist2(e, st, t, m_)), patterns=[R.AT[m_]])),
                        ("nodes found before stay", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.N, R0.AT[m_] >= 0), R.AT[m_] >= 0), patterns=[R0.AT[m_], R.AT[m_]])),
                        ("the nodes within the range below are added", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.N, v >= 0, SUB(v, m_), inrange(e, st, t, m_)), R.AT[m_] >= 0), patterns=[R.AT[m_], SUB(v, m_)])),
                        ("no others are added", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.N, R.AT[m_] >= 0, R0.AT[m_] < 0), z3.And(v >= 0, SUB(v, m_), inrange(e, st, t, m_))), patterns=[R.AT[m_]])),
                        ("the number of added nodes is returned", And(ret == R.LEN - R0.LEN, ret >= 0))]


def within_c(e, i, av):
    """_kd_findnodeswithinrange: proved by task range_below (its own recursive calls against this contract)."""
    tp, v, cp, rng, sp, ordered = av
    st, t = e.st, e.tree
    if only_obj(tp) != t.obj or only_obj(cp) != e.qobj:
        raise Unsupported("search in another tree or for another point")
    e.oblige("pre", And(v >= -1, v < e.N), "search: a node of the tree, or none")
    e.oblige("pre", And((ordered != 0) == (e.ordered != 0), num(rng) == num(e.range), isfin(rng)), "search: for the same range and order")
    if e.fname == "_kd_findnodeswithinrange":
        e.oblige("variant", Or(v == -1, v > e.v), "search: moves on to a later node")
    v = named(e, v)
    o = only_obj(sp)
    if o != getattr(e, "set", o):
        raise Unsupported("another set of results")
    R0 = Results(e, st, o)
    for l, f in range_pre(e, st, t, R0, v):
        e.oblige("pre", f, "search: " + l)
    e.glob.append(z3.Implies(v >= 0, defs(v)))
    for w, srt in (("SEQ", AI), ("POS", AI), ("AT", AI), ("LEN", I)):
        st.ghost[w] = e.fresh(w, srt)
    st.mem[("results", "@live")] = e.fresh("live", z3.ArraySort(I, B))
    for w, srt in (("id", AI), ("dist", FD), ("next", AI)):
        st.mem[("results", "resnode." + w)] = e.fresh(w, srt)
    r = e.fresh_int("root", "i64")
    e.assume(r >= -1)
    setf(e, st, o, "kdset.root", e.element("results", r), "ptr")
    q, old = e.fresh_int("beingread", "i32"), e.getmem(st, o, "kdset.beingread", "i32")
    setf(e, st, o, "kdset.beingread", q, "i32")
    setf(e, st, o, "kdset.size", e.fresh_int("size", "i64"), "i64")
    setf(e, st, o, "kdset.toread", to(e.opaque(st, "toread")), "ptr")
    R1 = Results(e, st, o)
    ret = e.fresh_int("added", "i32")
    g = e.reach[e.cur]
    for l, f in range_post(e, st, t, R0, R1, v, ret):
        e.assume(f, g)
    e.assume(z3.Implies(R1.LEN > 0, q == z3.If(R0.LEN == 0, 0, old)), g)
    e.assume(R1.LEN <= e.N, g)      # distinct nodes: by counting
    return ret


def range_below(nd):
    """_kd_findnodeswithinrange."""
    def build(module, tag=""):
        e = engine(module, "_kd_findnodeswithinrange", tag, nd, {"_kd_findnodeswithinrange": within_c, "_kdset_insert": setinsert_c}, arith="real")
        e.squares = True

        def setup(e):
            st = State()
            e.names = []
            t = searchtree(e, st, nd)
            for l, f in t.shape(st, e.N):
                e.assume(f)
            e.v = v = z3.Int("nodeid")
            e.assume(z3.And(v >= -1, v < e.N))
            e.assume(z3.Implies(v >= 0, defs(v)))
            lemmas(e, st, t, e.N)
            split(e, st, t, e.N, v)
            e.qobj = query(e, st, t)
            e.set = mkresults(e, st)
            e.range = e.dfacts(z3.Const("range", F))
            e.assume(z3.And(isfin(e.range), num(e.range) >= 0))
            e.ordered = z3.Int("ordered")
            e.R0 = Results(e, st, e.set)
            for l, f in range_pre(e, st, t, e.R0, v):
                e.assume(f)
            e.assume(e.R0.LEN <= e.N)
            e.q0 = e.getmem(st, e.set, "kdset.beingread", "i32")
            return st, [to(t.obj), v, to(e.qobj), e.range, to(e.set), e.ordered]

        def finish(e, st, ret):
            R = Results(e, st, e.set)
            for l, f in range_post(e, st, e.tree, e.R0, R, e.v, ret):
                e.oblige("post", f, l)
            q = e.getmem(st, e.set, "kdset.beingread", "i32")
            e.oblige("post", z3.Implies(R.LEN > 0, q == z3.If(e.R0.LEN == 0, 0, e.q0)), "reading is as before, not begun in a new set")
            untouched(e, st, {e.set, "results"})
        e.run(setup, finish)
        return e
    return build


def range_search(nd, case):
    """kd_findnodeswithinrange in an empty tree or one of some nodes."""
    def build(module, tag=""):
        e = engine(module, "kd_findnodeswithinrange", tag, nd, {"_kd_findnodeswithinrange": within_c}, arith="real")
        e.squares = True

        def setup(e):
            st = State()
            e.names = []
            t = searchtree(e, st, nd)
            if case == "empty":
                setf(e, st, t.obj, "kdtree.nnodes", ival(0), "i64")
                setf(e, st, t.obj, "kdtree.nallocated", ival(0), "i64")
                setf(e, st, t.obj, "kdtree.nodes", NULL, "ptr")
                setf(e, st, t.obj, "kdtree.coords", NULL, "ptr")
                e.qobj = flatmat(e, st, "query", ival(1), nd, ro=True)
            else:
                for l, f in t.shape(st, e.N):
                    e.assume(f)
                e.assume(defs(ival(0)))
                lemmas(e, st, t, e.N)
                e.qobj = query(e, st, t)
            e.allocator(st, "results", "resnode", ["next"])
            for w, srt in (("SEQ", AI), ("POS", AI)):
                st.ghost[w] = z3.Const(w, srt)
            st.ghost["AT"], st.ghost["LEN"] = z3.K(I, ival(-1)), ival(0)
            e.range = e.dfacts(z3.Const("range", F))
            e.assume(z3.And(isfin(e.range), num(e.range) >= 0))
            e.ordered = z3.Int("ordered")
            return st, [to(t.obj), to(e.qobj), e.range, e.ordered]

        def finish(e, st, ret):
            t = e.tree
            o = e.deref(ret, "result").obj
            e.oblige("post", And(z3.BoolVal(bool(st.desc[o].fresh)), st.alive.get(o, T)), "the set is new")
            R = Results(e, st, o)
            size = e.getmem(st, o, "kdset.size", "i64")
            if case == "empty":
                e.oblige("post", And(R.root == -1, size == 0), "nothing is found in an empty tree")
                return
            for l, f in R.wf(e.N):
                e.oblige("post", f, l)
            e.oblige("post", size == R.LEN, "the size of the set")
            e.oblige("post", z3.Implies(R.LEN > 0, e.getmem(st, o, "kdset.beingread", "i32") == 0), "reading has not begun")
            e.oblige("post", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.N), z3.And(SUB(0, m_), (R.AT[m_] >= 0) == inrange(e, st, t, m_))), patterns=[R.AT[m_]]), "exactly the nodes within the range are in the set")
            e.oblige("post", z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < e.N, R.AT[m_] >= 0), num(R.dist[R.AT[m_]]) == dist2(e, st, t, m_)), patterns=[R.AT[m_]]), "distances are those of the nodes")
            e.oblige("post", z3.Implies(e.ordered != 0, R.sorted()), "the list is in order")
            untouched(e, st, {o, "results"})
        e.run(setup, finish)
        return e
    return build


def read(case):
    """kdset_read: no set (null), empty, begin, next, end (all read)."""
    def build(module, tag=""):
        e = Engine(module, "kdset_read", {}, tag=tag, arith="real")
        e.prune = True

        def setup(e):
            st = State()
            e.names = []
            e.cell = e.mkobj(st, "dist", Desc("arr", "double", n=ival(1)))
            if case == "null":
                return st, [NULL, to(e.cell)]
            e.N = z3.Int("nnodes")
            e.set = o = mkresults(e, st, empty=case == "empty")
            R = e.R = Results(e, st, o)
            for l, f in R.wf(e.N) + [("", R.finite())]:
                e.assume(f)
            e.k = z3.Int("next") if case != "begin" else ival(0)
            e.assume({"empty": R.LEN == 0, "end": z3.And(e.k == R.LEN, R.LEN > 0)}.get(case, z3.And(e.k >= 0, e.k < R.LEN)))
            if case in ("next", "end"):
                q = z3.Int("beingread")
                e.assume(q != 0)
                setf(e, st, o, "kdset.beingread", q, "i32")
                cur = e.element("results", z3.If(e.k < R.LEN, R.SEQ[e.k], -1)) if case == "next" else NULL
                setf(e, st, o, "kdset.toread", cur, "ptr")
            elif case == "begin":
                setf(e, st, o, "kdset.beingread", ival(0), "i32")
                u = z3.Int("junk")
                e.assume(u >= -1)
                setf(e, st, o, "kdset.toread", e.element("results", u), "ptr")
            return st, [to(o), to(e.cell)]

        def finish(e, st, ret):
            d = st.mem.get((e.cell, "@double"))
            d = d[0] if d is not None else None
            if case in ("null", "empty", "end"):
                e.oblige("post", ret == -1, "nothing to read")
                e.oblige("post", isnan(d), "no distance")
                untouched(e, st, {e.cell} | ({e.set} if case == "end" else set()))
                if case == "end":
                    e.oblige("post", And(e.number(st, e.getmem(st, e.set, "kdset.toread", "ptr"), "results") == -1, e.getmem(st, e.set, "kdset.beingread", "i32") != 0,
                                         e.number(st, e.getmem(st, e.set, "kdset.root", "ptr"), "results") == e.R.root), "nothing changes")
                return
            R = e.R
            x = R.SEQ[e.k]
            e.oblige("post", ret == R.id[x], "the next node is returned")
            e.oblige("post", z3.Implies(num(R.dist[x]) >= 0, And(isfin(d), num(d) >= 0, num(d) * num(d) == num(R.dist[x]))), "and its distance")
            e.oblige("post", e.getmem(st, e.set, "kdset.beingread", "i32") != 0, "reading has begun")
            e.oblige("post", e.number(st, e.getmem(st, e.set, "kdset.toread", "ptr"), "results") == z3.If(e.k + 1 < R.LEN, R.SEQ[e.k + 1], -1), "the one after it is next")
            e.oblige("post", e.number(st, e.getmem(st, e.set, "kdset.root", "ptr"), "results") == R.root, "the list stays")
            untouched(e, st, {e.set, e.cell})
        e.run(setup, finish)
        return e
    return build


def release(case):
    """kdset_free."""
    def build(module, tag=""):
        e = Engine(module, "kdset_free", {}, tag=tag)

        def setup(e):
            st = State()
            e.names = []
            if case == "null":
                return st, [NULL]
            e.N = z3.Int("nnodes")
            e.set = mkresults(e, st)
            R = e.R = Results(e, st, e.set)
            for l, f in R.wf(e.N):
                e.assume(f)
            return st, [to(e.set)]

        def gone(s, upto):
            R = e.R
            lv = named(e, s.mem[("results", "@live")])
            return z3.And(z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < R.LEN), lv[R.SEQ[m_]] == (m_ >= upto)), patterns=[R.SEQ[m_]]),
                          z3.ForAll([m_], z3.Implies(z3.Not(z3.And(R.POS[m_] >= 0, R.POS[m_] < R.LEN, R.SEQ[R.POS[m_]] == m_)), lv[m_] == R.live[m_]), patterns=[lv[m_]]))

        def inv(e_, L, st, add):
            R = e.R
            for ph in L.phis:
                if ph.pool:
                    at = lambda ph=ph: z3.If(ph.cur == -1, R.LEN, R.POS[ph.cur])
                    add("%s is in the list" % ph.name, lambda s, ph=ph: z3.Or(ph.cur == -1, z3.And(ph.cur >= 0, R.POS[ph.cur] >= 0, R.POS[ph.cur] < R.LEN, R.SEQ[R.POS[ph.cur]] == ph.cur)))
                    add("elements before %s are released" % ph.name, lambda s, at=at: gone(s, at()))
        e.loopinv = inv

        def finish(e, st, ret):
            if case == "null":
                return
            e.oblige("post", Not(st.alive.get(e.set, T)), "the set is released")
            e.oblige("post", gone(st, e.R.LEN), "all elements are released, and nothing else")
        e.run(setup, finish)
        return e
    return build


def getters(fn, nd):
    """kd_getsize, kd_getnodecoords, kd_getnodeorigid, kd_getminmax, kdset_getsize."""
    def build(module, tag=""):
        e = engine(module, fn, tag, nd)

        def setup(e):
            st = State()
            e.names = []
            if fn == "kdset_getsize":
                e.set = mkresults(e, st)
                e.size = z3.Int("size")
                setf(e, st, e.set, "kdset.size", e.size, "i64")
                return st, [to(e.set)]
            t = searchtree(e, st, nd)
            e.v = z3.Int("id")
            e.assume(z3.And(e.v >= 0, e.v < e.N))
            O = t.a(st, "id_orig")
            e.assume(z3.And(O[e.v] >= 0, O[e.v] <= INTMAX))
            return st, [to(t.obj), e.v][:1 if fn in ("kd_getsize", "kd_getminmax") else 2]

        def finish(e, st, ret):
            if fn == "kdset_getsize":
                e.oblige("post", ret == e.size, "the size of the set")
            elif fn == "kd_getsize":
                e.oblige("post", ret == e.N, "the number of nodes")
            elif fn == "kd_getnodeorigid":
                e.oblige("post", ret == e.tree.a(st, "id_orig")[e.v], "the number the node was made with")
            else:
                o = e.tree.o(st, "coords" if fn == "kd_getnodecoords" else "min")
                u = ret.alts[0][1] if len(ret.alts) == 1 else None
                if u is None or u.obj != o:
                    e.oblige("post", FALSE, "where the values are")
                else:
                    u = e.flatten(st.desc[o], u)
                    e.oblige("post", And(u.row == (e.v if fn == "kd_getnodecoords" else 0), u.col == 0), "where the values are")
            untouched(e, st, set())
        e.run(setup, finish)
        return e
    return build
