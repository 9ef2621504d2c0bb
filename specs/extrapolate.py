"""C05: corner and double density nodes from centres.

The tree is seen through its contracts (C12, C13) as a set of positions: ghost IN holds the positions put in
(doubled, so that they are integers), SIZE their number, VER stands for the state of the tree; NR and NC(VER, y, x)
are the row and column of the position the tree finds for the query (y, x), all doubled."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg.templates import Comp, components
from vcg import contracts as C
from vcg.contracts import only_obj, halfint
from specs.select import inside, source_unchanged, not_again
from specs.stats import need
from specs import kd, mapping

KEEP = C.KEEP | {"shuffle", "fij2xy", "gridnodes_validate_cor", "gridnodes_validate_dd", "kd_getsize", "kd_getnodeorigid", "kd_getminmax"}
BL = z3.Function("bilinear", A2["double"], I, I, I, I, F)      # array, cell (row, column), doubled indices (row, column)
DD = z3.Function("distance2", I, I, I)                        # square of the distance of doubled positions
NR, NC = [z3.Function(w, I, I, I, I) for w in ("nearestrow", "nearestcol")]
NODER, NODEC = [z3.Function(w, I, I) for w in ("noderow", "nodecol")]
PR, PC = [z3.Function(w, I, I) for w in ("rowofplace", "colofplace")]    # entries of the list of cells
PK, VID, COMP = z3.Function("placeofcell", I, I, I), z3.Function("idofcell", I, I, I), z3.Function("complete", I, I, B)
WANTED = z3.Function("wanted", I, I, B)      # true of every cell; steers instances
INSET = z3.ArraySort(I, I, B)
r_, c_, a_, b_, m_ = z3.Ints("r c a b m")


# ---------------------------------------------------------------- the tree as seen by its user
def tree_facts(e, st, nearest=False):
    """What holds in every state of the tree (nearest: with the choice of the search)."""
    IN, VER, SIZE = [st.ghost[w] for w in ("IN", "VER", "SIZE")]
    R_ = e.reach[e.cur]
    e.assume(And(SIZE >= 0, Implies(SIZE == 0, z3.ForAll([r_, c_], z3.Not(IN[r_, c_]), patterns=[IN[r_, c_]]))), R_)
    nr, nc = NR(VER, b_, a_), NC(VER, b_, a_)
    e.assume(Implies(SIZE > 0, z3.ForAll([b_, a_], IN[nr, nc], patterns=[nr, nc])), R_)
    if nearest:
        e.assume(Implies(SIZE > 0, z3.ForAll([b_, a_, r_, c_], z3.Implies(IN[r_, c_], DD(nc - a_, nr - b_) <= DD(c_ - a_, r_ - b_)), patterns=[z3.MultiPattern(nr, IN[r_, c_]), z3.MultiPattern(nc, IN[r_, c_])])), R_)


def the_tree(e, p):
    o = only_obj(p)
    if o != e.tree:
        raise Unsupported("another tree")
    e.oblige("pre", e.st.alive.get(o, T), "tree in use was destroyed")
    return o


def kd_create(e, i, av):
    """kd_create: task kd_create (C12)."""
    st = e.st
    if e.tree is not None:
        raise Unsupported("several trees")
    e.oblige("pre", av[0] == 2, "kd_create: two dimensions")
    o = e.tree = e.mkobj(st, "kdtree", Desc("struct", ("named", "struct.kdtree"), fresh=True))
    st.alive[o] = T
    IN = e.fresh("IN", INSET)
    e.assume(z3.ForAll([r_, c_], z3.Not(IN[r_, c_]), patterns=[IN[r_, c_]]))
    st.ghost.update(IN=IN, SIZE=ival(0), VER=e.fresh("VER", I))
    return to(o)


def position(e, p, what):
    """The doubled coordinates at p."""
    st = e.st
    out = []
    for k in (0, 1):
        v = simp(e.load(st, e.gep("double", p, [ival(k)], [("i64", ("int", k))]), "double"))
        e.oblige("pre", isfin(v), "%s: coordinates are finite" % what)
        n = halfint(e, v)
        if n is None:
            raise Unsupported("%s: position is not known to be a half-integer" % what)
        out.append(n)
    return out


def kd_insertnode(e, i, av):
    """kd_insertnode: tasks kd_insertnode_* (C12)."""
    st = e.st
    the_tree(e, av[0])
    x, y = position(e, av[1], "kd_insertnode")
    st.ghost["IN"] = z3.Store(st.ghost["IN"], y, x, T)
    n = st.ghost["SIZE"]
    st.ghost["SIZE"] = simp(n + 1)
    e.assume(n >= 0)
    st.ghost["VER"] = e.fresh("VER", I)
    return None


def kd_getsize(e, i, av):
    """kd_getsize: task kd_getsize (C12)."""
    the_tree(e, av[0])
    tree_facts(e, e.st)
    return e.st.ghost["SIZE"]


def kd_findnearestnode(e, i, av):
    """kd_findnearestnode: tasks kd_nearest_* (C13)."""
    st = e.st
    the_tree(e, av[0])
    x, y = position(e, av[1], "kd_findnearestnode")
    tree_facts(e, st)
    e.oblige("pre", st.ghost["SIZE"] > 0, "kd_findnearestnode: the tree is not empty")
    n = e.fresh_int("nearest", "i64")
    V = st.ghost["VER"]
    e.assume(And(n >= 0, n < st.ghost["SIZE"], NODER(n) == NR(V, y, x), NODEC(n) == NC(V, y, x)), e.reach[e.cur])
    return n


def kd_getnodecoords(e, i, av):
    """kd_getnodecoords: task kd_getnodecoords (C12)."""
    st = e.st
    the_tree(e, av[0])
    n = av[1]
    e.oblige("pre", And(n >= 0, n < st.ghost["SIZE"]), "kd_getnodecoords: a node of the tree")
    o = e.mkobj(st, "coords" + i.res, Desc("arr", "double", n=ival(2), ro=True))
    st.alive[o] = T
    a = e.fresh("coords", A1["double"])
    for k, f in ((0, NODEC), (1, NODER)):
        a = z3.Store(a, ival(k), e.fop("fdiv", e.ofint(f(n)), e.dval(2.0)))
    st.mem[(o, "@double")] = a
    return to(o)


def kd_destroy(e, i, av):
    """kd_destroy: tasks kd_destroy_* (C12)."""
    o = the_tree(e, av[0])
    e.st.alive[o] = FALSE
    return None


def hypot(e, i, av):
    """The distance of doubled positions, compared with 1.5."""
    x, y = [halfint(e, v) for v in av]
    if x is None or y is None:
        raise Unsupported("hypot of other than half-integers")
    r = e.dfacts(e.fresh("hypot", F))
    e.assume(And(isfin(r), Not(isnan(r)), num(r) >= 0, (num(r) < z3.Q(3, 2)) == (DD(x, y) < 9), (num(r) <= z3.Q(3, 2)) == (DD(x, y) <= 9)))
    # the sum of the squares does not depend on signs and order
    neg = lambda v: z3.simplify(-v, som=True)
    for u in (x, neg(x)):
        for v in (y, neg(y)):
            e.assume(And(DD(u, v) == DD(x, y), DD(v, u) == DD(x, y)))
    return r


def shuffle_c(e, i, av):
    A = kd.named(e, e.getmem(e.st, only_obj(av[1]), "@i", "i64")) if e.st.desc[only_obj(av[1])].kind != "raw" else None
    kd.shuffle_c(e, i, av)
    if A is None:
        return None
    n, R_ = av[0], e.reach[e.cur]
    m = PK(r_, c_)
    # instances of the contract at the places of the cells
    e.assume(z3.ForAll([r_, c_], z3.Implies(z3.And(WANTED(r_, c_), m >= 0, m < n), z3.And(e.perm_to[m] >= 0, e.perm_to[m] < n, e.perm[e.perm_to[m]] == A[m])), patterns=[WANTED(r_, c_)]), R_)
    return None


def fij2xy_c(e, i, av):
    """fij2xy: task fij2xy_extrapolate."""
    gn, fi, fj, ci, cj, px, py = av
    st = e.st
    g = GridView(e, st, only_obj(gn))
    ki, kj = halfint(e, fi), halfint(e, fj)
    if ki is None or kj is None:
        raise Unsupported("fij2xy at other than half-integers")
    e.oblige("pre", And(ci >= 0, cj >= 0, ci + 1 < g.nx(st), cj + 1 < g.ny(st)), "fij2xy: a cell of the grid")
    for w, p in (("x", px), ("y", py)):
        e.store(st, p, e.dfacts(BL(g.arr(st, w), cj, ci, kj, ki)), "double")
    return None


def capture(e, i, av):
    """gridnodes_validate_cor, gridnodes_validate_dd: tasks validate_*_direct; what callers need is that nodes
    keep their coordinates or become NaN."""
    o = only_obj(av[0])
    if o == e.g.obj:
        raise Unsupported("the source is validated otherwise than by gridnodes_validate")
    st = e.st
    g = GridView(e, st, o)
    e.captured.append((o, g.arr(st, "x"), g.arr(st, "y"), g.mat(st, "x"), g.mat(st, "y"), simp(e.reach[e.cur])))
    n = len(e.validated)
    C.validate(e, i, av)
    e.after = e.validated[n]
    del e.validated[n:]
    return None


def extrapolate(type1, validated):
    def build(module, tag=""):
        need(module, "fij2xy", 7)
        need(module, "shuffle.gridnodes" if "shuffle.gridnodes" in module.funcs else "shuffle", 2)
        con = dict(C.BASE)
        inner = not_again if validated else C.validate
        con["gridnodes_validate"] = lambda e, i, av: inner(e, i, av) if only_obj(av[0]) == e.g.obj else capture(e, i, av)
        con.update({"kd_create": kd_create, "kd_insertnode": kd_insertnode, "kd_getsize": kd_getsize, "kd_findnearestnode": kd_findnearestnode,
                    "kd_getnodecoords": kd_getnodecoords, "kd_destroy": kd_destroy, "shuffle": shuffle_c, "fij2xy": fij2xy_c,
                    "gridnodes_validate_cor": capture, "gridnodes_validate_dd": capture})
        e = Engine(module, "gridnodes_transform", con, tag=tag, arith="real")
        e.z3opts = {"smt.arith.nl": False, "smt.arith.solver": 2}
        e.z3alts = [{"smt.arith.nl": False, "smt.arith.solver": 6}]
        e.numq = True
        two = type1 == NT["DD"]

        def arrays(e, st):
            return e.g.arr(st, "x"), e.g.arr(st, "y")

        def complete(X, r, c):
            nx, ny = e.g.nx(e.st0 if hasattr(e, "st0") else e.st), e.g.ny(e.st0 if hasattr(e, "st0") else e.st)
            return And(r >= 0, c >= 0, r + 1 < ny, c + 1 < nx, *[Not(isnan(X[r + a, c + b])) for a in (0, 1) for b in (0, 1)])

        def setup(e):
            st = State()
            e.externals["hypot"] = hypot
            e.validated, e.captured, e.tree, e.names, e.after, e.compX = [], [], None, [], None, None
            e.g = g = grid(e, st, "gn", type=NT["CEN"])
            v = z3.Int("validated0")
            e.assume(v != 0 if validated else v == 0)
            mt = z3.Int("maptype0")
            e.assume(z3.And(mt >= 0, mt <= 1))
            setf(e, st, g.obj, "gridnodes.maptype", mt, "i32")
            setf(e, st, g.obj, "gridnodes.validated", v if validated else ival(0), "i32")
            nx, ny = e.nx, e.ny = g.nx(st), g.ny(st)
            e.w, e.h = (2 * nx + 1, 2 * ny + 1) if two else (nx + 1, ny + 1)
            e.assume(z3.And(e.h * e.w <= INTMAX, nx * ny <= kd.MAXN, nx < MAXDIM, ny < MAXDIM))
            e.N = (nx - 1) * (ny - 1)
            r, c, p, w, h, q = z3.Ints("r c p w h q")
            # lemmas on rows and columns, for any numbers
            ins = And(r >= 0, c >= 0, r < h, c < w)
            for l, f in (("a place is within the list", And(r * w + c >= 0, r * w + c < w * h)),
                         ("a place belongs to one row", Implies(And(r * w + c == q * w + p, p >= 0, p < w), And(q == r, p == c))),
                         ("the inner cells are fewer", Implies(And(w >= 1, h >= 1), And((w - 1) * (h - 1) >= 0, (w - 1) * (h - 1) <= w * h)))):
                e.oblige("lemma", f if w is None or l[:3] == "the" else Implies(ins, f), l)
            e.glob.append(z3.And(e.N >= 0, e.N <= nx * ny))
            r, c, p = r_, c_, m_
            cell = lambda r, c: z3.And(r >= 0, c >= 0, r + 1 < ny, c + 1 < nx)
            # PK(r, c) = r * (nx - 1) + c, VID(r, c) = r * nx + c, for the cells; PR, PC invert PK
            e.glob.append(z3.ForAll([r, c], z3.Implies(cell(r, c), z3.And(PK(r, c) >= 0, PK(r, c) < e.N, PR(PK(r, c)) == r, PC(PK(r, c)) == c)), patterns=[PK(r, c)]))
            e.glob.append(z3.ForAll([r, c], z3.Implies(cell(r, c), z3.And(VID(r, c) >= 0, VID(r, c) < nx * ny, DIV(VID(r, c), nx) == r, MOD(VID(r, c), nx) == c)), patterns=[VID(r, c)]))
            e.glob.append(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < e.N), z3.And(cell(PR(p), PC(p)), PK(PR(p), PC(p)) == p)), patterns=[PR(p)]))
            e.cell = cell
            return st, [to(g.obj), ival(type1)]

        def defined(e, X):
            """COMP for the array in use."""
            k = ("comp", X.get_id())
            if k in e.onces:
                return
            e.onces.add(k)
            e.keep.append(X)
            if e.compX is not None:
                e.oblige("pre", e.compX == X, "the source does not change")
                return
            e.compX = X
            e.glob.append(z3.ForAll([r_, c_], COMP(r_, c_) == complete(X, r_, c_), patterns=[COMP(r_, c_)]))

        def query(r, c):
            return (r - 1, c - 1) if two else (2 * r - 1, 2 * c - 1)

        def clauses(st, A1, A, r, c):
            b, a = query(r, c)
            V = st.ghost["VER"]
            rr, cc = NR(V, b, a), NC(V, b, a)
            near = And(st.ghost["SIZE"] > 0, DD(cc - a, rr - b) < 9)
            return [("extrapolated", Implies(near, A1[r, c] == BL(A, rr / 2, cc / 2, b, a))), ("none near", Implies(Not(near), isnan(A1[r, c])))]

        def loopinv(e, L, st, add):
            X = arrays(e, st)[0]
            defined(e, X)
            ints = [p for M in L.chain for p in M.phis if p.ty not in ("ptr", "double") and p.ty != "i1"]
            own = [p for p in L.phis if p.ty not in ("ptr", "double", "i1")]
            for a in [p.cur for p in ints] + [ival(0)]:
                for b in [p.cur for p in ints] + [ival(0)]:
                    k = ("place", a.get_id(), b.get_id())
                    if k in e.onces or a.eq(b) and not isconst(a):
                        continue
                    e.onces.add(k)
                    e.keep += [a, b]
                    e.glob.append(z3.Implies(e.cell(a, b), z3.And(PK(a, b) == a * (e.nx - 1) + b, VID(a, b) == a * e.nx + b)))
            for p in own:
                for a in ints:
                    if a is p:
                        continue
                    add("%s at row %s" % (p.name, a.name), lambda s, p=p, a=a: p.cur == a.cur * (e.nx - 1))
                    for b in own:
                        if b is p or b is a:
                            continue
                        add("%s at row %s column %s" % (p.name, a.name, b.name), lambda s, p=p, a=a, b=b: p.cur == a.cur * (e.nx - 1) + b.cur)
            lists = [o for o, d in st.desc.items() if d.kind == "arr" and d.fresh and d.elem == "i64" and (o, "@i") in st.mem]
            for o in lists:
                for p in own:
                    def listed(s, o=o, p=p):
                        A = kd.named(e, s.mem[(o, "@i")])
                        return z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < p.cur, m_ < e.N), A[m_] == VID(PR(m_), PC(m_))), patterns=[A[m_]])
                    add("cells listed up to %s" % p.name, listed)
                    if "IN" in st.ghost:
                        def put(s, o=o, p=p):
                            A, IN = kd.named(e, s.mem[(o, "@i")]), s.ghost["IN"]
                            v = A[m_]
                            rr, cc = DIV(v, e.nx), MOD(v, e.nx)
                            return z3.ForAll([m_], z3.Implies(z3.And(m_ >= 0, m_ < p.cur, m_ < e.N, COMP(rr, cc)), IN[2 * rr + 1, 2 * cc + 1]), patterns=[v])
                        add("complete cells put in up to %s" % p.name, put)
            if "IN" in st.ghost:
                add("only complete cells", lambda s: z3.ForAll([r_, c_], z3.Implies(s.ghost["IN"][r_, c_], z3.And(r_ % 2 == 1, c_ % 2 == 1, COMP(r_ / 2, c_ / 2))), patterns=[s.ghost["IN"][r_, c_]]))
                add("size", lambda s: s.ghost["SIZE"] >= 0)
                comps = []
                mats = [o for o, d in st.desc.items() if d.kind == "mat" and d.fresh and d.elem == "double" and (o, "@double") in e.mods.get(L.header, ())]
                for k, m in enumerate(mats):
                    for w in "xy":
                        for q in (0, 1):
                            def fn(s, r, c, m=m, w=w, q=q):
                                A1 = s.mem.get((m, "@double"))
                                return T if A1 is None or "VER" not in s.ghost else clauses(s, A1, e.g.arr(s, w), r, c)[q][1]
                            comps.append(Comp("new%d %s%d" % (k, w, q), fn, lambda r, c: inside(e.w, e.h, r, c), lambda s, r, c, m=m: [s.mem[(m, "@double")][r, c]] if (m, "@double") in s.mem else None))
                components(e, L, st, add, comps)
        e.loopinv = loopinv

        def finish(e, st, ret):
            if validated:
                X, Y = e.g.arr(e.st0, "x"), e.g.arr(e.st0, "y")
            else:
                if len(e.validated) != 1:
                    e.oblige("post", FALSE, "the grid is validated once")
                    return
                X, Y = e.validated[0]
            o = e.deref(ret, "result").obj
            g, d = GridView(e, st, o), st.desc[o]
            e.oblige("post", And(z3.BoolVal(d.fresh), st.alive.get(o, T)), "the result is a new grid")
            e.oblige("post", And(g.nx(st) == e.w, g.ny(st) == e.h), "size of the result")
            e.oblige("post", g.f(st, "type") == type1, "type of the result")
            e.oblige("post", g.f(st, "maptype") == e.g.f(e.st0, "maptype"), "map type of the result")
            mats = [g.mat(st, w) for w in "xy"]
            if None in mats or mats[0] == mats[1]:
                e.oblige("post", FALSE, "the result has node arrays of its own")
                return
            e.oblige("post", And(*[And(z3.BoolVal(st.desc[m].fresh), st.alive.get(m, T), st.desc[m].nr == e.h, st.desc[m].nc == e.w) for m in mats]), "the result has node arrays of its own")
            if len(e.captured) != 1 or e.captured[0][0] != o or list(e.captured[0][3:5]) != mats:
                e.oblige("post", FALSE, "the result is validated once")
                return
            e.oblige("post", And(*[g.arr(st, w) == e.after[k] for k, w in enumerate("xy")]), "the result is returned as validated")
            if "IN" not in st.ghost:
                e.oblige("post", FALSE, "cells are found through the tree")
                return
            defined(e, X)
            tree_facts(e, st, True)
            r, c, i, j = z3.Ints("r c i j")
            for w, A, A1 in (("x", X, e.captured[0][1]), ("y", Y, e.captured[0][2])):
                for lab, f in clauses(st, A1, A, r, c):
                    e.oblige("post", z3.ForAll([r, c], z3.Implies(inside(e.w, e.h, r, c), f), patterns=[A1[r, c]]), "%s of every node: %s" % (w, lab))
            b, a = query(r, c)
            V, S_, IN = st.ghost["VER"], st.ghost["SIZE"], st.ghost["IN"]
            rr, cc = NR(V, b, a), NC(V, b, a)
            e.oblige("post", z3.ForAll([i, j], z3.Implies(z3.And(COMP(j, i), WANTED(j, i)), z3.And(S_ > 0, IN[2 * j + 1, 2 * i + 1])), patterns=[WANTED(j, i)]), "every complete block can be found")
            e.oblige("post", z3.ForAll([r, c], z3.Implies(z3.And(inside(e.w, e.h, r, c), S_ > 0), z3.And(rr % 2 == 1, cc % 2 == 1, COMP(rr / 2, cc / 2))), patterns=[rr]), "the block of a node is complete")
            e.oblige("post", z3.ForAll([r, c, i, j], z3.Implies(z3.And(inside(e.w, e.h, r, c), IN[2 * j + 1, 2 * i + 1]), DD(cc - a, rr - b) <= DD(2 * i + 1 - a, 2 * j + 1 - b)), patterns=[z3.MultiPattern(rr, COMP(j, i))]), "no complete block is nearer")
            source_unchanged(e, st, X, Y)
            e.oblige("post", Not(st.alive.get(e.tree, T)), "the tree is released")
            e.oblige("post", And(*[Not(st.alive.get(x, T)) for x, d in st.desc.items() if x.startswith("heap") and d.elem == "i64"]), "the list of cells is released")
        e.run(setup, finish)
        return e
    return build


# ---------------------------------------------------------------- the extrapolation
def fij2xy(module, tag=""):
    need(module, "fij2xy", 7)
    e = Engine(module, "fij2xy", dict(C.BASE), tag=tag, arith="real")
    e.z3opts = {"smt.arith.solver": 2}

    def setup(e):
        st = State()
        e.g = g = grid(e, st, "gn", type=NT["CEN"], ro=True)
        e.fi, e.fj = e.dfacts(z3.Const("fi", F)), e.dfacts(z3.Const("fj", F))
        e.i, e.j = e.fresh_int("i", "i32"), e.fresh_int("j", "i32")
        e.assume(And(isfin(e.fi), isfin(e.fj), Not(isnan(e.fi)), Not(isnan(e.fj)), e.i >= 0, e.j >= 0, e.i + 1 < g.nx(st), e.j + 1 < g.ny(st)))
        e.outs = [mapping.outcell(e, st, "out" + w) for w in "xy"]
        return st, [to(g.obj), e.fi, e.fj, e.i, e.j, to(e.outs[0]), to(e.outs[1])]

    def finish(e, st, ret):
        u, v = num(e.fi) - z3.ToReal(e.i), num(e.fj) - z3.ToReal(e.j)
        for w, o in zip("xy", e.outs):
            A = e.g.arr(e.st0, w)
            res = e.getmem(st, o, "@double", "double")[0]
            for k, part in enumerate(mapping.bilinear(A, e.i, e.j, u, v, res)):
                e.oblige("post", part, "%s: %s" % (w, ("node", "edge i", "edge j", "interior")[k]))
            for a in (0, 1):
                for b in (0, 1):
                    n = A[e.j + b, e.i + a]
                    e.oblige("post", Implies(And(u == a, v == b, *[isfin(A[e.j + p, e.i + q]) for p in (0, 1) for q in (0, 1)]), And(Not(isnan(res)), num(res) == num(n))), "%s: corner %d,%d of the cell is reproduced" % (w, a, b))
    e.run(setup, finish)
    return e
