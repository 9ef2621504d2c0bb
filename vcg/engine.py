"""Verification-condition generation for one function of the extracted IR.

The function body is executed symbolically once as a DAG: loops are cut at
their headers (invariants checked on entry and on every back edge, everything
the loop modifies havocked), calls of functions under contract are replaced by
the contract.  Memory is a symbolic heap of objects (structs, arrays, matrices
with their row tables); every access gets a bounds/liveness obligation.
"""
import re, sys
from fractions import Fraction
import z3
from . import ir

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
F = z3.DeclareSort("Dbl")
isnan = z3.Function("isnan", F, B)
isfin = z3.Function("isfin", F, B)
num = z3.Function("num", F, R)            # numeric value; order key for infinities
zero_f = z3.Const("d0", F)
MAXR = z3.RealVal(str(2 ** 1024))
MAXFIN = z3.RealVal(str(2 ** 1024 - 2 ** 971))
A1 = {"double": z3.ArraySort(I, F), "i": z3.ArraySort(I, I)}
A2 = {"double": z3.ArraySort(I, I, F), "i": z3.ArraySort(I, I, I)}
RANGE = {"i1": (0, 1), "i8": (-128, 127), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1)}
WIDTH = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
SIZE = {"double": 8, "i32": 4, "i64": 8, "i8": 1, "ptr": 8, "i16": 2}


class Unsupported(Exception):
    pass


def ival(x):
    return z3.IntVal(x)


def isconst(e):
    return z3.is_int_value(e)


def is_true(e):
    return e is True or z3.is_true(e)


def is_false(e):
    return e is False or z3.is_false(e)


def simp(e):
    return z3.simplify(e) if z3.is_expr(e) else z3.BoolVal(e)


def And(*a):
    a = [x for x in a if not is_true(x)]
    if any(is_false(x) for x in a):
        return z3.BoolVal(False)
    return z3.BoolVal(True) if not a else a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if not is_false(x)]
    if any(is_true(x) for x in a):
        return z3.BoolVal(True)
    return z3.BoolVal(False) if not a else a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    return z3.BoolVal(False) if is_true(a) else z3.BoolVal(True) if is_false(a) else z3.Not(a)


def Implies(a, b):
    if is_true(a):
        return b
    if is_false(a) or is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def If(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    return z3.If(c, a, b)


def monomials(p):
    """A polynomial over arbitrary real subterms as {sorted tuple of atom ids: coefficient}."""
    def add(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + k * c
            if not r[m]:
                del r[m]
        return r

    def mul(a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n))
                r[k] = r.get(k, 0) + c * d
                if not r[k]:
                    del r[k]
        return r
    if z3.is_rational_value(p):
        v = p.as_fraction()
        return {(): v} if v else {}
    ch = p.children()
    if z3.is_add(p):
        r = {}
        for c in ch:
            r = add(r, monomials(c))
        return r
    if z3.is_sub(p):
        r = monomials(ch[0])
        for c in ch[1:]:
            r = add(r, monomials(c), -1)
        return r
    if z3.is_mul(p):
        r = monomials(ch[0])
        for c in ch[1:]:
            r = mul(r, monomials(c))
        return r
    if z3.is_app_of(p, z3.Z3_OP_UMINUS):
        return add({}, monomials(ch[0]), -1)
    return {(p.get_id(),): Fraction(1)}


def identical(p, q):
    """Equality of polynomials as polynomials."""
    return monomials(p) == monomials(q)


class PV:
    """Pointer value: object name, row, column (element units), member path."""
    __slots__ = ("obj", "row", "col", "path")

    def __init__(s, obj, row=None, col=None, path=""):
        s.obj = obj
        s.row = ival(0) if row is None else row
        s.col = ival(0) if col is None else col
        s.path = path

    def __repr__(s):
        return "&%s[%s,%s].%s" % (s.obj, s.row, s.col, s.path)

    def same(s, o):
        return s.obj == o.obj and s.row.eq(o.row) and s.col.eq(o.col) and s.path == o.path


class Ptr:
    """Guarded alternatives; target None is the null pointer."""
    __slots__ = ("alts",)

    def __init__(s, alts):
        s.alts = alts

    def __repr__(s):
        return "Ptr(%s)" % s.alts

    def only(s):
        if len(s.alts) != 1:
            raise Unsupported("ambiguous pointer %r" % s)
        return s.alts[0][1]

    def nonnull(s):
        """Alternatives without null (null dereference is an obligation elsewhere)."""
        return [(g, t) for g, t in s.alts if t is not None]


T = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
NULL = Ptr([(T, None)])


def to(obj, row=None, col=None, path=""):
    return Ptr([(T, PV(obj, row, col, path))])


class Desc:
    """Static description of an object."""

    def __init__(s, kind, elem=None, n=None, nr=None, nc=None, mat=None, bytes=None, zero=False, fresh=False, ro=False, pool=None, addr=None):
        s.kind, s.elem, s.n, s.nr, s.nc, s.mat, s.bytes, s.zero, s.fresh, s.ro = kind, elem, n, nr, nc, mat, bytes, zero, fresh, ro
        s.pool, s.addr = pool, addr
        s.live = False    # arr: elements are allocated one by one (see allocator)
        s.flat = False    # mat: indexed linearly
        s.ptrs = {}       # arr: member path -> object its pointers point into (stored as element numbers, null is -1)
        # kinds: struct (elem = struct name), arr (elem scalar type or struct), mat (elem), rows (mat), raw, opaque, cells (small array of pointers), pooled


class State:
    def __init__(s):
        s.desc = {}       # obj -> Desc
        s.mem = {}        # (obj, path) -> value
        s.alive = {}      # obj -> bool expr (absent: True)
        s.ghost = {}      # ghost variables

    def copy(s):
        t = State()
        t.desc = dict(s.desc)
        t.mem = dict(s.mem)
        t.alive = dict(s.alive)
        t.ghost = dict(s.ghost)
        return t


class Oblig:
    __slots__ = ("kind", "label", "block", "reach", "goal", "pos", "line", "cand", "status", "time", "by", "detail", "where", "inst")

    def __init__(s, kind, label, block, reach, goal, pos, line):
        s.kind, s.label, s.block, s.reach, s.goal, s.pos, s.line = kind, label, block, reach, goal, pos, line
        s.cand = None
        s.status = None
        s.time = 0
        s.by = None
        s.detail = None
        s.where = None


class Cand:
    def __init__(s, id, loop, label, fn, hard=False, numeric=False):
        s.id, s.loop, s.label, s.fn, s.hard, s.numeric = id, loop, label, fn, hard, numeric
        s.guard = z3.Bool("inv!%s" % id)
        s.obs = []


class Loop:
    def __init__(s, header):
        s.header = header
        s.blocks = set()
        s.latches = []
        s.parent = None
        s.phis = []        # int phi records
        s.depth = 0


def canon(p):
    """Normal form of a polynomial."""
    p = z3.simplify(p, som=True)
    if z3.is_add(p):
        return z3.Sum(*sorted(p.children(), key=lambda t: t.sexpr()))
    return p


class Phi:
    """An integer quantity carried by a loop."""

    def __init__(s, name, src, val, init):
        s.name, s.src, s.val, s.init = name, src, val, init
        s.cur = val
        s.step = None
        s.ty = "i32"
        s.pool = None

    def __repr__(s):
        return "%s(step %s)" % (s.name, s.step)


class Engine:
    def __init__(s, module, fname, contracts=None, arith="none", bytesmode=False, tag="", nl=False, unroll=0, spec=None):
        s.m = module
        s.fname = fname
        s.f = module.find(fname)
        if spec:
            # the module is shared between tasks
            import copy
            from .unroll import specialised
            s.f = specialised(copy.deepcopy(s.f), module, spec)
        if unroll:
            from .unroll import unrolled
            s.f = unrolled(s.f, unroll)
        s.contracts = contracts or {}
        s.arith = arith
        s.bytesmode = bytesmode
        s.nl = nl
        s.tag = tag
        s.prune = False        # settle branch conditions on the way
        s.exact = False        # unsigned arithmetic and truncation are shown not to wrap
        s.rats = {}
        s.linear = None        # matrices walked through cell by cell from their first row: gives row and column
        s.flatcols = None      # blocks of doubles are matrices of so many columns, indexed linearly
        s.trace = []
        s.hasqs, s.abstract = {}, None
        s.quotients, s.roots = [], []    # values the quotients and roots of the code are compared with
        s.mods = {}            # header -> set of (obj, path)
        s.quit_ok = None       # fn(state) -> allowed-quit condition
        s.loopinv = None       # fn(eng, loop, st) -> list of (label, builder[, hard])
        s.terms = []           # int terms used in bound templates
        s.cmpterms = {}        # loop header -> loop-invariant operands of comparisons
        s.scales = [(1, 1, 0)]   # (m, k, o): index x with m*x compared to k*counter+o
        s.dims = []
        s.factors = []         # (factor, [bounds]): counters advancing by at most `factor` per outer step
        s.comps = []
        s.watch = []
        s.typehints = {}       # struct -> pool object
        s.externals = {}
        s.extra_quit = []
        s.analyse()

    # ------------------------------------------------------------ CFG
    def analyse(s):
        f = s.f
        entry = f.order[0]
        seen, post = set(), []
        stack = [(entry, iter(f.blocks[entry].succ))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(f.blocks[x].succ)))
                    break
            else:
                post.append(b)
                stack.pop()
        s.rpo = post[::-1]
        num_ = {b: i for i, b in enumerate(s.rpo)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                ps = [p for p in f.blocks[b].pred if p in idom and p in num_]
                n = ps[0]
                for p in ps[1:]:
                    a = p
                    while a != n:
                        while num_[a] > num_[n]:
                            a = idom[a]
                        while num_[n] > num_[a]:
                            n = idom[n]
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        s.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        s.loops = {}
        s.back = set()
        for b in s.rpo:
            for x in f.blocks[b].succ:
                if num_[x] <= num_[b]:
                    if not dom(x, b):
                        raise Unsupported("irreducible control flow at %s" % x)
                    s.back.add((b, x))
                    L = s.loops.setdefault(x, Loop(x))
                    L.latches.append(b)
                    body = {x}
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y)
                            st += [p for p in f.blocks[y].pred if p in num_]
                    L.blocks |= body
        for L in s.loops.values():
            cands = [M for M in s.loops.values() if M is not L and L.header in M.blocks]
            if cands:
                L.parent = min(cands, key=lambda M: len(M.blocks))
        for L in s.loops.values():
            p = L.parent
            while p:
                L.depth += 1
                p = p.parent
        # DAG ancestors
        s.anc = {}
        for b in s.rpo:
            a = {b}
            for p in f.blocks[b].pred:
                if p in num_ and (p, b) not in s.back:
                    a |= s.anc[p]
            s.anc[b] = a
        s.regdef = {}
        for b in s.rpo:
            for i in f.blocks[b].insts:
                if i.res:
                    s.regdef[i.res] = (b, i)

    # ------------------------------------------------------------ naming
    def fresh(s, name, sort):
        s.cnt[name] = s.cnt.get(name, -1) + 1
        n = "%s%s!%d" % (s.tag, name, s.cnt[name])
        s.constblock[n] = s.cur
        return z3.Const(n, sort)

    def nlmul(s, x, y):
        """x*y with the monotonicity facts the dimensions need."""
        e = x * y
        for nr, nc in getattr(s, "dims", []):
            k = ("nl", x.get_id(), nr.get_id(), nc.get_id())
            if y.eq(nc) and k not in s.onces:
                s.onces.add(k)
                s.keep.append(x)
                s.glob.append(z3.And(z3.Implies(z3.And(x >= 0, x <= nr, nc >= 0), z3.And(x * nc >= 0, x * nc <= nr * nc)),
                                     z3.Implies(z3.And(x >= 0, x < nr, nc >= 0), x * nc + nc <= nr * nc)))
        return e

    def fresh_int(s, name, ty="i32"):
        v = s.fresh(name, I)
        lo, hi = RANGE[ty]
        s.assume(z3.And(v >= lo, v <= hi))
        return v

    def fresh_dbl(s, name):
        return s.fresh(name, F)

    def bounded_product(s, x, t, bounds):
        """x*t together with x <= b => x*t <= b*t for the listed b."""
        for b in bounds:
            k = ("bp", x.get_id(), t.get_id(), b.get_id())
            if k not in s.onces:
                s.onces.add(k)
                s.keep += [x, t, b]
                s.glob.append(z3.Implies(z3.And(t >= 0, x <= b), x * t <= b * t))
        return x * t

    # ------------------------------------------------------------ assumptions / obligations
    def assume(s, f, guard=None, kind="def"):
        if is_true(f):
            return
        if guard is not None and not is_true(guard):
            f = z3.Implies(guard, f)
        s.asm.append((s.cur, f, kind))

    def oblige(s, kind, goal, label="", line=None, st=None):
        if is_true(goal):
            return
        g = simp(goal) if not z3.is_quantifier(goal) else goal
        if is_true(g):
            s.trivial += 1
            return
        o = Oblig(kind, label, s.cur, s.reach[s.cur], goal, len(s.asm), line if line is not None else s.curline)
        o.where = s.curwhere
        s.obl.append(o)
        if kind not in ("inv", "post"):
            s.assume(goal, s.reach[s.cur], kind="chk")
        return o

    # ------------------------------------------------------------ doubles
    def dconst(s, txt):
        if txt.startswith("0x"):
            import struct
            d = struct.unpack(">d", bytes.fromhex(txt[2:].zfill(16)))[0]
        else:
            d = float(txt)
        return s.dval(d)

    def dval(s, d):
        import math
        if d != d:
            c = z3.Const("dNaN", F)
            s.once("nan", z3.And(isnan(c), z3.Not(isfin(c))))
            return c
        if math.isinf(d):
            c = z3.Const("dInf%s" % ("+" if d > 0 else "-"), F)
            s.once(c.decl().name(), z3.And(z3.Not(isnan(c)), z3.Not(isfin(c)), num(c) == (MAXR if d > 0 else -MAXR)))
            return c
        if d == 0.0 and math.copysign(1, d) > 0:
            c = zero_f
        else:
            c = z3.Const("d%s" % d.hex(), F)
        fr = Fraction(d)
        s.rv[c.get_id()] = ((), z3.RealVal("%d/%d" % (fr.numerator, fr.denominator)))
        s.keep.append(c)
        s.once(c.decl().name(), z3.And(z3.Not(isnan(c)), isfin(c), num(c) == z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))))
        return c

    def once(s, key, f):
        if key not in s.onces:
            s.onces.add(key)
            s.glob.append(f)

    def dfacts(s, x):
        """Sort invariant of a double: finite => not NaN and |value| < 2^1024; infinite => +-2^1024."""
        k = ("df", x.get_id())
        if k not in s.onces:
            s.onces.add(k)
            s.keep.append(x)
            s.glob.append(z3.And(z3.Implies(isfin(x), z3.And(z3.Not(isnan(x)), num(x) <= MAXFIN, num(x) >= -MAXFIN)),
                                 z3.Or(isfin(x), isnan(x), num(x) == MAXR, num(x) == -MAXR)))
        return x

    FOPS = {k: z3.Function("f_" + k, F, F, F) for k in ("fadd", "fsub", "fmul", "fdiv", "hypot", "fmod", "pow", "atan2", "fmin", "fmax")}
    FUN = {k: z3.Function("f_" + k, F, F) for k in ("fneg", "fabs", "sqrt", "acos", "floor", "ceil", "cos", "sin")}
    OFI = z3.Function("f_ofint", I, F)
    WHOLE = {k: z3.Function(k + "_int", F, I) for k in ("floor", "ceil")}
    TRUNC = z3.Function("f_trunc", F, I)

    def fop(s, op, a, b):
        r = s.FOPS[op](a, b)
        k = ("op", r.get_id())
        if k not in s.onces:
            s.onces.add(k)
            s.keep.append(r)
            fa = z3.And(isfin(a), isfin(b))
            if op in ("fadd", "fsub", "fmul", "fdiv"):
                s.glob.append(z3.Implies(z3.Or(isnan(a), isnan(b)), z3.And(isnan(r), z3.Not(isfin(r)))))
            if op == "fdiv":
                s.glob.append(z3.Implies(z3.And(isfin(b), z3.Not(isfin(a))), z3.Not(isfin(r))))
            if op in ("fadd", "fsub", "fmul"):
                s.glob.append(z3.Implies(z3.Not(fa), z3.Not(isfin(r))))
            if s.arith == "real":
                s.realop(op, r, a, b, fa)
            s.dfacts(r)
        return r

    def rval(s, a):
        """Leaves and polynomial of a double over real arithmetic."""
        k = a.get_id()
        if k in s.rv:
            return s.rv[k]
        return ((a,), num(a))

    def literal(s, b):
        n = b.decl().name() if z3.is_const(b) else ""
        if n == "d0":
            return Fraction(0)
        if n.startswith(("d0x", "d-0x")):
            return Fraction(float.fromhex(n[1:]))
        return None

    def setpoly(s, r, leaves, poly):
        poly = z3.simplify(poly, som=True)
        if len(poly.sexpr()) > 6000:
            return False
        ls, seen = [], set()
        for l in leaves:
            if l.get_id() not in seen and s.literal(l) is None:
                seen.add(l.get_id())
                ls.append(l)
        s.rv[r.get_id()] = (tuple(ls), poly)
        s.glob.append(Implies(And(*[isfin(l) for l in ls]), z3.And(isfin(r), z3.Not(isnan(r)), num(r) == poly)))
        return True

    def realop(s, op, r, a, b, fa):
        x, y = num(a), num(b)
        ok = z3.And(isfin(r), z3.Not(isnan(r)))
        if op in ("fadd", "fsub", "fmul"):
            (la, pa), (lb, pb) = s.rval(a), s.rval(b)
            e = {"fadd": lambda p, q: p + q, "fsub": lambda p, q: p - q, "fmul": lambda p, q: p * q}[op]
            if op == "fsub" and ((b.decl().eq(s.OFI) and not isconst(b.arg(0))) or (getattr(s, "keepdiff", False) and s.literal(b) is None and not {a.get_id(), b.get_id()} & s.kept)):
                # a fractional part (or, on request, the difference of two inputs) stays one variable: products with it are not expanded
                s.kept.add(r.get_id())
                s.glob.append(z3.Implies(fa, z3.And(ok, num(r) == x - y)))
            elif op == "fmul" and s.squares and identical(pa, pb) and (la or lb) and s.setpoly(r, la + lb, s.square(pa)):
                pass
            elif not s.setpoly(r, la + lb, e(pa, pb)):
                s.glob.append(z3.Implies(fa, z3.And(ok, num(r) == e(x, y))))
            if s.infinities and op != "fmul":
                inf = lambda v: z3.And(z3.Not(isfin(v)), z3.Not(isnan(v)))
                s.glob.append(Implies(And(inf(a), isfin(b)), And(inf(r), num(r) == x)))
                s.glob.append(Implies(And(isfin(a), inf(b)), And(inf(r), num(r) == (y if op == "fadd" else -y))))
        elif op == "fdiv":
            lit = s.literal(b)
            if lit:
                la, pa = s.rval(a)
                if not s.setpoly(r, la, pa / z3.RealVal("%d/%d" % (lit.numerator, lit.denominator))):
                    s.glob.append(z3.Implies(fa, z3.And(ok, num(r) == x / z3.RealVal("%d/%d" % (lit.numerator, lit.denominator)))))
            elif lit is None:
                s.glob.append(z3.Implies(z3.And(fa, y != 0), z3.And(ok, num(r) * y == x)))
                s.glob.append(z3.Implies(z3.And(fa, y == 0), z3.Not(isfin(r))))
                (la, pa), (lb, pb) = s.rval(a), s.rval(b)
                s.quot[r.get_id()] = (num(r), pa, pb, la + lb)
                if s.ratios:
                    s.ratio(r, a, b)
                if s.quotients:
                    for w in s.quotients:
                        # a == w * b identically
                        if identical(pa, w * pb):
                            s.glob.append(Implies(And(isfin(r), *[isfin(l) for l in la + lb]), num(r) == w))
                            s.rv[r.get_id()] = (la + lb + (r,), w)
                            s.trace.append(("quotient", w))
                            break
        elif op == "hypot":
            s.glob.append(z3.Implies(fa, z3.And(ok, num(r) >= 0, num(r) * num(r) == x * x + y * y)))
            (la, pa), (lb, pb) = s.rval(a), s.rval(b)
            s.distance(r, la + lb, pa * pa + pb * pb)

    infinities = False                   # sums of finite and infinite values are infinite
    QUO = z3.Function("quotient", R, R, R)
    ratios = False                       # quotients are named by numerator and denominator in normal form

    def ratio(s, r, a, b):
        def parts(v):
            ls, p = s.rval(v)
            for l in ls:
                if l.get_id() in s.rats and p.eq(num(l)):
                    return s.rats[l.get_id()]
            return p, z3.RealVal(1), ls
        (na, da, la), (nb, db, lb) = parts(a), parts(b)
        n, d = canon(na * db), canon(da * nb)
        s.rats[r.get_id()] = (n, d, tuple(la) + tuple(lb))
        s.glob.append(Implies(And(da != 0, db != 0, nb != 0, *[isfin(l) for l in tuple(la) + tuple(lb)]), And(isfin(r), Not(isnan(r)), num(r) == s.QUO(n, d))))

    SQ = z3.Function("square", R, R)     # used in place of products of equal factors if e.squares is set
    squares = False

    def square(s, p):
        """The square of p, known by what follows: it is not negative, even, and grows with the size of p."""
        u, v = z3.Reals("u v")
        a = lambda x: z3.If(x >= 0, x, -x)
        s.once("squares", z3.And(z3.ForAll([u], z3.And(s.SQ(u) >= 0, (s.SQ(u) == 0) == (u == 0)), patterns=[s.SQ(u)]),
                                 z3.ForAll([u, v], (s.SQ(u) <= s.SQ(v)) == (a(u) <= a(v)), patterns=[z3.MultiPattern(s.SQ(u), s.SQ(v))])))
        return s.SQ(simp(p))

    D2 = z3.Function("dist2", F, F, F, F, R)     # squared distance of two points

    def d2(s, xa, ya, xb, yb):
        t = s.D2(xa, ya, xb, yb)
        k = ("d2", t.get_id())
        if k not in s.onces:
            s.onces.add(k)
            dx, dy = num(xa) - num(xb), num(ya) - num(yb)
            s.glob.append(z3.And(t == dx * dx + dy * dy, t >= 0, t == s.D2(xb, yb, xa, ya)))
        return t

    def d2of(s, leaves, poly):
        """The squared-distance term a polynomial over four doubles stands for, if it is one."""
        ls = []
        for l in leaves:
            if s.literal(l) is None and not any(l.eq(m) for m in ls):
                ls.append(l)
        if len(ls) != 4:
            return None
        for o in ((0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2)):
            a, b, c, d = [ls[i] for i in o]
            e = (num(a) - num(b)) * (num(a) - num(b)) + (num(c) - num(d)) * (num(c) - num(d))
            if z3.simplify(poly - e, som=True).eq(z3.RealVal(0)):
                return (a, b, c, d)
        return None

    def distance(s, r, leaves, poly, root=True):
        q = s.d2of(leaves, poly)
        if q is None:
            return
        a, b, c, d = q
        t = s.d2(a, c, b, d)
        s.d2(c, a, d, b)
        s.glob.append(s.D2(a, c, b, d) == s.D2(c, a, d, b))
        fin = And(*[isfin(l) for l in q])
        if root:
            s.sqinfo[r.get_id()] = (fin, t)
        else:
            s.glob.append(Implies(fin, num(r) == t))

    def fun(s, op, a):
        r = s.FUN[op](a)
        k = ("op", r.get_id())
        if k not in s.onces:
            s.onces.add(k)
            s.keep.append(r)
            if op in ("fneg", "fabs", "floor", "ceil"):
                s.glob.append(isnan(r) == isnan(a))
                s.glob.append(isfin(r) == isfin(a))
            else:
                s.glob.append(z3.Implies(isnan(a), isnan(r)))
            if op == "fneg":
                s.glob.append(num(r) == -num(a))
                if s.arith == "real":
                    la, pa = s.rval(a)
                    s.setpoly(r, la, -pa)
            elif op == "fabs":
                s.glob.append(num(r) == z3.If(num(a) >= 0, num(a), -num(a)))
                if s.arith == "real" and not s.rval(a)[0] and z3.is_rational_value(s.rval(a)[1]):
                    v = s.rval(a)[1]
                    s.setpoly(r, (), v if v.as_fraction() >= 0 else -v)
            elif op in ("floor", "ceil"):
                n = s.WHOLE[op](a)
                if s.arith == "real" and not s.rval(a)[0]:
                    from .contracts import halfint
                    k = halfint(s, a)
                    if k is not None:
                        n = simp(k / 2 if op == "floor" else (k + 1) / 2)
                v, w = num(a), z3.ToReal(n)
                s.glob.append(Implies(isfin(a), And(num(r) == w, *((w <= v, v < w + 1) if op == "floor" else (w >= v, v > w - 1)))))
                if s.arith == "real" and not s.rval(a)[0]:
                    s.rv[r.get_id()] = ((), w)
            elif op == "sqrt" and s.arith == "real":
                s.glob.append(z3.Implies(z3.And(isfin(a), num(a) >= 0), z3.And(isfin(r), z3.Not(isnan(r)), num(r) >= 0, num(r) * num(r) == num(a))))
                s.distance(r, *s.rval(a))
                la, pa = s.rval(a)
                for w in s.roots:
                    # a == w * w identically and w >= 0
                    if not la and identical(pa, w * w):
                        s.oblige("lemma", w >= 0, "the root is not negative")
                        s.glob.append(z3.And(isfin(r), z3.Not(isnan(r)), num(r) == w))
                        s.rv[r.get_id()] = ((), w)
                        break
            s.dfacts(r)
        return r

    def ofint(s, v):
        r = s.OFI(v)
        k = ("op", r.get_id())
        if k not in s.onces:
            s.onces.add(k)
            s.keep.append(r)
            s.glob.append(z3.And(z3.Not(isnan(r)), isfin(r), num(r) == z3.ToReal(v)))
            s.rv[k[1]] = ((), z3.ToReal(v))
        return r

    def crossmul(s, a, b):
        """A comparison linear in a quotient n / d, multiplied out by d."""
        (la, pa), (lb, pb) = s.rval(a), s.rval(b)
        qs = [s.quot[l.get_id()] for l in la + lb if l.get_id() in s.quot]
        if len(qs) != 1 or len((pa - pb).sexpr()) > 3000:
            return
        q, n, d, ls = qs[0]
        P = pa - pb
        at = lambda k: z3.substitute(P, (q, z3.RealVal(k)))
        p0, p1 = at(0), z3.simplify(at(1) - at(0), som=True)
        if not identical(z3.simplify(at(2) - at(0), som=True), z3.simplify(2 * p1, som=True)):
            return
        Q, d = z3.simplify(p0 * d + p1 * n, som=True), z3.simplify(d, som=True)
        if len(Q.sexpr()) > 6000:
            return
        s.glob.append(Implies(And(d != 0, *[isfin(l) for l in la + lb + ls if not l.get_id() in s.quot]),
                              z3.And((num(a) > num(b)) == z3.If(d > 0, Q > 0, Q < 0), (num(a) < num(b)) == z3.If(d > 0, Q < 0, Q > 0))))

    def fcmp(s, pred, a, b):
        s.dfacts(a)
        s.dfacts(b)
        if s.arith == "real" and s.quotients:
            (la, pa), (lb, pb) = s.rval(a), s.rval(b)
            d = simp(pa - pb)
            if not la and not lb and z3.is_rational_value(d) and pred != "uno":
                z = z3.RealVal(0)
                return T if pred == "ord" else simp({"eq": d == z, "ne": d != z, "lt": d < z, "le": d <= z, "gt": d > z, "ge": d >= z}[pred[1:]])
            for w in s.roots:
                for l, p, v in ((la, pa, a), (lb, pb, b)):
                    if not l and not z3.is_rational_value(p) and identical(p, w * w):
                        s.glob.append(And(Not(isnan(v)), isfin(v), num(v) >= 0))
        o = z3.And(z3.Not(isnan(a)), z3.Not(isnan(b)))
        x, y = num(a), num(b)
        if s.arith == "real":
            for u, v in ((a, b), (b, a)):
                if u.get_id() in s.sqinfo:
                    # a distance compared with a bound: compare the squares
                    fin, t = s.sqinfo[u.get_id()]
                    m = num(v)
                    s.glob.append(Implies(And(fin, isfin(v)), z3.And((num(u) < m) == z3.And(m > 0, t < m * m), (num(u) <= m) == z3.And(m >= 0, t <= m * m))))
                elif s.rval(u)[1] is not None and len(s.rval(u)[0]) == 4 and z3.is_add(s.rval(u)[1]):
                    s.distance(u, *s.rval(u), root=False)
            s.crossmul(a, b)
        rel = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}
        if pred == "ord":
            return o
        if pred == "uno":
            return z3.Not(o)
        r = rel[pred[1:]]
        if pred[0] == "o":
            return z3.And(o, r)
        return z3.Or(z3.Not(o), r)

    # ------------------------------------------------------------ heap helpers
    def mkobj(s, st, name, desc):
        if name in st.desc:
            s.cnt["obj:" + name] = s.cnt.get("obj:" + name, 0) + 1
            name = "%s~%d" % (name, s.cnt["obj:" + name])
        st.desc[name] = desc
        return name

    def sort_of(s, desc, ety):
        e = "double" if ety == "double" else "i"
        return A2[e] if desc.kind == "mat" else A1[e]

    def structname(s, ty):
        return ty[1] if isinstance(ty, tuple) and ty[0] == "named" else None

    def retype(s, st, obj, elem, is_struct=False):
        """Give a raw (malloc'ed) object its element type at first typed use."""
        d = st.desc[obj]
        if d.kind != "raw":
            return
        if not isinstance(elem, tuple):
            elem = s.structhint(obj, d) or elem
        s.rawtype[obj] = elem
        if isinstance(elem, tuple) and elem[0] == "named":
            sz = s.m.sizeof(elem)
            e = elem
        else:
            sz = SIZE[elem]
            e = elem
        if isinstance(e, tuple) and e[1] in s.typehints:
            pool = s.typehints[e[1]]
            pool(s, st, obj)
            return
        if s.flatcols and elem == "double":
            nd = Desc("mat", "double", nr=s.divide(d.bytes, 8 * s.flatcols), nc=ival(s.flatcols), zero=d.zero, fresh=True)
            nd.flat = True
            nd.rawbytes = d.bytes
            st.desc[obj] = nd
            return
        n = s.divide(d.bytes, sz)
        nd = Desc("arr", e, n=n, zero=d.zero, fresh=True)
        if isinstance(e, tuple) and isconst(simp(n)) and simp(n).as_long() == 1:
            nd.kind = "struct"
            nd.n = None
        elif elem == "ptr":
            nd.kind = "cells"
        nd.rawbytes = d.bytes
        st.desc[obj] = nd

    def structhint(s, obj, d):
        """The structure a block of just that size is used as elsewhere in the function (its first member is accessed without naming it)."""
        if not obj.startswith("heap") or not isconst(simp(d.bytes)):
            return None
        reg = obj[4:]
        for b in s.rpo:
            for i in s.f.blocks[b].insts:
                if i.op == "getelementptr" and i.a["args"][0][1] == ("reg", reg) and isinstance(i.a["bt"], tuple) and i.a["bt"][0] == "named" and len(i.a["args"]) > 2:
                    if s.m.sizeof(i.a["bt"]) == simp(d.bytes).as_long():
                        return i.a["bt"]
        return None

    def allocator(s, st, name, struct, links):
        """An array standing for all elements of a type the program ever allocates, linked by pointers."""
        o = s.mkobj(st, name, Desc("arr", ("named", "struct." + struct), n=ival(2 ** 60), fresh=True))
        d = st.desc[o]
        d.live = True
        d.ptrs = {"%s.%s" % (struct, l): o for l in links}
        st.mem[(o, "@live")] = s.fresh("live", z3.ArraySort(I, B))

        def made(e, st, obj):
            a = e.fresh(obj + ".number", I)
            lv = st.mem[(o, "@live")]
            e.assume(z3.And(a >= 0, z3.Not(lv[a])))
            st.mem[(o, "@live")] = z3.Store(lv, a, T)
            e.oblige("alloc", st.desc[obj].bytes == e.m.sizeof(("named", "struct." + struct)), "one element is allocated")
            st.desc[obj] = Desc("pooled", pool=o, addr=a, fresh=True)
        s.typehints["struct." + struct] = made
        return o

    def divide(s, e, k):
        e = simp(e)
        if isconst(e):
            return ival(e.as_long() // k)
        # syntactic: sum of products each with a constant factor divisible by k
        def div(x):
            if isconst(x):
                return ival(x.as_long() // k) if x.as_long() % k == 0 else None
            if z3.is_mul(x):
                ch = x.children()
                if isconst(ch[0]) and ch[0].as_long() % k == 0:
                    r = ival(ch[0].as_long() // k)
                    for c in ch[1:]:
                        r = r * c
                    return r
                return None
            if z3.is_add(x):
                rs = [div(c) for c in x.children()]
                if any(r is None for r in rs):
                    return None
                return z3.Sum(rs)
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                a, b = div(x.arg(1)), div(x.arg(2))
                if a is None or b is None:
                    return None
                return z3.If(x.arg(0), a, b)
            return None
        r = div(e)
        if r is not None:
            return simp(r)
        n = s.fresh("cnt", I)
        s.assume(z3.And(n * k <= e, e < n * k + k))
        return n

    def pathkey(s, pv, ty):
        return pv.path if pv.path else "@" + ("i" if ty in ("i32", "i64", "i8", "i1", "i16") else ty)

    def fieldty(s, path):
        return s.pathty.get(path)

    def default_content(s, st, obj, path, ty):
        """Initial content of a cell/array never written in the model."""
        d = st.desc[obj]
        nm = "%s%s" % (obj, "." + path if not path.startswith("@") else "")
        if d.kind in ("struct",):
            if ty == "ptr":
                if d.zero:
                    return NULL
                return to(s.opaque(st, nm))
            if ty == "double":
                if d.zero:
                    return s.dval(0.0)
                return s.fresh(nm, F)
            if d.zero:
                return ival(0) if ty != "i1" else FALSE
            return s.fresh_int(nm, ty)
        if ty == "ptr":
            raise Unsupported("array of pointers %s" % nm)
        srt = s.sort_of(d, ty)
        if d.zero:
            z = s.dval(0.0) if ty == "double" else ival(0)
            if d.kind == "mat":
                a = s.fresh(nm, srt)
                j, i = z3.Ints("j i")
                s.assume(z3.ForAll([j, i], a[j, i] == z, patterns=[a[j, i]]))
                return a
            return z3.K(I, z)
        return s.fresh(nm, srt)

    def opaque(s, st, name):
        o = "opq:" + name
        if o not in st.desc:
            st.desc[o] = Desc("opaque")
        return o

    def getmem(s, st, obj, path, ty):
        k = (obj, path)
        if k not in st.mem and k in s.lazy:
            st.mem[k] = s.lazy[k]
        if k not in st.mem:
            st.mem[k] = s.default_content(st, obj, path, ty)
            s.pathty[path] = ty
            # make it visible in the header/entry states as well (same initial content)
            s.lazy.setdefault(k, st.mem[k])
        return st.mem[k]

    def resolve(s, st, pv, ty, struct=None):
        """Follow pooled/raw indirections; returns (desc, pv)."""
        d = st.desc[pv.obj]
        if d.kind == "raw":
            if pv.path:
                raise Unsupported("member access to untyped object %s" % pv.obj)
            s.retype(st, pv.obj, ty)
            d = st.desc[pv.obj]
            pv = s.first_field(st, pv, ty)
        if d.kind == "pooled":
            pv = PV(d.pool, ival(0), d.addr, pv.path)
            d = st.desc[pv.obj]
        if d.flat and ty == "double":
            pv = s.flatten(d, pv)
        elif d.kind == "mat" and s.linear and is_true(simp(pv.row == 0)) and not is_true(simp(pv.col == 0)):
            pv = s.linear(st, d, pv)
        return d, pv

    def flatten(s, d, pv):
        """Linear index into a matrix: row and column, by the multiples of the number of columns in it."""
        nc = d.nc.as_long()

        def parts(c):
            c = z3.simplify(c, som=True)
            row, col = [], []
            for t in c.children() if z3.is_add(c) else [c]:
                if isconst(t):
                    row.append(ival(t.as_long() // nc))
                    col.append(ival(t.as_long() % nc))
                    continue
                if z3.is_app_of(t, z3.Z3_OP_ITE):
                    (r1, c1), (r2, c2) = parts(t.arg(1)), parts(t.arg(2))
                    row.append(z3.If(t.arg(0), r1, r2))
                    col.append(z3.If(t.arg(0), c1, c2))
                    continue
                k = t.arg(0).as_long() if z3.is_mul(t) and isconst(t.arg(0)) else 1
                if k % nc == 0:
                    row.append(z3.simplify(ival(k // nc) * z3.Product(*t.children()[1:]) if k != 1 else t))
                else:
                    col.append(t)
            return z3.Sum(row) if row else ival(0), z3.Sum(col) if col else ival(0)
        r, c = parts(pv.col)
        return PV(pv.obj, simp(pv.row + r), simp(c), pv.path)

    def bounds(s, st, d, pv, what):
        if d.kind == "arr":
            if d.live:
                return z3.And(pv.col >= 0, s.getmem(st, pv.obj, "@live", "live")[pv.col])
            return z3.And(pv.col >= 0, pv.col < d.n)
        if d.kind == "mat":
            return z3.And(pv.row >= 0, pv.row < d.nr, pv.col >= 0, pv.col < d.nc)
        if d.kind in ("rows", "cells"):
            return z3.And(pv.col >= 0, pv.col < (d.nr if d.kind == "rows" else d.n))
        if d.kind == "struct":
            return pv.col == 0
        if d.kind == "pool":
            return d.valid(s, st, pv.col)
        if d.kind == "bytes":
            return z3.And(pv.col >= 0, pv.col + 8 <= d.bytes)
        if d.kind == "opaque":
            raise Unsupported("access through opaque pointer %s" % pv.obj)
        raise Unsupported("bounds %s" % d.kind)

    def check_access(s, st, ptr, ty, what):
        alts = []
        conds = []
        for g, t in ptr.alts:
            if t is None:
                conds.append(Not(g))
                continue
            d, pv = s.resolve(st, t, ty)
            c = s.bounds(st, d, pv, what)
            al = st.alive.get(pv.obj, T)
            conds.append(Implies(g, And(c, al)))
            alts.append((g, d, pv))
        s.oblige("bounds", And(*conds), what)
        return alts

    def load(s, st, ptr, ty):
        alts = s.check_access(st, ptr, ty, "load")
        if not alts:
            raise Unsupported("load through null")
        vals = []
        for g, d, pv in alts:
            if d.kind == "rows":
                v = to(d.mat, pv.col, ival(0))
            elif d.kind == "cells":
                v = s.load_cell(st, d, pv)
            elif d.kind == "struct":
                v = s.getmem(st, pv.obj, s.pathkey(pv, ty), ty)
                if isinstance(v, Ptr) != (ty == "ptr"):
                    raise Unsupported("type confusion at %r" % pv)
            elif d.kind == "pool":
                v = d.load(s, st, pv, ty)
            elif ty == "ptr" and pv.path in d.ptrs:
                v = s.element(d.ptrs[pv.path], s.getmem(st, pv.obj, pv.path, "i64")[pv.col])
            else:
                a = s.getmem(st, pv.obj, s.pathkey(pv, ty), ty)
                v = a[pv.row, pv.col] if d.kind == "mat" else a[pv.col]
                if d.kind == "arr" and ty == "double" and isconst(pv.col) and z3.is_store(a):
                    v = simp(v)
                if ty in RANGE and ty != "i1":
                    lo, hi = RANGE[ty]
                    s.assume(z3.And(v >= lo, v <= hi))
            vals.append((g, v))
        r = s.merge_vals(vals, ty)
        if ty == "double":
            s.dfacts(r)
        return r

    def element(s, obj, k):
        """Pointer to element k of obj, null if k is negative."""
        return s.norm(Ptr([(simp(k >= 0), PV(obj, col=k)), (simp(k < 0), None)]))

    def number(s, st, p, obj):
        """Number of the element of obj p points to, -1 for null."""
        r = None
        for g, t in reversed(p.alts):
            if t is None:
                v = ival(-1)
            else:
                d = st.desc[t.obj]
                if d.kind == "pooled" and d.pool == obj and not t.path:
                    v = d.addr
                elif t.obj == obj and not t.path:
                    v = t.col
                else:
                    raise Unsupported("pointer to %s stored where one into %s belongs" % (t.obj, obj))
            r = v if r is None else If(g, v, r)
        return simp(r)

    def pooled(s, st, p):
        """The array a pointer points into, if its elements are linked by pointers."""
        objs = set()
        for g, t in p.alts:
            if t is None:
                continue
            d = st.desc[t.obj]
            o = d.pool if d.kind == "pooled" else t.obj
            if t.path or not st.desc[o].ptrs:
                return None
            objs.add(o)
        return objs.pop() if len(objs) == 1 else None

    def load_cell(s, st, d, pv):
        c = simp(pv.col)
        if not isconst(c):
            if d.ro:
                return to(s.opaque(st, "%s[]" % pv.obj))
            raise Unsupported("pointer array with symbolic index")
        k = (pv.obj, "@ptr%d" % c.as_long())
        if k not in st.mem:
            if d.ro:
                return to(s.opaque(st, "%s[%d]" % (pv.obj, c.as_long())))
            raise Unsupported("uninitialised pointer cell")
        return st.mem[k]

    def store(s, st, ptr, v, ty):
        alts = s.check_access(st, ptr, ty, "store")
        many = len(alts) > 1
        for g, d, pv in alts:
            if d.ro:
                s.oblige("frame", Not(g), "store to read-only %s" % pv.obj)
            if d.kind == "struct":
                k = (pv.obj, s.pathkey(pv, ty))
                s.pathty[k[1]] = ty
                if many:
                    old = s.getmem(st, pv.obj, k[1], ty)
                    st.mem[k] = s.merge_vals([(g, v), (Not(g), old)], ty)
                else:
                    st.mem[k] = v
            elif d.kind == "cells":
                c = simp(pv.col)
                if not isconst(c) or many:
                    raise Unsupported("pointer array store with symbolic index")
                st.mem[(pv.obj, "@ptr%d" % c.as_long())] = v
            elif d.kind == "rows":
                raise Unsupported("store into row table")
            elif d.kind == "pool":
                d.store(s, st, pv, v, ty, g)
            elif d.kind == "bytes":
                d.store(s, st, pv, v, ty, g)
            elif ty == "ptr" and pv.path in d.ptrs:
                a = s.getmem(st, pv.obj, pv.path, "i64")
                st.mem[(pv.obj, pv.path)] = If(g, z3.Store(a, pv.col, s.number(st, v, d.ptrs[pv.path])), a)
            else:
                if ty == "ptr":
                    raise Unsupported("pointer stored in array %s" % pv.obj)
                key = s.pathkey(pv, ty)
                a = s.getmem(st, pv.obj, key, ty)
                na = z3.Store(a, pv.row, pv.col, v) if d.kind == "mat" else z3.Store(a, pv.col, v)
                st.mem[(pv.obj, key)] = If(g, na, a)

    def merge_vals(s, vals, ty):
        if len(vals) == 1:
            return vals[0][1]
        v0 = vals[0][1]
        if isinstance(v0, Ptr):
            alts = []
            for g, p in vals:
                for h, t in p.alts:
                    alts.append((And(g, h), t))
            return s.norm(Ptr(alts))
        r = vals[-1][1]
        for g, v in reversed(vals[:-1]):
            r = If(g, v, r)
        return r

    def norm(s, p):
        out = []
        for g, t in p.alts:
            g = simp(g)
            if is_false(g):
                continue
            for k, (h, u) in enumerate(out):
                if (t is None and u is None) or (t is not None and u is not None and t.same(u)):
                    out[k] = (Or(h, g), u)
                    break
                if t is not None and u is not None and t.obj == u.obj and t.path == u.path:
                    out[k] = (Or(h, g), PV(t.obj, If(g, t.row, u.row), If(g, t.col, u.col), t.path))
                    break
            else:
                out.append((g, t))
        if len(out) == 1:
            out = [(T, out[0][1])]
        return Ptr(out)

    def deref(s, p, what):
        """The single object a pointer may point to; null is an obligation."""
        nn = p.nonnull()
        if len(nn) != 1:
            raise Unsupported("ambiguous pointer in %s" % what)
        s.oblige("bounds", And(*[Not(g) for g, t in p.alts if t is None]), "%s through null" % what)
        return nn[0][1]

    # ------------------------------------------------------------ values
    def val(s, v, ty):
        k = v[0]
        if k == "reg":
            r = s.vals.get(v[1])
            if r is None:
                raise Unsupported("undefined %%%s" % v[1])
            return r
        if k == "int":
            if v[2] == "i1":
                return z3.BoolVal(bool(v[1]))
            return ival(v[1])
        if k == "fp":
            return s.dconst(v[1])
        if k == "null":
            return NULL
        if k == "glob":
            return s.globptr(v[1])
        if k == "undef":
            if ty == "ptr":
                return Ptr([(T, PV(s.opaque(s.st, "undef")))])
            if ty == "double":
                return s.fresh("undef", F)
            if ty == "i1":
                return s.fresh("undef", B)
            return s.fresh_int("undef", ty)
        if k == "cgep":
            args = v[2]
            base = s.val(args[0][1], "ptr")
            return s.gep(v[1], base, [s.val(a, t) for t, a in args[1:]], args[1:])
        if k == "zero":
            return NULL if ty == "ptr" else s.dval(0.0) if ty == "double" else ival(0)
        raise Unsupported("value %r" % (v,))

    def globptr(s, name):
        st = s.st
        o = "glob:" + name
        if o not in st.desc:
            g = s.m.globals.get(name)
            if g is None:
                st.desc[o] = Desc("opaque")      # function
            elif re.search(r"\bc\"", g):
                txt = s.m.cstring(name)
                st.desc[o] = Desc("opaque")
            else:
                m = re.search(r"(?:global|constant) (\[(\d+) x (\w+)\]|%?[\w.]+)", g)
                ro = "constant" in g.split(",")[0]
                if m and m.group(2):
                    n, e = int(m.group(2)), m.group(3)
                    if e == "ptr":
                        st.desc[o] = Desc("cells", "ptr", n=ival(n), ro=True)
                        s.ptrtable_any.add(o)
                    else:
                        d = Desc("arr", e, n=ival(n), ro=ro)
                        st.desc[o] = d
                        s.const_array(st, o, g, e, n)
                else:
                    st.desc[o] = Desc("struct", None, ro=ro)
        return to(o)

    def const_array(s, st, o, g, e, n):
        m = re.search(r"\] (zeroinitializer|\[.*?\])", g[g.index("x " + e) :])
        if not m:
            return
        if m.group(1) == "zeroinitializer":
            vals = [0] * n
        else:
            vals = re.findall(r"%s (\S+?)[,\]]" % e, m.group(1))
        a = s.fresh("glob", A1["double" if e == "double" else "i"])
        for k, x in enumerate(vals):
            s.assume(a[k] == (s.dconst(x) if e == "double" else ival(int(x))))
        st.mem[(o, "@" + ("double" if e == "double" else "i"))] = a

    def gep(s, bt, base, idx, tidx):
        out = []
        for g, t in base.alts:
            if t is None:
                # offset of null: only legal with zero offsets; keep null
                out.append((g, None))
                continue
            pv = PV(t.obj, t.row, t.col, t.path)
            d = s.st.desc[pv.obj]
            ty = bt
            first = idx[0]
            if d.kind == "bytes":
                off = pv.col + first * s.m.sizeof(bt)
                for k, ix in enumerate(idx[1:]):
                    raise Unsupported("byte-mode member")
                out.append((g, PV(pv.obj, pv.row, simp(off), "")))
                continue
            nz = not (isconst(first) and first.as_long() == 0)
            if nz:
                if pv.path and not (isinstance(bt, tuple) and bt[0] == "named"):
                    raise Unsupported("pointer arithmetic on member %s" % pv.path)
                if isinstance(bt, tuple) and bt[0] == "arr":
                    raise Unsupported("array stride")
                if d.kind == "raw":
                    s.retype(s.st, pv.obj, bt)
                    d = s.st.desc[pv.obj]
                if d.kind == "arr" and d.elem != bt and not (d.elem in ("i64", "i32") and bt in ("i64", "i32") and d.elem == bt):
                    raise Unsupported("element type %r accessed as %r" % (d.elem, bt))
                pv.col = simp(pv.col + first)
            for k, ix in enumerate(idx[1:]):
                if isinstance(ty, tuple) and ty[0] == "named":
                    if d.kind == "raw":
                        s.retype(s.st, pv.obj, ty)
                        d = s.st.desc[pv.obj]
                    sn = ty[1]
                    kk = simp(ix).as_long()
                    fn = s.m.fieldname(sn, kk)
                    pv.path = fn if not pv.path else pv.path + "." + fn.split(".", 1)[1]
                    ty = s.m.structs[sn][kk]
                elif isinstance(ty, tuple) and ty[0] == "arr":
                    pv.col = simp(pv.col + ix)
                    ty = ty[2]
                else:
                    raise Unsupported("gep into %r" % (ty,))
            out.append((g, pv))
        return s.norm(Ptr(out))

    def first_field(s, st, pv, ty):
        """A pointer to a struct used to access its first member."""
        d = st.desc[pv.obj]
        e = d.elem
        if d.kind == "pooled":
            e = st.desc[d.pool].elem
        path = pv.path
        if path == "" and isinstance(e, tuple) and e[0] == "named":
            path = s.m.fieldname(e[1], 0)
            mt = s.m.structs[e[1]][0]
        elif path in s.embedded:
            mt = s.embedded[path]
        else:
            return pv
        while isinstance(mt, tuple) and mt[0] == "named":
            path = path + "." + s.m.fieldname(mt[1], 0).split(".", 1)[1]
            mt = s.m.structs[mt[1]][0]
        return PV(pv.obj, pv.row, pv.col, path)

    def ff(s, st, ptr, ty):
        return Ptr([(g, t if t is None else s.first_field(st, t, ty)) for g, t in ptr.alts])

    # ------------------------------------------------------------ main loop
    def run(s, setup, finish):
        """setup(eng) -> (state, args dict); finish(eng, state, retval) emits post obligations."""
        s.embedded = {}
        s.rawtype = {}
        for sn, el in s.m.structs.items():
            for k, e in enumerate(el):
                if isinstance(e, tuple) and e[0] == "named":
                    s.embedded[s.m.fieldname(sn, k)] = e
        for it in range(30):
            s.changed = False
            s.execute(setup, finish)
            if not s.changed:
                return s
        raise Unsupported("loop modification analysis did not converge")

    def execute(s, setup, finish):
        f = s.f
        s.cnt = {}
        s.constblock = {}
        s.newterms = {}
        s.terms, s.dims, s.factors, s.comps, s.watch = [], [], [], [], []
        s.allocs = []
        s.drcache = {}
        s.asm, s.obl, s.glob = [], [], []
        s.onces, s.keep, s.lits = set(), [], {}
        s.rv, s.rats = {}, {}
        s.sqinfo = {}
        s.kept, s.quot = set(), {}
        s.pathty = getattr(s, "pathty", {})
        s.ptrtable_any = set()
        s.trivial = 0
        s.vals = {}
        s.reach = {}
        s.cands = []
        s.lazy = {}
        s.reallocof, s.submap = {}, {}
        s.quits = 0
        s.exitreach = []
        s.edge = {}
        s.out = {}
        s.cur = f.order[0]
        s.curline, s.curwhere = 0, ("", "")
        s.reach[s.cur] = T
        s.calls_seen = set()
        st, args = setup(s)
        s.st0 = st.copy()
        for (ty, p), v in zip(f.params, args):
            s.vals[p] = v
        s.ginit = st
        nret = 0
        for b in s.rpo:
            s.cur = b
            if b == f.order[0]:
                s.st = st
            else:
                preds = [p for p in f.blocks[b].pred if (p, b) in s.edge and (p, b) not in s.back]
                live = [p for p in preds if not is_false(s.edge[(p, b)])]
                preds = live or preds[:1]
                if not preds:
                    continue
                s.enter(b, preds)
            if is_false(s.reach[b]):
                continue
            s.exec_block(b, finish)
        s.close_loops()

    def enter(s, b, preds):
        conds = [s.edge[(p, b)] for p in preds]
        if len(preds) == 1 and b not in s.loops:
            r = conds[0]
        else:
            r = Or(*conds)
        if z3.is_const(r) or is_true(r) or is_false(r):
            s.reach[b] = r
        else:
            v = s.fresh("R." + b, B)
            s.reach[b] = v
            s.assume(v == r)
        states = [s.out[p] for p in preds]
        s.st = s.join(states, conds)
        # phis
        phis = [i for i in s.f.blocks[b].insts if i.op == "phi"]
        entry = {}
        for i in phis:
            s.setline(i)
            inc = {blk: v for v, blk in i.a["inc"]}
            vs = []
            for p, c in zip(preds, conds):
                vs.append((c, s.val(inc[p], i.ty)))
            entry[i.res] = s.mergephi(i, vs)
        if b in s.loops:
            s.enter_loop(b, phis, entry)
        else:
            s.vals.update(entry)

    def mergephi(s, i, vs):
        if len(vs) == 1:
            return vs[0][1]
        if i.ty == "ptr":
            return s.subst(s.merge_vals(vs, "ptr"))
        v0 = vs[0][1]
        if all(x.eq(v0) for _, x in vs):
            return v0
        if i.ty == "i1":
            return Or(*[And(c, x) for c, x in vs])
        v = s.fresh(i.res, v0.sort())
        for c, x in vs:
            s.assume(z3.Implies(c, v == x) if not is_true(c) else v == x)
        if i.ty == "double" and s.arith == "real" and s.quotients:
            rs = [s.rval(x) for c, x in vs]
            if all(identical(p, rs[0][1]) for ls, p in rs):
                # every alternative has this value if it is finite
                s.oblige("lemma", z3.Implies(isfin(v), num(v) == rs[0][1]), "alternatives of %s agree" % i.res)
                s.assume(z3.Implies(isfin(v), num(v) == rs[0][1]))
                s.rv[v.get_id()] = ((v,), rs[0][1])
        return v

    def join(s, states, conds):
        if len(states) == 1:
            return states[0].copy()
        st = states[0].copy()
        for o in states[1:]:
            for n, d in o.desc.items():
                if n not in st.desc:
                    st.desc[n] = d
                elif st.desc[n].kind == "raw" and d.kind != "raw":
                    st.desc[n] = d
        keys = set()
        for o in states:
            keys |= set(o.mem)
        for k in sorted(keys):
            vs = []
            for o, c in zip(states, conds):
                if k in o.mem:
                    vs.append((c, o.mem[k]))
                elif k[0] in o.desc:
                    if k in s.lazy:
                        vs.append((c, s.lazy[k]))
                    else:
                        # object known there but this part never touched: unconstrained
                        vs.append((c, None))
                # object unknown on that path: value irrelevant
            if any(v is None for _, v in vs):
                proto = next(v for _, v in vs if v is not None)
                fill = None
                if isinstance(proto, Ptr):
                    vs = [(c, v) for c, v in vs if v is not None]
                else:
                    fill = s.fresh("u", proto.sort())
                    vs = [(c, fill if v is None else v) for c, v in vs]
            st.mem[k] = s.mergemem(k, vs)
        for n in set().union(*[set(o.alive) for o in states]):
            st.alive[n] = simp(Or(*[And(c, o.alive.get(n, T)) for o, c in zip(states, conds) if n in o.desc]))
        for n in set().union(*[set(o.ghost) for o in states]):
            vs = [(c, o.ghost[n]) for o, c in zip(states, conds) if n in o.ghost]
            st.ghost[n] = s.mergemem(("ghost", n), vs)
        s.unite(st)
        return st

    def root(s, o):
        while o in s.reallocof:
            o = s.reallocof[o]
        return o

    def unite(s, st):
        """After a conditional realloc a slot holds the old or the new block: replace both by one
        object (the others count as freed, so a stale pointer is noticed)."""
        s.submap = {}
        for k in sorted(st.mem, key=str):
            v = st.mem[k]
            if not isinstance(v, Ptr) or len(v.alts) < 2:
                continue
            q = s.subst(v)
            if q is not v:
                st.mem[k] = q
                continue
            objs = [t.obj for g, t in v.alts if t is not None]
            if len(objs) != len(v.alts) or len(set(objs)) != len(objs) or len({s.root(o) for o in objs}) != 1 or not any(o in s.reallocof for o in objs):
                continue
            ds = [st.desc[o] for o in objs]
            if any(d.kind != "arr" or d.elem != ds[0].elem or d.ro for d in ds):
                continue
            if any(t.path or not is_true(simp(t.col == 0)) for g, t in v.alts):
                continue
            n = s.fresh("n.join", I)
            for (g, t), d in zip(v.alts, ds):
                s.assume(Implies(g, n == d.n))
            o3 = s.mkobj(st, "join." + s.root(objs[0]), Desc("arr", ds[0].elem, n=n, fresh=all(d.fresh for d in ds)))
            s.reallocof[o3] = s.root(objs[0])
            for path in sorted({p for (o, p) in st.mem if o in objs}):
                ty = s.pathty.get(path)
                vs = [(g, st.mem.get((t.obj, path))) for g, t in v.alts]
                proto = next(x for _, x in vs if x is not None)
                vs = [(g, s.fresh("u", proto.sort()) if x is None else x) for g, x in vs]
                st.mem[(o3, path)] = s.mergemem((o3, path), vs)
            st.alive[o3] = simp(Or(*[And(g, st.alive.get(t.obj, T)) for g, t in v.alts]))
            for o in objs:
                st.alive[o] = FALSE
            s.submap[frozenset(objs)] = o3
            st.mem[k] = to(o3)

    def subst(s, v):
        objs = [t.obj if t is not None else None for g, t in v.alts]
        o3 = s.submap.get(frozenset(objs))
        if o3 is None or any(t.path or not is_true(simp(t.col == 0)) for g, t in v.alts):
            return v
        return to(o3)

    def mergemem(s, k, vs):
        v0 = vs[0][1]
        if all(v is v0 or (z3.is_expr(v) and z3.is_expr(v0) and v.eq(v0)) for _, v in vs):
            return v0
        if isinstance(v0, Ptr):
            return s.merge_vals(vs, "ptr")
        n = s.fresh("m.%s.%s" % k, v0.sort())
        for c, v in vs:
            s.assume(z3.Implies(c, n == v) if not is_true(c) else n == v)
        return n

    # ------------------------------------------------------------ loops
    def stepof(s, L, phi):
        """Constant step of a phi, syntactically (through casts), if every latch gives phi + const."""
        steps = set()
        for v, blk in phi.a["inc"]:
            if blk not in L.latches:
                continue
            steps.add(s.incr(v, phi.res))
        return steps.pop() if len(steps) == 1 else None

    def incr(s, v, base, depth=0):
        if v[0] != "reg" or depth > 6:
            return None
        if v[1] == base:
            return 0
        b, i = s.regdef.get(v[1], (None, None))
        if i is None:
            return None
        if i.op in ("add", "sub") and i.a["y"][0] == "int":
            d = s.incr(i.a["x"], base, depth + 1)
            if d is None:
                return None
            return d + (i.a["y"][1] if i.op == "add" else -i.a["y"][1])
        if i.op == "getelementptr" and len(i.a["args"]) == 2 and i.a["args"][1][1][0] == "int":
            d = s.incr(i.a["args"][0][1], base, depth + 1)
            return None if d is None else d + i.a["args"][1][1][1]
        if i.op == "phi":
            r = {s.incr(x, base, depth + 1) for x, _ in i.a["inc"]}
            return r.pop() if len(r) == 1 else None
        return None

    def enter_loop(s, b, phis, entry):
        L = s.loops[b]
        L.entryst = s.st
        L.entryvals = entry
        L.phis, L.dphis = [], []
        L.alive = True
        st = s.st.copy()
        L.recs = {}
        hv = {}
        for i in phis:
            nm = s.f.varname.get(i.res, i.res)
            step = s.stepof(L, i)
            if i.ty == "ptr":
                p = entry[i.res]
                pool = s.pooled(st, p) or s.mods.get("pool", {}).get((b, i.res))
                if pool:
                    s.mods.setdefault("pool", {})[(b, i.res)] = pool
                    c = s.fresh(i.res + ".elem", I)
                    s.assume(c >= -1)
                    hv[i.res] = s.element(pool, c)
                    ph = Phi(nm, i, c, s.number(st, p, pool))
                    ph.ty, ph.pool = "ptr", pool
                    L.phis.append(ph)
                elif len(p.alts) == 1 and p.alts[0][1] is not None and st.desc[p.alts[0][1].obj].kind in ("arr", "mat", "rows", "cells"):
                    t = p.alts[0][1]
                    if step == 0:
                        hv[i.res] = p
                    else:
                        c = s.fresh(i.res + ".col", I)
                        hv[i.res] = Ptr([(T, PV(t.obj, t.row, c, t.path))])
                        ph = Phi(nm, i, c, t.col)
                        ph.step = step
                        ph.ty = "ptr"
                        L.phis.append(ph)
                else:
                    hv[i.res] = s.havoc_ptr(st, p, L, i, nm)
            elif i.ty == "double":
                hv[i.res] = s.fresh(i.res, F)
                ph = Phi(nm, i, hv[i.res], entry[i.res])
                ph.ty = "double"
                L.dphis.append(ph)
            elif i.ty == "i1":
                hv[i.res] = s.fresh(i.res, B)
            else:
                v = s.fresh_int(i.res, i.ty)
                hv[i.res] = v
                ph = Phi(nm, i, v, entry[i.res])
                ph.step = step
                ph.ty = i.ty
                L.phis.append(ph)
        for k in sorted(s.mods.get(b, ()), key=str):
            if k[0] == "ghost":
                st.ghost[k[1]] = s.fresh("h." + k[1], st.ghost[k[1]].sort())
                continue
            if k[0] == "alive":
                continue
            old = st.mem.get(k, s.lazy.get(k))
            if old is None:
                if k[0] not in st.desc:
                    continue
                d = st.desc[k[0]]
                if d.kind == "raw":
                    # typed inside the loop: by the type recorded on the previous pass
                    if k[0] not in s.rawtype:
                        raise Unsupported("object %s first typed inside a loop" % k[0])
                    s.retype(st, k[0], s.rawtype[k[0]])
                    s.retype(L.entryst, k[0], s.rawtype[k[0]])
                old = s.getmem(st, k[0], k[1], s.pathty.get(k[1], "i32"))
                L.entryst.mem.setdefault(k, old)
            if isinstance(old, Ptr):
                st.mem[k] = s.havoc_slot(st, k, old)
            else:
                n = s.fresh("h.%s.%s" % k, old.sort())
                st.mem[k] = n
                ty = s.pathty.get(k[1])
                if ty in RANGE and old.sort() == I:
                    lo, hi = RANGE[ty]
                    s.assume(z3.And(n >= lo, n <= hi))
        L.header_keys = set(st.mem)
        L.hst = st.copy()
        L.hv = hv
        s.vals.update(hv)
        s.st = st
        L.chain = []
        p = L
        while p:
            L.chain.append(p)
            p = p.parent
        cl = s.make_cands(L, st)
        for c in cl:
            s.cands.append(c)
        # entry obligations: evaluated on the entry state with entry values
        sv_st = s.st
        sv = {k: s.vals[k] for k in hv}
        s.vals.update(entry)
        s.phimode(L, {i.res: entry[i.res] for i in phis})
        for c in cl:
            s.emit_inv(c, L.entryst, "entry")
        s.vals.update(sv)
        s.phimode(L, hv)
        s.st = sv_st
        for c in cl:
            fml = c.fn(st)
            if fml is None:
                continue
            s.assume(z3.Implies(c.guard, Implies(s.reach[b], fml)), kind="inv")
        L.cl = cl

    def phimode(s, L, vals):
        for ph in L.phis + L.dphis:
            v = vals[ph.src.res]
            if isinstance(v, Ptr):
                if ph.pool:
                    ph.cur = s.number(s.st, v, ph.pool)
                else:
                    ph.cur = v.alts[0][1].col
            else:
                ph.cur = v

    def havoc_ptr(s, st, p, L, i, nm):
        raise Unsupported("pointer %s changes in a loop" % nm)

    def havoc_slot(s, st, k, old):
        alts = old.nonnull()
        pool = s.pooled(st, old) if alts else None
        pool = pool or s.mods.get("poolslot", {}).get(k)
        if pool:
            s.mods.setdefault("poolslot", {})[k] = pool
            c = s.fresh("h.%s.%s" % k, I)
            s.assume(c >= -1)
            return s.element(pool, c)
        if not alts:
            raise Unsupported("null pointer slot %s changes in a loop" % (k,))
        d = st.desc[alts[0][1].obj]
        if d.kind != "arr":
            raise Unsupported("pointer slot %s changes in a loop" % (k,))
        n = s.fresh_int("h.n", "i64")
        o = s.mkobj(st, "h.%s.%s" % k, Desc("arr", d.elem, n=n, fresh=True))
        s.reallocof[o] = s.root(alts[0][1].obj)
        return to(o)

    def emit_inv(s, c, st, where, cond=None):
        sv = s.st
        s.st = st
        try:
            fml = c.fn(st)
        finally:
            s.st = sv
        if fml is None:
            c.dead = True
            return
        if is_true(fml):
            return
        r = s.reach[s.cur] if cond is None else cond
        o = Oblig("inv", "%s:%s" % (c.label, where), s.cur, r, fml, len(s.asm), s.curline)
        o.where = s.curwhere
        o.cand = c
        c.obs.append(o)
        s.obl.append(o)

    def make_cands(s, L, st):
        out = []
        n = [0]

        def add(label, fn, hard=False, numeric=False):
            c = Cand("%s.%s.%d" % (s.tag, L.header, n[0]), L, "%s@%s" % (label, L.header), fn, hard, numeric)
            n[0] += 1
            c.dead = False
            out.append(c)
        from . import templates
        templates.numeric(s, L, st, add)
        if s.comps:
            templates.components(s, L, st, add, s.comps)
        for w in s.watch:
            templates.unchanged(s, L, st, add, [w[:2]], *w[2:])
        if s.loopinv:
            s.loopinv(s, L, st, add)
        return out

    def back_edge(s, b, hdr, cond):
        L = s.loops[hdr]
        hst = L.hst
        # modified set
        m = s.mods.setdefault(hdr, set())
        for k, v in s.st.mem.items():
            if k[0] not in hst.desc and not k[0].startswith("glob:"):
                continue
            o = hst.mem.get(k)
            if o is None:
                o = s.lazy.get(k)
                if o is None:
                    if k[0] in hst.desc and hst.desc[k[0]].kind == "raw":
                        if k not in m:
                            m.add(k)
                            s.changed = True
                        continue
            if o is None or not (v is o or (z3.is_expr(v) and z3.is_expr(o) and v.eq(o)) or (isinstance(v, Ptr) and isinstance(o, Ptr) and s.sameptr(v, o))):
                if k not in m:
                    m.add(k)
                    s.changed = True
        for k, v in s.st.ghost.items():
            if k in hst.ghost and not v.eq(hst.ghost[k]) and ("ghost", k) not in m:
                m.add(("ghost", k))
                s.changed = True
        for k, v in s.st.alive.items():
            if k in hst.desc and not v.eq(hst.alive.get(k, T)):
                # freed in the loop: only allowed for objects that are not live across iterations
                L.freed = True
                if ("alive", k) not in m:
                    m.add(("alive", k))
                s.deadobj.setdefault(hdr, set()).add(k) if hasattr(s, "deadobj") else None
        # invariants at the latch
        phis = [i for i in s.f.blocks[hdr].insts if i.op == "phi"]
        newv = {}
        for i in phis:
            inc = {blk: v for v, blk in i.a["inc"]}
            newv[i.res] = s.val(inc[b], i.ty)
        for ph in L.phis:
            if ph.ty == "ptr":
                v = newv[ph.src.res]
                if ph.pool:
                    s.number(s.st, v, ph.pool)
                    continue
                t = ph_t = L.hv[ph.src.res].alts[0][1]
                if len(v.alts) != 1 or v.alts[0][1] is None or v.alts[0][1].obj != t.obj or not v.alts[0][1].row.eq(t.row):
                    raise Unsupported("pointer %s changes object in a loop" % ph.name)
        for i in phis:
            if i.ty == "ptr" and not any(ph.src is i for ph in L.phis):
                if not s.sameptr(newv[i.res], L.hv[i.res]) and not getattr(L, "ptrok", {}).get(i.res):
                    raise Unsupported("pointer phi %s" % i.res)
        held = []
        for k in m:
            if k[0] in ("ghost", "alive"):
                continue
            v = s.st.mem.get(k)
            if isinstance(v, Ptr) and k in s.mods.get("poolslot", {}):
                s.number(s.st, v, s.mods["poolslot"][k])
                continue
            if isinstance(v, Ptr):
                held += [t.obj for g, t in v.alts if t is not None]
                if len(set(held)) != len(held):
                    raise Unsupported("slots share an object after an iteration")
                for g, t in v.alts:
                    if t is None or not t.row.eq(ival(0)) or not t.col.eq(ival(0)) or t.path:
                        raise Unsupported("slot %s holds an interior pointer after an iteration" % (k,))
        sv = dict(s.vals)
        s.vals.update(newv)
        s.phimode(L, newv)
        for c in L.cl:
            s.emit_inv(c, s.st, "step", cond)
        s.vals = sv
        s.phimode(L, L.hv)

    def sameptr(s, a, b):
        return len(a.alts) == len(b.alts) and all(
            (x[1] is None and y[1] is None) or (x[1] is not None and y[1] is not None and x[1].same(y[1])) for x, y in zip(a.alts, b.alts))

    def close_loops(s):
        for h, d in s.newterms.items():
            if set(d) != set(s.cmpterms.get(h, {})):
                s.changed = True
            s.cmpterms[h] = d

    def note_compare(s, x, y):
        """Remember comparison operands that a surrounding loop does not change."""
        from .templates import consts_of
        cx, cy = consts_of(x), consts_of(y)
        for L in s.loops.values():
            if s.cur not in L.blocks:
                continue
            for a, ca, cb in ((x, cx, cy), (y, cy, cx)):
                if isconst(a) and abs(a.as_long()) > 10 ** 6:
                    continue
                inv = all(s.constblock.get(n) not in L.blocks for n in ca)
                oth = any(s.constblock.get(n) in L.blocks for n in cb)
                if inv and oth:
                    a = simp(a)
                    s.newterms.setdefault(L.header, {})[a.sexpr()] = a

    # ------------------------------------------------------------ blocks
    def setline(s, i):
        if i.line:
            s.curline = s.m.line(i.line)
            s.curwhere = s.m.loc_file(i.line)

    def exec_block(s, b, finish):
        for i in s.f.blocks[b].insts:
            s.setline(i)
            if i.op == "phi":
                continue
            if i.op in ("br", "switch", "ret", "unreachable"):
                s.terminate(b, i, finish)
                return
            r = s.inst(i)
            if r is QUIT:
                return
            if i.res is not None and r is not None:
                s.vals[i.res] = r

    def goto(s, b, t, cond):
        if is_false(cond):
            return
        c = And(s.reach[b], cond)
        if (b, t) in s.back:
            s.back_edge(b, t, c)
            return
        if (b, t) in s.edge:
            s.edge[(b, t)] = Or(s.edge[(b, t)], c)
        else:
            s.edge[(b, t)] = c
        s.out[b] = s.st

    def terminate(s, b, i, finish):
        if i.op == "br":
            if i.a["cond"] is None:
                s.goto(b, i.a["targets"][0], T)
            else:
                c = simp(s.val(i.a["cond"], "i1"))
                t0, t1 = i.a["targets"]
                if t0 == t1:
                    s.goto(b, t0, T)
                    return
                if s.prune and not (is_true(c) or is_false(c)):
                    c = s.decided(c)
                if not (is_true(c) or is_false(c)):
                    v = s.fresh("c." + b, B)
                    s.assume(v == c)
                    c = v
                s.goto(b, t0, c)
                s.goto(b, t1, Not(c))
        elif i.op == "switch":
            v = s.val(i.a["val"][1], i.a["val"][0])
            rest = T
            for cv, t in i.a["cases"]:
                s.goto(b, t, And(rest, v == cv))
                rest = And(rest, v != cv)
            s.goto(b, i.a["default"], simp(rest))
        elif i.op == "ret":
            v = None if i.a["val"] is None else s.val(i.a["val"][1], i.a["val"][0])
            s.exitreach.append((s.reach[b], len(s.asm), b))
            finish(s, s.st, v)

    def hasq(s, f):
        k = f.get_id()
        if k not in s.hasqs:
            st, seen, r = [f], set(), False
            while st and not r:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                r = z3.is_quantifier(x)
                st += x.children()
            s.hasqs[k] = f, r          # f is kept: numbers of terms are used again
        return s.hasqs[k][1]

    def decided(s, c):
        """A branch condition that is settled by what is known here becomes a constant (and an obligation)."""
        from .prove import Abstract, load
        if s.arith == "real":
            s.abstract = s.abstract or Abstract()
        ab = s.abstract or (lambda f: f)
        anc = s.anc[s.cur]
        facts = [ab(f) for f in s.glob if not s.hasq(f)] + [ab(f) for b, f, kind in s.asm if b in anc and not s.hasq(f)] + [s.reach[s.cur]]
        for want in (True, False):
            q = z3.Solver()
            q.set("timeout", int(500 * load()))
            q.add(*facts)
            q.add(ab(Not(c) if want else c))
            if q.check() == z3.unsat:
                s.oblige("lemma", c if want else Not(c), "branch is always %s" % ("taken" if want else "skipped"))
                return z3.BoolVal(want)
        return c

    # ------------------------------------------------------------ instructions
    def wrap(s, e, ty):
        """Unsigned / wrapping result: exact when in range, unconstrained (within the type) otherwise."""
        lo, hi = RANGE[ty]
        e = simp(e)
        if isconst(e):
            n = e.as_long()
            w = 1 << WIDTH[ty]
            n = (n - lo) % w + lo
            return ival(n)
        if s.exact:
            s.oblige("overflow", z3.And(e >= lo, e <= hi), "no wrap")
            return e
        v = s.fresh("w", I)
        s.assume(z3.And(v >= lo, v <= hi, z3.Implies(z3.And(e >= lo, e <= hi), v == e)))
        return v

    def uns(s, x, ty):
        if isconst(x):
            n = x.as_long()
            return ival(n if n >= 0 else n + (1 << WIDTH[ty]))
        return z3.If(x < 0, x + (1 << WIDTH[ty]), x)

    def inst(s, i):
        op, a = i.op, i.a
        m = getattr(s, "i_" + op, None)
        if m:
            return m(i)
        if op in ("add", "sub", "mul"):
            x, y = s.val(a["x"], i.ty), s.val(a["y"], i.ty)
            e = x + y if op == "add" else x - y if op == "sub" else x * y
            e = simp(e)
            if isconst(e):
                return s.wrap(e, i.ty)
            lo, hi = RANGE[i.ty]
            if a["nsw"]:
                s.oblige("overflow", z3.And(e >= lo, e <= hi), op)
                return e
            return s.wrap(e, i.ty)
        if op in ("sdiv", "srem"):
            return s.divrem(op, s.val(a["x"], i.ty), s.val(a["y"], i.ty), i.ty)
        if op in ("udiv", "urem"):
            return s.divrem("s" + op[1:], s.uns(s.val(a["x"], i.ty), i.ty), s.uns(s.val(a["y"], i.ty), i.ty), i.ty, True)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return s.fop(op, s.val(a["x"], "double"), s.val(a["y"], "double"))
        if op == "fneg":
            return s.fun("fneg", s.val(a["x"], "double"))
        if op == "icmp":
            return s.icmp(a["pred"], a["oty"], s.val(a["x"], a["oty"]), s.val(a["y"], a["oty"]))
        if op == "fcmp":
            return s.fcmp(a["pred"], s.val(a["x"], "double"), s.val(a["y"], "double"))
        if op in ("sext", "zext"):
            x = s.val(a["x"], a["oty"])
            if a["oty"] == "i1":
                return If(x, ival(-1 if op == "sext" else 1), ival(0))
            return x if op == "sext" else s.uns(x, a["oty"])
        if op == "trunc":
            x = s.val(a["x"], a["oty"])
            if i.ty == "i1":
                return x % 2 == 1
            return s.wrap(x, i.ty)
        if op in ("sitofp", "uitofp"):
            x = s.val(a["x"], a["oty"])
            if a["oty"] == "i1":
                x = If(x, ival(1), ival(0))
            return s.ofint(x if op == "sitofp" else s.uns(x, a["oty"]))
        if op in ("fptosi", "fptoui"):
            x = s.val(a["x"], "double")
            s.dfacts(x)
            lo, hi = RANGE[i.ty]
            if op == "fptoui":
                lo, hi = 0, 2 * hi + 1
            n = s.TRUNC(x)
            if s.arith == "real" and not s.rval(x)[0]:
                from .contracts import intof
                k = intof(z3.simplify(s.rval(x)[1], som=True))
                if k is not None:
                    n = simp(k)
            s.oblige("conversion", z3.And(isfin(x), num(x) > lo - 1, num(x) < hi + 1), op)
            s.assume(z3.Implies(isfin(x), z3.And(
                z3.Implies(num(x) >= 0, z3.And(z3.ToReal(n) <= num(x), num(x) < z3.ToReal(n) + 1)),
                z3.Implies(num(x) < 0, z3.And(z3.ToReal(n) >= num(x), num(x) > z3.ToReal(n) - 1)))))
            if op == "fptoui":
                return s.wrap(n, i.ty)
            return n
        if op == "select":
            c = s.val(a["c"], "i1")
            x, y = s.val(a["x"], i.ty), s.val(a["y"], i.ty)
            if i.ty == "ptr":
                return s.merge_vals([(c, x), (Not(c), y)], "ptr")
            return If(c, x, y)
        if op == "load":
            p = s.ff(s.st, s.val(a["ptr"][1], "ptr"), i.ty)
            v = s.load(s.st, p, i.ty)
            if "expect" in a:
                s.oblige("lemma", v == a["expect"], "member has the value the proof is for")
            return v
        if op == "store":
            v = s.val(a["val"][1], a["val"][0])
            p = s.ff(s.st, s.val(a["ptr"][1], "ptr"), a["val"][0])
            s.store(s.st, p, v, a["val"][0])
            return None
        if op == "getelementptr":
            base = s.val(a["args"][0][1], "ptr")
            return s.gep(a["bt"], base, [s.val(v, t) for t, v in a["args"][1:]], a["args"][1:])
        if op == "alloca":
            ty = a["aty"]
            nm = "loc:" + i.res
            if isinstance(ty, tuple) and ty[0] == "arr":
                if ty[2] == "ptr":
                    d = Desc("cells", "ptr", n=ival(ty[1]), fresh=True)
                else:
                    d = Desc("arr", ty[2], n=ival(ty[1]), fresh=True)
            elif isinstance(ty, tuple):
                d = Desc("struct", ty, fresh=True)
            elif ty == "ptr":
                d = Desc("struct", None, fresh=True)
            else:
                d = Desc("struct", None, fresh=True)
            if nm not in s.st.desc:
                s.st.desc[nm] = d
            return to(nm)
        if op == "call":
            return s.call(i)
        if op == "freeze":
            return s.val(a["x"], i.ty)
        if op == "and" and i.ty == "i1":
            return And(s.val(a["x"], "i1"), s.val(a["y"], "i1"))
        if op == "or" and i.ty == "i1":
            return Or(s.val(a["x"], "i1"), s.val(a["y"], "i1"))
        if op == "xor" and i.ty == "i1":
            return z3.Xor(s.val(a["x"], "i1"), s.val(a["y"], "i1"))
        if op == "and" and a["y"][0] == "int" and a["y"][1] >= 0 and (a["y"][1] & (a["y"][1] + 1)) == 0:
            return s.val(a["x"], i.ty) % (a["y"][1] + 1)
        if op == "shl" and a["y"][0] == "int":
            e = s.val(a["x"], i.ty) * (1 << a["y"][1])
            if a["nsw"]:
                lo, hi = RANGE[i.ty]
                s.oblige("overflow", z3.And(e >= lo, e <= hi), op)
                return simp(e)
            return s.wrap(e, i.ty)
        if op == "ashr" and a["y"][0] == "int":
            return s.val(a["x"], i.ty) / (1 << a["y"][1])
        if op == "lshr" and a["y"][0] == "int":
            return s.wrap(s.uns(s.val(a["x"], i.ty), i.ty) / (1 << a["y"][1]), i.ty)
        if op == "xor" and a["y"][0] == "int" and a["y"][1] == -1:
            return -s.val(a["x"], i.ty) - 1
        if op == "and" and a["y"][0] == "int" and a["y"][1] == 1:
            return s.val(a["x"], i.ty) % 2
        if op in ("and", "or", "xor"):
            # bit operation without a mathematical reading: any value of the type
            return s.fresh_int("bits", i.ty)
        if op == "ptrtoint":
            return s.fresh_int("addr", "i64")
        raise Unsupported("instruction %s" % op)

    def divrem(s, op, x, y, ty, unsigned=False):
        s.oblige("divzero", y != 0, op)
        if isconst(y) and y.as_long() > 0:
            if unsigned or (isconst(x) and x.as_long() >= 0):
                return simp(x / y if op == "sdiv" else x % y)
            if op == "sdiv":
                return simp(z3.If(x >= 0, x / y, -((-x) / y)))
            return simp(z3.If(x >= 0, x % y, -((-x) % y)))
        lo, hi = RANGE[ty]
        if not unsigned:
            s.oblige("overflow", z3.Or(x != lo, y != -1), op)
        key = ("dr", x.get_id(), y.get_id())
        if key in s.drcache:
            q, r = s.drcache[key][:2]
        else:
            q, r = s.fresh("q", I), s.fresh("r", I)
            s.drcache[key] = (q, r, x, y)
            s.assume(z3.Implies(z3.And(x >= 0, y > 0), z3.And(
                r >= 0, r < y, q >= 0, q <= x, z3.Implies(x < y, z3.And(q == 0, r == x)),
                z3.Implies(z3.And(x >= y, x < 2 * y), z3.And(q == 1, r == x - y)))))
            s.assume(z3.Implies(z3.And(x >= 0, y > 0), x == q * y + r))
            s.assume(z3.Implies(z3.And(x >= 0, y > 0), DIV(x, y) == q))
            s.assume(z3.Implies(z3.And(x >= 0, y > 0), MOD(x, y) == r))
            s.assume(z3.And(q >= lo, q <= hi, r >= lo, r <= hi) if not unsigned else z3.And(q >= 0, r >= 0))
        return q if op == "sdiv" else r


    def icmp(s, pred, ty, x, y):
        if ty == "ptr":
            e = s.ptreq(x, y)
            if pred == "eq":
                return e
            if pred == "ne":
                return Not(e)
            raise Unsupported("pointer order")
        if ty == "i1":
            if pred == "eq":
                return x == y
            return z3.Xor(x, y) if pred == "ne" else Unsupported
        s.note_compare(x, y)
        if pred == "eq":
            return x == y
        if pred == "ne":
            return x != y
        if pred[0] == "u":
            x, y = s.uns(x, ty), s.uns(y, ty)
        return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]

    def ptreq(s, p, q):
        cs = []
        for g, t in p.alts:
            for h, u in q.alts:
                if t is None and u is None:
                    cs.append(And(g, h))
                elif t is None or u is None:
                    continue
                elif t.obj == u.obj and t.path == u.path:
                    cs.append(And(g, h, t.row == u.row, t.col == u.col))
                elif s.st.desc[t.obj].kind == "pooled" or s.st.desc[u.obj].kind == "pooled":
                    (_, t1), (_, u1) = s.resolve(s.st, t, "ptr"), s.resolve(s.st, u, "ptr")
                    if t1.obj == u1.obj and t1.path == u1.path:
                        cs.append(And(g, h, t1.col == u1.col))
                elif t.obj.startswith("opq:file:") or u.obj.startswith("opq:file:"):
                    pass        # a stream just opened is no other one
                elif t.obj.startswith("opq:") and u.obj.startswith("opq:"):
                    cs.append(And(g, h, z3.Bool("eq.%s.%s" % tuple(sorted((t.obj, u.obj))))))
        return simp(Or(*cs))

    # ------------------------------------------------------------ calls
    def call(s, i):
        name = i.a["callee"]
        args = i.a["args"]
        if name.startswith("%"):
            p = s.vals[name[1:]]
            t = p.only()
            if t.obj == "opq:glob:gu_quit" or "gu_quit" in t.obj:
                return s.quit(i)
            raise Unsupported("indirect call %s" % t.obj)
        name = name[1:]
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name in ("llvm.assume",):
            return None
        av = [s.val(v, t) for t, v in args]
        if name in s.externals:
            return s.externals[name](s, i, av)
        if name in s.contracts:
            s.calls_seen.add(name)
            return s.contracts[name](s, i, av)
        if name.split(".")[0] in s.contracts and not name.startswith("llvm"):
            s.calls_seen.add(name)
            return s.contracts[name.split(".")[0]](s, i, av)
        from . import libc
        h = getattr(libc, "c_" + name.replace(".", "_"), None)
        if h is None:
            raise Unsupported("call of %s without a contract" % name)
        return h(s, i, av)

    def quit(s, i):
        s.quits += 1
        ok = s.quit_ok(s, s.st) if s.quit_ok else FALSE
        s.oblige("quit", ok, "gu_quit reached")
        return QUIT


QUIT = object()
DIV = z3.Function("div", I, I, I)
MOD = z3.Function("mod", I, I, I)
