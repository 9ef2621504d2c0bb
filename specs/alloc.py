"""C19: gu_alloc2d at the level of bytes."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg.templates import forall

AI = z3.ArraySort(I, I)


class Block(Desc):
    """One malloc'ed block addressed in bytes: stored pointers (as offsets into the block),
    the range that is zeroed, and the end of the range written since."""

    def __init__(d, name, bytes):
        Desc.__init__(d, "bytes", bytes=bytes, fresh=True)
        d.name = name

    def store(d, s, st, pv, v, ty, g):
        if ty != "ptr":
            raise Unsupported("non-pointer stored in the block")
        t = v.nonnull()
        if len(t) != 1 or t[0][1].obj != d.name:
            s.oblige("post", FALSE, "row pointers point into the block itself")
            return
        s.oblige("bounds", pv.col % 8 == 0, "aligned pointer table entry")
        k = (d.name, "ptrs")
        st.mem[k] = z3.Store(st.mem[k], pv.col, t[0][1].col)
        k = (d.name, "dirty")
        e = pv.col + 8
        st.mem[k] = z3.If(st.mem[k] >= e, st.mem[k], e)

    def memset(d, s, st, t, n):
        s.oblige("bounds", And(t.col >= 0, n >= 0, t.col + n <= d.bytes), "memset range")
        lo, hi = (d.name, "zlo"), (d.name, "zhi")
        # only the range last zeroed is remembered; pointers stored before are lost if inside
        dirty = (d.name, "dirty")
        s.oblige("post", st.mem[dirty] <= t.col, "zeroing comes before filling the row table")
        st.mem[lo], st.mem[hi] = t.col, t.col + n


def alloc(module, tag=""):
    def malloc(e, i, n):
        ok = e.fresh("available", B)
        e.avail = ok
        o = e.mkobj(e.st, "block", Block("block", n))
        # one malloc only in this function; n as the machine computes it
        for k in ("zlo", "zhi", "dirty"):
            e.st.mem[(o, k)] = ival(0)
            e.pathty[k] = "i64"
        e.st.mem[(o, "ptrs")] = e.fresh("ptrs", AI)
        e.pathty["ptrs"] = "i64arr"
        e.sizes.append(n)
        return Ptr([(ok, PV(o)), (Not(ok), None)])
    e = Engine(module, "gu_alloc2d", {}, tag=tag, bytesmode=malloc)
    e.z3opts = {"smt.arith.nl": True}

    def setup(e):
        st = State()
        e.sizes, e.avail = [], FALSE
        e.p = nj, ni, us = [z3.Int(n) for n in ("nj", "ni", "unitsize")]
        e.assume(z3.And(nj >= 0, nj < 2 ** 63, ni >= 0, ni < 2 ** 63, us >= 1, us <= 2 ** 32))
        e.need = 8 * nj + nj * ni * us
        e.glob += [z3.Implies(z3.And(nj > 0, ni > 0), z3.And(nj * ni >= nj, nj * ni * us >= nj * ni, nj * ni >= ni))]
        e.terms += [nj]
        e.quit_ok = lambda e, s: Or(nj == 0, ni == 0, Not(e.avail) if e.sizes else FALSE, e.need > 2 ** 63 - 1)
        return st, [nj, ni, us]

    def rows(e, st, upto):
        nj, ni, us = e.p
        k = z3.Int("k")
        A = st.mem[("block", "ptrs")]
        return forall([k], Implies(And(k >= 0, k < upto), A[8 * k] == 8 * nj + k * ni * us), [A[8 * k]])

    def loopinv(e, L, st, add):
        if ("block", "ptrs") not in st.mem:
            return
        for p in L.phis:
            if p.step == 1:
                add("rows<%s" % p.name, lambda s, p=p: rows(e, s, p.cur))
                add("table<%s" % p.name, lambda s, p=p: s.mem[("block", "dirty")] <= 8 * p.cur, numeric=True)
            if p.step == 8:
                add("rows<%s/8" % p.name, lambda s, p=p: rows(e, s, p.cur / 8))
        add("table", lambda s: s.mem[("block", "dirty")] <= 8 * e.p[0], numeric=True)
        add("zero", lambda s: And(s.mem[("block", "zlo")] <= 8 * e.p[0], s.mem[("block", "zhi")] >= e.need), numeric=True)
    e.loopinv = loopinv

    def finish(e, st, ret):
        nj, ni, us = e.p
        t = ret.nonnull()
        if len(t) != 1 or t[0][1].obj != "block":
            e.oblige("post", FALSE, "the block allocated is returned")
            return
        e.oblige("post", And(t[0][0], t[0][1].col == 0), "the start of the block is returned")
        size = st.desc["block"].bytes
        e.oblige("post", And(nj > 0, ni > 0), "an empty matrix is refused")
        e.oblige("post", size >= e.need, "the block holds the row table and all rows")
        k = z3.Int("k")
        e.oblige("post", rows(e, st, nj), "row k starts k*ni*unitsize bytes after the row table")
        e.oblige("post", st.mem[("block", "dirty")] <= 8 * nj, "nothing is written behind the row table")
        e.oblige("post", And(st.mem[("block", "zlo")] <= 8 * nj, st.mem[("block", "zhi")] >= e.need), "every element is zero")
        # consecutive, disjoint, inside the block: consequences of the row addresses
        e.oblige("post", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nj), 8 * nj + k * ni * us + ni * us <= 8 * nj + nj * ni * us)), "every row lies inside the block")
    e.run(setup, finish)
    return e
