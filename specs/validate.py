"""C01, C02: validation of grid nodes."""
import z3
from vcg.engine import *
from vcg.views import *
from vcg.templates import Comp

FN = "gridnodes_validate"


def inside(nx, ny, r, c):
    return And(r >= 0, r < ny, c >= 0, c < nx)


def dd(module, tag="", fn=FN):
    e = Engine(module, fn, tag=tag)

    def setup(e):
        st = State()
        e.dims, e.terms, e.comps, e.factors = [], [], [], []
        g = grid(e, st, "gn", type=NT["DD"])
        e.g = g
        nx, ny = g.nx(st), g.ny(st)
        X0, Y0 = g.arr(st, "x"), g.arr(st, "y")
        e.X0, e.Y0 = X0, Y0
        S = z3.Function("survives", I, I, B)
        e.S = S
        r, c = z3.Ints("r c")
        v = lambda a, b: And(inside(nx, ny, a, b), Not(isnan(X0[a, b])))
        cell = lambda dr, dc: And(v(r + dr, c), v(r, c + dc), v(r + dr, c + dc))
        ev = lambda x: x % 2 == 0
        corner = And(v(r, c), Or(*[cell(a, b) for a in (-2, 2) for b in (-2, 2)]))
        s4 = And(S(r - 1, c - 1), S(r - 1, c + 1), S(r + 1, c - 1), S(r + 1, c + 1))
        spec = If(And(ev(r), ev(c)), corner, If(And(Not(ev(r)), Not(ev(c))), And(v(r, c), s4),
                  If(ev(r), And(v(r, c), S(r, c - 1), S(r, c + 1)), And(v(r, c), S(r - 1, c), S(r + 1, c)))))
        e.assume(z3.ForAll([r, c], z3.Implies(inside(nx, ny, r, c), S(r, c) == spec), patterns=[S(r, c)]))
        cls = [("corner", lambda r, c: And(ev(r), ev(c))), ("centre", lambda r, c: And(Not(ev(r)), Not(ev(c)))),
               ("h-edge", lambda r, c: And(ev(r), Not(ev(c)))), ("v-edge", lambda r, c: And(Not(ev(r)), ev(c)))]

        def safe(st, r, c):
            X, Y = g.arr(st, "x"), g.arr(st, "y")
            return Or(And(X[r, c] == X0[r, c], Y[r, c] == Y0[r, c]), And(Not(S(r, c)), isnan(X[r, c]), isnan(Y[r, c])))

        def done(st, r, c):
            X, Y = g.arr(st, "x"), g.arr(st, "y")
            return Implies(Not(S(r, c)), isnan(X[r, c]))

        e.comps.append(Comp("only rejected nodes change", safe, lambda r, c: inside(nx, ny, r, c), lambda st, r, c: [g.at(st, "x", r, c), g.at(st, "y", r, c)], always=True))
        for nm, k in cls:
            e.comps.append(Comp("rejected %s nodes removed" % nm, done, lambda r, c, k=k: And(inside(nx, ny, r, c), k(r, c)), lambda st, r, c: [g.at(st, "x", r, c)]))
        return st, [to(g.obj)]

    def finish(e, st, ret):
        g = e.g
        nx, ny = e.g.nx(e.st0), g.ny(e.st0)
        S, X0, Y0 = e.S, e.X0, e.Y0
        X, Y = g.arr(st, "x"), g.arr(st, "y")
        r, c = z3.Ints("r c")
        ins = inside(nx, ny, r, c)
        e.oblige("post", z3.ForAll([r, c], z3.Implies(And(ins, S(r, c)), And(X[r, c] == X0[r, c], Y[r, c] == Y0[r, c])), patterns=[X[r, c]]),
                 "every surviving node keeps both coordinates")
        e.oblige("post", z3.ForAll([r, c], z3.Implies(And(ins, Not(S(r, c))), isnan(X[r, c])), patterns=[X[r, c]]),
                 "every rejected node ends with NaN x")
        e.oblige("post", z3.ForAll([r, c], z3.Implies(And(ins, Not(S(r, c)), Not(isnan(X0[r, c]))), isnan(Y[r, c])), patterns=[X[r, c]]),
                 "every node rejected by the rules ends with NaN y")
        frame(e, st)
    e.run(setup, finish)
    return e


def cor(module, tag="", fn=FN):
    e = Engine(module, fn, tag=tag)

    def setup(e):
        st = State()
        e.dims, e.terms, e.comps, e.factors = [], [], [], []
        g = grid(e, st, "gn", type=NT["COR"])
        e.g = g
        nx, ny = g.nx(st), g.ny(st)
        X0, Y0 = g.arr(st, "x"), g.arr(st, "y")
        e.X0, e.Y0 = X0, Y0
        S = z3.Function("survives", I, I, B)
        e.S = S
        r, c = z3.Ints("r c")
        v = lambda a, b: And(inside(nx, ny, a, b), Not(isnan(X0[a, b])))
        cell = lambda dr, dc: And(v(r + dr, c), v(r, c + dc), v(r + dr, c + dc))
        spec = And(v(r, c), Or(*[cell(a, b) for a in (-1, 1) for b in (-1, 1)]))
        e.assume(z3.ForAll([r, c], z3.Implies(inside(nx, ny, r, c), S(r, c) == spec), patterns=[S(r, c)]))

        def safe(st, r, c):
            X, Y = g.arr(st, "x"), g.arr(st, "y")
            return Or(And(X[r, c] == X0[r, c], Y[r, c] == Y0[r, c]), And(Not(S(r, c)), isnan(X[r, c]), isnan(Y[r, c])))

        def done(st, r, c):
            X, Y = g.arr(st, "x"), g.arr(st, "y")
            return Implies(Not(S(r, c)), isnan(X[r, c]))

        dom = lambda r, c: inside(nx, ny, r, c)
        e.comps.append(Comp("only rejected nodes change", safe, dom, lambda st, r, c: [g.at(st, "x", r, c), g.at(st, "y", r, c)], always=True))
        e.comps.append(Comp("rejected nodes removed", done, dom, lambda st, r, c: [g.at(st, "x", r, c)]))
        return st, [to(g.obj)]

    def finish(e, st, ret):
        g = e.g
        nx, ny = e.g.nx(e.st0), g.ny(e.st0)
        S, X0, Y0 = e.S, e.X0, e.Y0
        X, Y = g.arr(st, "x"), g.arr(st, "y")
        r, c = z3.Ints("r c")
        ins = inside(nx, ny, r, c)
        e.oblige("post", z3.ForAll([r, c], z3.Implies(And(ins, S(r, c)), And(X[r, c] == X0[r, c], Y[r, c] == Y0[r, c])), patterns=[X[r, c]]),
                 "every surviving node keeps both coordinates")
        e.oblige("post", z3.ForAll([r, c], z3.Implies(And(ins, Not(S(r, c))), isnan(X[r, c])), patterns=[X[r, c]]),
                 "every other node ends invalid")
        e.oblige("post", z3.ForAll([r, c], z3.Implies(And(ins, Not(S(r, c)), Not(isnan(X0[r, c]))), isnan(Y[r, c])), patterns=[X[r, c]]),
                 "every valid node that is rejected ends with NaN y")
        frame(e, st)
    e.run(setup, finish)
    return e


def direct(kind):
    """The same contract for gridnodes_validate_dd or gridnodes_validate_cor called on their own."""
    def build(module, tag=""):
        from specs.stats import need
        need(module, "gridnodes_validate_" + kind, 1)
        return (dd if kind == "dd" else cor)(module, tag, "gridnodes_validate_" + kind)
    return build


def other(type):
    def build(module, tag=""):
        e = Engine(module, FN, tag=tag)

        def setup(e):
            st = State()
            e.dims, e.terms, e.comps, e.factors = [], [], [], []
            e.g = grid(e, st, "gn", type=type)
            e.X0, e.Y0 = e.g.arr(st, "x"), e.g.arr(st, "y")
            return st, [to(e.g.obj)]

        def finish(e, st, ret):
            X, Y = e.g.arr(st, "x"), e.g.arr(st, "y")
            e.oblige("post", X == e.X0, "no node changes (x)")
            e.oblige("post", Y == e.Y0, "no node changes (y)")
            frame(e, st)
        e.run(setup, finish)
        return e
    return build


def frame(e, st):
    g = e.g
    for f in ("nx", "ny", "type", "maptype", "nextpoint"):
        e.oblige("post", g.f(st, f) == g.f(e.st0, f), "%s unchanged" % f)
    for w in "xy":
        same = g.mat(st, w) is not None and g.mat(st, w) == g.mat(e.st0, w)
        e.oblige("post", z3.BoolVal(same), "node array g%s stays in place" % w)
