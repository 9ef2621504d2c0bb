"""Loop invariant candidates.  Everything here is a guess: a candidate counts
only after it has been proved on entry and over every back edge."""
import z3
from .engine import I, And, Or, Not, Implies, If, T, ival, isconst, simp, Unsupported, is_true


def consts_of(e, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st += x.children()
    return out


def numeric(s, L, st, add):
    phis = [p for p in L.phis]
    terms = list(s.terms) + [t for t in s.cmpterms.get(L.header, {}).values()]
    uniq, seen = [], set()
    for t in terms:
        t = simp(t)
        if t.get_id() not in seen:
            seen.add(t.get_id())
            uniq.append(t)
    chainphis = []
    for M in L.chain[1:]:
        chainphis += M.phis
    for p in phis:
        nm = p.name
        init = p.init
        if p.step is not None and p.step != 0:
            if p.step > 0:
                add("%s>=init" % nm, lambda st, p=p: p.cur >= p.init, numeric=True)
            else:
                add("%s<=init" % nm, lambda st, p=p: p.cur <= p.init, numeric=True)
            if abs(p.step) > 1:
                add("%s stride" % nm, lambda st, p=p: (p.cur - p.init) % abs(p.step) == 0, numeric=True)
        elif p.step is None:
            add("%s>=init" % nm, lambda st, p=p: p.cur >= p.init, numeric=True)
            add("%s<=init" % nm, lambda st, p=p: p.cur <= p.init, numeric=True)
            add("%s>=0" % nm, lambda st, p=p: p.cur >= 0, numeric=True)
        if p.step == 0:
            add("%s const" % nm, lambda st, p=p: p.cur == p.init, numeric=True)
            continue
        for k, t in enumerate(uniq):
            if t.eq(init):
                continue
            tn = str(t) if len(str(t)) < 30 else "t%d" % k
            if p.step is None or p.step > 0:
                add("%s<=%s" % (nm, tn), lambda st, p=p, t=t: p.cur <= t, numeric=True)
                if p.step is not None and p.step > 1:
                    add("%s<=%s+" % (nm, tn), lambda st, p=p, t=t: Or(p.cur <= t + (p.step - 1), p.cur == p.init), numeric=True)
                elif p.step == 1:
                    add("%s<=%s|init" % (nm, tn), lambda st, p=p, t=t: Or(p.cur <= t, p.cur == p.init), numeric=True)
                if p.step is None:
                    add("%s<%s" % (nm, tn), lambda st, p=p, t=t: p.cur < t, numeric=True)
            if p.step is None or p.step < 0:
                add("%s>=%s" % (nm, tn), lambda st, p=p, t=t: p.cur >= t, numeric=True)
                add("%s>=%s-1" % (nm, tn), lambda st, p=p, t=t: p.cur >= t - 1, numeric=True)
                if p.step is not None and p.step < 0:
                    add("%s>=%s|init" % (nm, tn), lambda st, p=p, t=t: Or(p.cur >= t + (p.step + 1), p.cur == p.init), numeric=True)
                    add("%s>=%s-step" % (nm, tn), lambda st, p=p, t=t: p.cur >= t + p.step, numeric=True)
        # a counter that moves at most as fast as another one of the same loop
        if p.step is None:
            for q in phis:
                if q is not p and q.step == 1:
                    add("%s slower than %s" % (nm, q.name), lambda st, p=p, q=q: p.cur - p.init <= q.cur - q.init, numeric=True)
                    add("%s <= %s" % (nm, q.name), lambda st, p=p, q=q: p.cur <= q.cur, numeric=True)
                elif q is not p and q.step is None and p.name < q.name:
                    add("%s<=%s" % (nm, q.name), lambda st, p=p, q=q: p.cur <= q.cur, numeric=True)
                    add("%s<=%s" % (q.name, nm), lambda st, p=p, q=q: q.cur <= p.cur, numeric=True)
                    add("%s<%s" % (nm, q.name), lambda st, p=p, q=q: p.cur < q.cur, numeric=True)
                    add("%s<%s" % (q.name, nm), lambda st, p=p, q=q: q.cur < p.cur, numeric=True)
                elif q is not p and q.step and abs(q.step) > 1:
                    add("%s slower than %s" % (nm, q.name),
                        lambda st, p=p, q=q: (p.cur - p.init) * abs(q.step) <= (q.cur - q.init) * (1 if q.step > 0 else -1), numeric=True)
    # a counter that grows by at most a fixed factor per outer step
    for p in phis:
        if p.step is None:
            for q in phis:
                if q is not p and q.step:
                    for k, (f, bs) in enumerate(s.factors):
                        add("%s<=%s*factor%d" % (p.name, q.name, k),
                            lambda st, p=p, q=q, f=f, bs=bs: (p.cur - p.init) * abs(q.step) <= s.bounded_product((q.cur - q.init) * (1 if q.step > 0 else -1), f, bs),
                            numeric=True)
    # linear relations between constant-step counters
    cs = [p for p in phis if p.step]
    for a in range(len(cs)):
        for b in range(a + 1, len(cs)):
            p, q = cs[a], cs[b]
            add("%s~%s" % (p.name, q.name), lambda st, p=p, q=q: (p.cur - p.init) * q.step == (q.cur - q.init) * p.step, numeric=True)
    # counters of an outer loop advanced in the inner loop: count <= j*n + i
    for p in phis:
        if p.step is None or p.step == 1:
            for q in chainphis + phis:
                if q is p or q.step in (None, 0):
                    continue
                for (nr, nc) in getattr(s, "dims", []):
                    if q in phis:
                        add("%s<=%s*n" % (p.name, q.name), lambda st, p=p, q=q, nc=nc: p.cur <= s.nlmul(q.cur, nc), numeric=True)
                        add("%s==%s*n" % (p.name, q.name), lambda st, p=p, q=q, nc=nc: p.cur == s.nlmul(q.cur, nc), numeric=True)
                    else:
                        for w in phis:
                            if w is p or not w.step:
                                continue
                            add("%s<=%s*n+%s" % (p.name, q.name, w.name),
                                lambda st, p=p, q=q, w=w, nc=nc: And(p.cur <= s.nlmul(q.cur, nc) + w.cur), numeric=True)
                            add("%s==%s*n+%s" % (p.name, q.name, w.name),
                                lambda st, p=p, q=q, w=w, nc=nc: And(p.cur == s.nlmul(q.cur, nc) + w.cur), numeric=True)


class Comp:
    """One clause of a whole-array postcondition, usable loop by loop.

    fn(st, r, c) -> formula; dom(r, c) -> where it must hold eventually;
    pats(st, r, c) -> trigger terms (each a list element is one pattern)."""

    def __init__(s, label, fn, dom=None, pats=None, dims=2, always=False, coords=None):
        s.label, s.fn, s.dom, s.pats, s.dims, s.always = label, fn, dom, pats, dims, always
        s.coords = coords or (lambda *q: q)


def forall(vs, body, pats):
    if is_true(body):
        return T
    ps = [p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p) for p in (pats or [])]
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


def progress1(s, L, ph):
    """Predicates "index x is already behind counter ph"."""
    out = []
    for m, sc, of in s.scales:
        tag = "" if (m, sc, of) == (1, 1, 0) else "[%d,%d,%d]" % (m, sc, of)
        if ph.step > 0:
            out.append(("<%s%s" % (ph.name, tag), lambda x, m=m, sc=sc, of=of: m * x < sc * ph.cur + of))
        else:
            out.append((">%s%s" % (ph.name, tag), lambda x, m=m, sc=sc, of=of: m * x > sc * ph.cur + of))
    return out


def progresses(s, L, dims):
    """(label, visited(q)) pairs for the loop header of L."""
    own = [p for p in L.phis if p.step and p.ty != "ptr"]
    if dims == 1:
        for p in own:
            for lab, f in progress1(s, L, p):
                yield lab, f
        return
    outer = []
    for M in L.chain[1:]:
        outer += [p for p in M.phis if p.step and p.ty != "ptr"]
    for w in own:
        for lab, f in progress1(s, L, w):
            yield "row" + lab, (lambda r, c, f=f: f(r))
            yield "col" + lab, (lambda r, c, f=f: f(c))
    for v in outer:
        for w in own:
            if v is w:
                continue
            for k, (m, sc, of) in enumerate(s.scales):
                lv, fv = progress1(s, L, v)[k]
                lw, fw = progress1(s, L, w)[k]
                at = lambda x, v=v, m=m, sc=sc, of=of: m * x == sc * v.cur + of
                yield "row%s,col%s" % (lv, lw), (lambda r, c, fv=fv, fw=fw, at=at: Or(fv(r), And(at(r), fw(c))))
                yield "col%s,row%s" % (lv, lw), (lambda r, c, fv=fv, fw=fw, at=at: Or(fv(c), And(at(c), fw(r))))


def components(s, L, st, add, comps):
    """Whole-array candidates at the header of L."""
    for cp in comps:
        vs = [z3.Int("q%d" % k) for k in range(cp.dims)]

        def mk(cond, cp=cp, vs=vs):
            def fn(st):
                body = cp.fn(st, *vs)
                d = cp.dom(*vs) if cp.dom else T
                g = And(d, cond(*cp.coords(*vs)) if cond else T)
                return forall(vs, Implies(g, body), cp.pats(st, *vs) if cp.pats else None)
            return fn
        add("%s: everywhere" % cp.label, mk(None))
        if cp.always:
            continue
        for lab, vis in progresses(s, L, cp.dims):
            add("%s: %s" % (cp.label, lab), mk(vis))


def unchanged(s, L, st, add, watch, dims=2):
    """Array cells not visited yet still hold what they held when the nest was entered."""
    root = L.chain[-1]
    for (obj, path) in watch:
        vs = [z3.Int("q%d" % k) for k in range(dims)]

        def val(st, obj=obj, path=path):
            return st.mem.get((obj, path))
        for lab, vis in progresses(s, L, dims):
            def fn(st, vis=vis, val=val):
                a, b = val(st), val(root.entryst)
                if a is None or b is None:
                    return None
                if a.eq(b):
                    return T
                return forall(vs, Implies(Not(vis(*vs)), a[tuple(vs)] == b[tuple(vs)]) if dims > 1 else Implies(Not(vis(*vs)), a[vs[0]] == b[vs[0]]),
                              [a[tuple(vs)] if dims > 1 else a[vs[0]]])
            add("%s unchanged beyond %s" % (obj, lab), fn)
