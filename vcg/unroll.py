"""Unrolling of loops whose number of iterations is fixed by constants in the code.

A loop qualifies if its header ends in a comparison of a counter that starts at a constant and moves by
a constant with a constant, so that the number of iterations follows by counting."""
from .ir import Function, Block, Inst

CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b,
       "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b}
for _k in ("lt", "le", "gt", "ge"):
    CMP["u" + _k] = lambda a, b, _c=CMP["s" + _k]: _c(a & (2 ** 64 - 1), b & (2 ** 64 - 1))


def specialised(f, m, spec):
    """Loads of the structure members named in spec become the given constants (the engine checks at each
    load that the member has that value), and arithmetic on constants is folded."""
    defs = {i.res: i for b in f.order for i in f.blocks[b].insts if i.res}
    const = {p: (spec["@" + p], t) for t, p in ((q[0], q[1]) for q in f.params) if "@" + p in spec}
    # the first member is accessed through the pointer to the structure itself
    base = {}
    for i in defs.values():
        if i.op == "getelementptr" and isinstance(i.a["bt"], tuple) and i.a["bt"][0] == "named" and i.a["args"][0][1][0] == "reg":
            base.setdefault(i.a["args"][0][1][1], i.a["bt"][1])
    for i in defs.values():
        if i.op == "load" and i.a["ptr"][1][0] == "reg":
            sn = base.get(i.a["ptr"][1][1])
            if sn and m.structs[sn] and m.structs[sn][0] == i.ty and m.fieldname(sn, 0) in spec:
                i.a["expect"] = spec[m.fieldname(sn, 0)]
                const[i.res] = (i.a["expect"], i.ty)
                continue
            p = defs.get(i.a["ptr"][1][1])
            if p is not None and p.op == "getelementptr" and isinstance(p.a["bt"], tuple) and p.a["bt"][0] == "named" and len(p.a["args"]) == 3:
                k = p.a["args"][2][1]
                if k[0] == "int":
                    fn = m.fieldname(p.a["bt"][1], k[1])
                    if fn in spec:
                        i.a["expect"] = spec[fn]
                        const[i.res] = (spec[fn], i.ty)
    fold = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}

    def mp(v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "reg" and v[1] in const:
            n, ty = const[v[1]]
            return ("int", n, ty)
        if isinstance(v, tuple):
            return tuple(mp(x) for x in v)
        if isinstance(v, list):
            return [mp(x) for x in v]
        return v
    while True:
        n0 = len(const)
        for b in f.order:
            for i in f.blocks[b].insts:
                for key, v in list(i.a.items()):
                    if key != "inc":
                        i.a[key] = mp(v)
                    else:
                        i.a[key] = [(mp(x), p) for x, p in v]
                if i.res in const:
                    continue
                if i.op in fold and i.a["x"][0] == "int" and i.a["y"][0] == "int":
                    v = fold[i.op](i.a["x"][1], i.a["y"][1])
                    if abs(v) < 2 ** 31:
                        const[i.res] = (v, i.ty)
                elif i.op in ("sext", "zext", "trunc") and i.a["x"][0] == "int" and i.a["x"][1] >= 0 and i.ty != "i1":
                    const[i.res] = (i.a["x"][1], i.ty)
        if len(const) == n0:
            return f


def loops(f):
    seen, stack, back = set(), [], []
    on = set()
    st = [(f.order[0], iter(f.blocks[f.order[0]].succ))]
    seen.add(f.order[0])
    on.add(f.order[0])
    while st:
        b, it = st[-1]
        for x in it:
            if x in on:
                back.append((b, x))
            elif x not in seen:
                seen.add(x)
                on.add(x)
                st.append((x, iter(f.blocks[x].succ)))
                break
        else:
            on.discard(b)
            st.pop()
    out = {}
    for b, h in back:
        body = out.setdefault(h, [set([h]), []])
        body[1].append(b)
        w = [b]
        while w:
            y = w.pop()
            if y not in body[0]:
                body[0].add(y)
                w += [p for p in f.blocks[y].pred if p in seen]
    return out, seen


def trips(f, h, body, latches, limit):
    """Number of times the body is entered, or None."""
    t = f.blocks[h].insts[-1]
    if t.op != "br" or t.a["cond"] is None or t.a["cond"][0] != "reg" or len(latches) != 1:
        return None
    defs = {i.res: i for b in body for i in f.blocks[b].insts if i.res}
    c = defs.get(t.a["cond"][1])
    if c is None or c.op != "icmp" or c.a["pred"] not in CMP:
        return None
    x, y = c.a["x"], c.a["y"]
    if x[0] != "reg" or y[0] != "int" or x[1] not in defs:
        return None
    ph = defs[x[1]]
    if ph.op != "phi" or ph not in f.blocks[h].insts or ph.ty == "ptr":
        return None
    inc = {b: v for v, b in ph.a["inc"]}
    init = [v for b, v in inc.items() if b not in body]
    step = inc[latches[0]]
    if len(init) != 1 or init[0][0] != "int" or step[0] != "reg" or step[1] not in defs:
        return None
    s = defs[step[1]]
    if s.op not in ("add", "sub") or s.a["x"] != ("reg", ph.res) or s.a["y"][0] != "int":
        return None
    d = s.a["y"][1] if s.op == "add" else -s.a["y"][1]
    inside = [k for k in (0, 1) if t.a["targets"][k] in body]
    if len(inside) != 1:
        return None
    stay = inside[0] == 0
    v, n = init[0][1], 0
    while CMP[c.a["pred"]](v, y[1]) == stay:
        n += 1
        v += d
        if n > limit:
            return None
    return n


def unrolled(f, limit=4):
    while True:
        ls, seen = loops(f)
        for h, (body, latches) in sorted(ls.items(), key=lambda a: len(a[1][0])):
            n = trips(f, h, body, latches, limit)
            if n is None:
                continue
            g = unroll(f, h, body, latches[0], n)
            if g is not None:
                f = g
                break
        else:
            return f


def unroll(f, h, body, latch, n):
    defs = {i.res for b in body for i in f.blocks[b].insts if i.res}
    hdefs = {i.res for i in f.blocks[h].insts if i.res}
    # exits
    others = [b for b in body if b != h and any(x not in body for x in f.blocks[b].succ)]

    def uses(v, out):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "reg":
            out.add(v[1])
        elif isinstance(v, (tuple, list)):
            for x in v:
                uses(x, out)
        elif isinstance(v, dict):
            for x in v.values():
                uses(x, out)
    outside = set()
    for b in f.order:
        if b in body:
            continue
        for i in f.blocks[b].insts:
            if i.op == "phi":
                continue
            u = set()
            uses(i.a, u)
            outside |= u & defs
    for b in f.order:
        if b in body:
            continue
        for i in f.blocks[b].insts:
            if i.op == "phi":
                u = set()
                uses([v for v, p in i.a["inc"] if p not in body], u)
                outside |= u & defs
    if outside and (others or not outside <= hdefs):
        return None

    def nb(b, k):
        return b if k == 0 or b not in body else "%s~%d" % (b, k)

    def nr(r, k):
        return r if k == 0 or r not in defs else "%s~%d" % (r, k)

    def mp(v, k):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "reg":
            return ("reg", nr(v[1], k))
        if isinstance(v, tuple):
            return tuple(mp(x, k) for x in v)
        if isinstance(v, list):
            return [mp(x, k) for x in v]
        return v

    g = Function(f.name, f.retty, f.params)
    for a in ("dbg", "varname", "ptype"):
        if hasattr(f, a):
            setattr(g, a, getattr(f, a))
    g.varname = dict(f.varname)
    order = []
    for b in f.order:
        if b == h:
            for k in range(n + 1):
                order += [(x, k) for x in f.order if x in body and (k < n or x == h)]
        elif b not in body:
            order.append((b, None))
    for b, k in order:
        B = Block(b if k is None else nb(b, k))
        g.blocks[B.name] = B
        g.order.append(B.name)
        kk = 0 if k is None else k
        for i in f.blocks[b].insts:
            a = {}
            for key, v in i.a.items():
                if key in ("targets", "default", "cases"):
                    a[key] = v
                elif key == "inc":
                    a[key] = v
                else:
                    a[key] = mp(v, kk if k is not None else n)
            if i.op == "phi":
                inc = []
                for v, p in i.a["inc"]:
                    if k is None:                       # outside the loop
                        if p in body:
                            for q in (range(n + 1) if p != h else [n]):
                                if p == h or q < n:
                                    inc.append((mp(v, q), nb(p, q)))
                        else:
                            inc.append((mp(v, n), p))
                    elif b == h:
                        if k == 0 and p not in body:
                            inc.append((v, p))
                        elif k > 0 and p in body:
                            inc.append((mp(v, k - 1), nb(p, k - 1)))
                    else:
                        inc.append((mp(v, k), nb(p, k)))
                a["inc"] = inc
            if i.op == "br":
                ts = list(i.a["targets"])
                if k is not None:
                    if b == h:
                        ts = [x for x in ts if (x in body) == (k < n)]
                        a["cond"] = None
                        ts = [nb(ts[0], k)]
                    else:
                        ts = [nb(x, k + 1) if x == h else nb(x, k) for x in ts]
                a["targets"] = ts
            if i.op == "switch" and k is not None:
                to = lambda x: nb(x, k + 1) if x == h else nb(x, k)
                a["default"] = to(i.a["default"])
                a["cases"] = [(c, to(x)) for c, x in i.a["cases"]]
            j = Inst(i.op, nr(i.res, kk) if k is not None and i.res else i.res, i.ty, a, i.line, i.text)
            if hasattr(i, "inl"):
                j.inl = i.inl
            if j.res and i.res in f.varname:
                g.varname[j.res] = f.varname[i.res]
            B.insts.append(j)
    for b in g.order:
        B = g.blocks[b]
        if not B.insts:
            continue
        t = B.insts[-1]
        if t.op == "br":
            B.succ = list(t.a["targets"])
        elif t.op == "switch":
            B.succ = [t.a["default"]] + [x for _, x in t.a["cases"]]
    for b in g.order:
        for x in dict.fromkeys(g.blocks[b].succ):
            g.blocks[x].pred.append(b)
    return g
