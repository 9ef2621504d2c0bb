"""Contracts of the C library functions the code calls (trusted)."""
import z3
from .engine import (I, B, R, F, PV, Ptr, T, FALSE, NULL, to, Desc, And, Or, Not, Implies, If, isnan, isfin, num, ival, isconst,
                     simp, Unsupported, QUIT, SIZE, A1, A2, is_true, is_false)


def c_malloc(s, i, av):
    n = av[0]
    if s.bytesmode:
        return s.bytesmode(s, i, n)
    s.oblige("alloc", n >= 0, "malloc size")
    o = s.mkobj(s.st, "heap%s" % (i.res or "x"), Desc("raw", bytes=n, fresh=True))
    s.st.alive[o] = T
    return to(o)


def c_calloc(s, i, av):
    n = simp(av[0] * av[1])
    if not isconst(n):
        s.oblige("alloc", z3.And(av[0] >= 0, av[1] >= 0, n <= 2 ** 63 - 1), "calloc size")
    o = s.mkobj(s.st, "heap%s" % (i.res or "x"), Desc("raw", bytes=n, zero=True, fresh=True))
    s.st.alive[o] = T
    return to(o)


def c_realloc(s, i, av):
    p, n = av
    s.oblige("alloc", n >= 0, "realloc size")
    out = []
    for g, t in p.alts:
        if t is None:
            o = s.mkobj(s.st, "re%s" % i.res, Desc("raw", bytes=n, fresh=True))
            s.st.alive[o] = T
            out.append((g, PV(o)))
            continue
        d = s.st.desc[t.obj]
        if t.path or not (isconst(t.col) and t.col.as_long() == 0):
            s.oblige("free", FALSE, "realloc of interior pointer")
        s.oblige("free", Implies(g, s.st.alive.get(t.obj, T)), "realloc of freed memory")
        if d.kind == "raw":
            o = s.mkobj(s.st, "re%s" % i.res, Desc("raw", bytes=n, fresh=True))
            s.st.alive[o] = T
        elif d.kind in ("arr", "struct"):
            elem = d.elem
            if d.kind == "struct":
                raise Unsupported("realloc of struct")
            sz = s.m.sizeof(elem) if isinstance(elem, tuple) else SIZE[elem]
            nn = s.divide(n, sz)
            o = s.mkobj(s.st, "re%s" % i.res, Desc("arr", elem, n=nn, fresh=True))
            s.st.alive[o] = T
            s.reallocof[o] = t.obj
            for (ob, path), v in list(s.st.mem.items()):
                if ob == t.obj:
                    # common prefix keeps its content; the rest is unspecified
                    a = s.fresh("re", v.sort())
                    k = z3.Int("k!re")
                    lim = z3.If(d.n < nn, d.n, nn)
                    s.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < lim), a[k] == v[k]), patterns=[a[k], v[k]] if z3.is_const(v) else [a[k]]))
                    s.st.mem[(o, path)] = a
        elif d.kind == "mat" and d.flat:
            nn = s.divide(n, 8 * d.nc.as_long())
            nd = Desc("mat", d.elem, nr=nn, nc=d.nc, fresh=True)
            nd.flat = True
            o = s.mkobj(s.st, "re%s" % i.res, nd)
            s.st.alive[o] = T
            s.reallocof[o] = t.obj
            v = s.getmem(s.st, t.obj, "@double", "double")
            a = s.fresh("re", v.sort())
            k, c = z3.Ints("k!re c!re")
            s.assume(z3.ForAll([k, c], z3.Implies(z3.And(k >= 0, k < z3.If(d.nr < nn, d.nr, nn)), a[k, c] == v[k, c]), patterns=[a[k, c]]))
            s.st.mem[(o, "@double")] = a
        else:
            raise Unsupported("realloc of %s" % d.kind)
        s.st.alive[t.obj] = And(s.st.alive.get(t.obj, T), Not(g))
        out.append((g, PV(o)))
    return s.norm(Ptr(out))


def c_free(s, i, av):
    for g, t in av[0].alts:
        if t is None:
            continue
        d = s.st.desc[t.obj]
        if d.kind == "opaque":
            s.oblige("frame", Not(g), "free of an object not owned: %s" % t.obj)
            continue
        if d.live or d.kind == "pooled":
            o, k = (d.pool, d.addr) if d.kind == "pooled" else (t.obj, t.col)
            lv = s.st.mem[(o, "@live")]
            s.oblige("free", Implies(g, lv[k]), "double free")
            if t.path:
                s.oblige("free", Not(g), "free of interior pointer")
            s.st.mem[(o, "@live")] = If(g, z3.Store(lv, k, FALSE), lv)
            continue
        if t.path or not is_true(simp(t.col == 0)) or not is_true(simp(t.row == 0)):
            s.oblige("free", Implies(g, FALSE), "free of interior pointer")
        if not d.fresh:
            s.oblige("frame", Not(g), "free of an object not owned: %s" % t.obj)
        s.oblige("free", Implies(g, s.st.alive.get(t.obj, T)), "double free")
        s.st.alive[t.obj] = simp(And(s.st.alive.get(t.obj, T), Not(g)))
    return None


def flat(s, st, t, ety="double"):
    d = st.desc[t.obj]
    if d.kind == "raw":
        raise Unsupported("copy to untyped memory")
    return d


def c_llvm_memcpy_p0_p0_i64(s, i, av, move=False):
    dp, sp, n = av[:3]
    if not (isconst(n) and n.as_long() == 0):
        pass
    dp, sp = dp.nonnull(), sp.nonnull()
    if len(dp) != 1 or len(sp) != 1:
        raise Unsupported("memcpy with ambiguous pointers")
    dt, stt = dp[0][1], sp[0][1]
    st = s.st
    dd, sd = st.desc[dt.obj], st.desc[stt.obj]
    if dd.ro:
        s.oblige("frame", FALSE, "memcpy into read-only %s" % dt.obj)
    for t, d in ((dt, dd), (stt, sd)):
        s.oblige("bounds", st.alive.get(t.obj, T), "copy of freed memory")
    if dd.kind == "raw" and sd.kind == "arr" and not dt.path:
        s.retype(st, dt.obj, sd.elem)
        dd = st.desc[dt.obj]
    if dd.kind == "raw" and sd.kind == "struct":
        s.retype(st, dt.obj, sd.elem)
        dd = st.desc[dt.obj]
    if dd.kind == "raw" and sd.flat and not dt.path:
        s.retype(st, dt.obj, "double")
        dd = st.desc[dt.obj]
    if dd.flat and sd.flat and isconst(n) and n.as_long() % 8 == 0 and n.as_long() <= 64:
        vals = []
        for k in range(n.as_long() // 8):
            vals.append(s.load(st, to(stt.obj, stt.row, stt.col + k), "double"))
        for k, v in enumerate(vals):
            s.store(st, to(dt.obj, dt.row, dt.col + k), v, "double")
        return None
    if dd.kind == "mat" and sd.kind == "mat":
        for t, d in ((dt, dd), (stt, sd)):
            s.oblige("bounds", And(t.row == 0, t.col == 0, n <= d.nr * d.nc * 8, n >= 0), "memcpy range")
        src = s.getmem(st, stt.obj, "@double", "double")
        whole = And(n == dd.nr * dd.nc * 8, dd.nr == sd.nr, dd.nc == sd.nc)
        un = s.fresh("cpy", src.sort())
        whole = z3.simplify(whole, som=True)
        if is_true(whole):
            un = src
        else:
            s.assume(z3.Implies(whole, un == src))
        st.mem[(dt.obj, "@double")] = un
        return None
    if dd.kind == "arr" and sd.kind == "arr":
        e = dd.elem
        if e != sd.elem:
            raise Unsupported("memcpy between different element types")
        sz = s.m.sizeof(e) if isinstance(e, tuple) else SIZE[e]
        cnt = s.divide(n, sz)
        s.oblige("bounds", And(n == cnt * sz, cnt >= 0), "memcpy of partial elements")
        s.oblige("bounds", Implies(cnt > 0, And(dt.col >= 0, dt.col + cnt <= dd.n)), "memcpy destination range")
        s.oblige("bounds", Implies(cnt > 0, And(stt.col >= 0, stt.col + cnt <= sd.n)), "memcpy source range")
        if not move and dt.obj == stt.obj:
            s.oblige("overlap", Or(cnt <= 0, dt.col + cnt <= stt.col, stt.col + cnt <= dt.col), "memcpy overlap")
        paths = [p for (o, p) in list(st.mem) if o == stt.obj]
        if not isinstance(e, tuple):
            key = "@" + ("double" if e == "double" else "i")
            s.getmem(st, stt.obj, key, e)
            paths = [key]
        for p in paths:
            src = st.mem[(stt.obj, p)]
            if is_true(simp(And(dt.col == 0, stt.col == 0, cnt == dd.n))):
                st.mem[(dt.obj, p)] = src
                continue
            old = s.getmem(st, dt.obj, p, s.pathty.get(p, e if not isinstance(e, tuple) else "i32"))
            a = s.fresh("cpy", old.sort())
            k = z3.Int("k!cp")
            s.assume(z3.ForAll([k], a[k] == z3.If(z3.And(k >= dt.col, k < dt.col + cnt), src[k - dt.col + stt.col], old[k]), patterns=[a[k]]))
            st.mem[(dt.obj, p)] = a
        return None
    if dd.kind == "struct" and sd.kind == "struct" and not dt.path and not stt.path and dd.elem == sd.elem and dd.elem is not None:
        sz = s.m.sizeof(dd.elem)
        s.oblige("bounds", n == sz, "struct copy size")
        for (o, p), v in list(st.mem.items()):
            if o == stt.obj:
                st.mem[(dt.obj, p)] = v
        return None
    if dd.kind in ("struct", "arr") and sd.kind in ("struct", "arr"):
        # struct member (embedded struct) copies: copy all paths below
        def below(p, base):
            return p == base or p.startswith(base + ".")
        sub = None
        if isinstance(n, z3.IntNumRef) or isconst(n):
            for (o, p), v in list(st.mem.items()):
                if o == stt.obj and (stt.path == "" or below(p, stt.path)):
                    rel = p[len(stt.path):]
                    if stt.path == "" and dt.path:
                        rel = "." + p.split(".", 1)[1]
                    np_ = dt.path + rel if dt.path else p
                    if dt.path == "" and stt.path:
                        # struct name of destination
                        np_ = dd.elem[1][7:] + rel
                    if dd.kind == "struct" and sd.kind == "struct":
                        st.mem[(dt.obj, np_)] = v
                        s.pathty[np_] = s.pathty.get(p)
                    else:
                        raise Unsupported("struct copy in arrays")
            return None
    raise Unsupported("memcpy %s <- %s" % (dd.kind, sd.kind))


def c_memcpy(s, i, av):
    c_llvm_memcpy_p0_p0_i64(s, i, av)
    return av[0]


def c_memmove(s, i, av):
    c_llvm_memcpy_p0_p0_i64(s, i, av, move=True)
    return av[0]


def c_llvm_memmove_p0_p0_i64(s, i, av):
    return c_llvm_memcpy_p0_p0_i64(s, i, av, move=True)


def c_llvm_memset_p0_i64(s, i, av):
    p, v, n = av[:3]
    if not isconst(simp(v)) or simp(v).as_long() != 0:
        raise Unsupported("memset with nonzero value")
    t = s.deref(p, "memset")
    d = s.st.desc[t.obj]
    st = s.st
    s.oblige("bounds", st.alive.get(t.obj, T), "memset of freed memory")
    if d.ro:
        s.oblige("frame", FALSE, "memset of read-only")
    if d.kind == "raw":
        if not is_true(simp(t.col == 0)):
            raise Unsupported("memset inside raw")
        s.oblige("bounds", And(n >= 0, n <= d.bytes), "memset range")
        if is_true(simp(n == d.bytes)):
            nd = Desc("raw", bytes=d.bytes, zero=True, fresh=d.fresh)
            st.desc[t.obj] = nd
            return None
        raise Unsupported("partial memset of raw memory")
    if d.kind == "bytes":
        return d.memset(s, st, t, n)
    if d.kind == "arr" and not isinstance(d.elem, tuple):
        sz = SIZE[d.elem]
        cnt = s.divide(n, sz)
        s.oblige("bounds", And(n == cnt * sz, cnt >= 0, Implies(cnt > 0, And(t.col >= 0, t.col + cnt <= d.n))), "memset range")
        key = "@" + ("double" if d.elem == "double" else "i")
        old = s.getmem(st, t.obj, key, d.elem)
        a = s.fresh("mset", old.sort())
        k = z3.Int("k!ms")
        z = s.dval(0.0) if d.elem == "double" else ival(0)
        s.assume(z3.ForAll([k], a[k] == z3.If(z3.And(k >= t.col, k < t.col + cnt), z, old[k]), patterns=[a[k]]))
        st.mem[(t.obj, key)] = a
        return None
    raise Unsupported("memset of %s" % d.kind)


def c_memset(s, i, av):
    c_llvm_memset_p0_i64(s, i, av)
    return av[0]


def c_fprintf(s, i, av):
    if getattr(s, "output", None):
        s.output(s, i, av)
    return s.fresh_int("printed", "i32")


def c_printf(s, i, av):
    return s.fresh_int("printed", "i32")


def c_fflush(s, i, av):
    return s.fresh_int("fl", "i32")


def c_fclose(s, i, av):
    return s.fresh_int("fc", "i32")


def c_llvm_is_fpclass_f64(s, i, av):
    mask = simp(av[1]).as_long()
    x = s.dfacts(av[0])
    if mask == 3:
        return isnan(x)
    if mask == 1020:
        return Not(isnan(x))
    if mask in (504,):
        return isfin(x)
    if mask == 1023 - 504:
        return Not(isfin(x))
    if mask == 516:
        return And(Not(isnan(x)), Not(isfin(x)))
    raise Unsupported("fpclass %d" % mask)


def c_llvm_fabs_f64(s, i, av):
    return s.fun("fabs", av[0])


c_fabs = c_llvm_fabs_f64


def c_sqrt(s, i, av):
    return s.fun("sqrt", av[0])


c_llvm_sqrt_f64 = c_sqrt


def c_acos(s, i, av):
    return s.fun("acos", av[0])


def c_floor(s, i, av):
    return s.fun("floor", av[0])


c_llvm_floor_f64 = c_floor


def c_ceil(s, i, av):
    return s.fun("ceil", av[0])


c_llvm_ceil_f64 = c_ceil


def c_hypot(s, i, av):
    return s.fop("hypot", av[0], av[1])


def c_fmod(s, i, av):
    return s.fop("fmod", av[0], av[1])


def c_pow(s, i, av):
    return s.fop("pow", av[0], av[1])


def c_llvm_fmuladd_f64(s, i, av):
    return s.fop("fadd", s.fop("fmul", av[0], av[1]), av[2])


def c_llvm_abs_i32(s, i, av):
    x = av[0]
    s.oblige("overflow", x > -2 ** 31, "abs")
    return If(x < 0, -x, x)


c_abs = c_llvm_abs_i32


def c_strcmp(s, i, av):
    return s.fresh_int("strcmp", "i32")


c_strcasecmp = c_strcmp
c_strncmp = c_strcmp


def c_strlen(s, i, av):
    n = s.fresh_int("strlen", "i64")
    s.assume(n >= 0)
    return n


def c_srand48(s, i, av):
    return None


def c_drand48(s, i, av):
    v = s.fresh("rnd", F)
    s.assume(z3.And(isfin(v), Not(isnan(v)), num(v) >= 0, num(v) < 1))
    return v


def c_exit(s, i, av):
    return QUIT


def c_abort(s, i, av):
    return QUIT


def c___assert_fail(s, i, av):
    s.oblige("assert", FALSE, "assertion fails")
    return QUIT


def c_llvm_stacksave_p0(s, i, av):
    return NULL


def c_llvm_trap(s, i, av):
    s.oblige("assert", FALSE, "trap")
    return QUIT


def c___errno_location(s, i, av):
    o = "errno"
    if o not in s.st.desc:
        s.st.desc[o] = Desc("struct", None, fresh=True)
    return to(o)


def c_strerror(s, i, av):
    return to(s.opaque(s.st, "strerror"))
