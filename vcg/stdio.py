"""Text input and output as seen by the verifier (contracts of the C library's streams; trusted).

Input: one text, a sequence of NL lines; line k has LEN(k) characters CH(k, 0..) other than NUL and newline,
and each but perhaps the last ends in a newline.  `POS` counts the lines consumed.
Output: a sequence of tokens: characters, converted values, copied lines; `NOUT` counts them."""
import re
import z3
from .engine import (I, B, F, A1, Ptr, PV, Desc, T, FALSE, NULL, to, And, Or, Not, Implies, If, ival, isconst, simp, is_true, Unsupported)

AI, AD = A1["i"], A1["double"]
NL = z3.Int("lines")
LEN = z3.Function("line_length", I, I)
CH = z3.Function("line_char", I, I, I)
ENDNL = z3.Bool("last line ends in a newline")
LINEOF = z3.Function("line_held", AI, I)          # line a buffer holds just as it was read
CONV = {}


def newline(k):
    """line k ends in a newline"""
    return z3.Or(k < NL - 1, ENDNL)


def textfacts(e):
    k, j = z3.Ints("k!t j!t")
    return z3.And(NL >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < NL), z3.And(LEN(k) >= 0, LEN(k) <= 2 ** 30, z3.Or(LEN(k) > 0, newline(k)))), patterns=[LEN(k)]),
                  z3.ForAll([k, j], z3.And(CH(k, j) >= -128, CH(k, j) <= 127, z3.Implies(z3.And(j >= 0, j < LEN(k)), z3.And(CH(k, j) != 0, CH(k, j) != 10))), patterns=[CH(k, j)]))


def begin(e, st):
    st.ghost["POS"], st.ghost["NOUT"] = ival(0), ival(0)
    st.ghost["OUTK"] = z3.K(I, ival(-1))
    st.ghost["OUTI"], st.ghost["OUTD"] = z3.Const("OUTI", AI), z3.Const("OUTD", AD)
    e.assume(textfacts(e))
    e.opened = {}
    e.externals.update(HANDLERS)


# ------------------------------------------------------------ streams
def fopen(e, i, av):
    """gu_fopen: ends the program or returns an open stream (its body: fopen, refusal when it fails)."""
    mode = text(e, av[1])
    if mode is None or mode[:1] not in ("r", "w"):
        raise Unsupported("mode of opening a file")
    o = e.opaque(e.st, "file:%s:%s" % (mode[:1], i.res))
    e.opened[o] = av[0]
    if mode[:1] in e.opened:
        raise Unsupported("two files opened the same way")
    e.opened[mode[:1]] = o
    return to(o)


def kinds(p):
    out = set()
    for g, t in p.alts:
        if t is None:
            out.add("null")
        elif "stderr" in t.obj:
            out.add("stderr")
        elif "stdout" in t.obj or "file:w" in t.obj:
            out.add("out")
        elif "stdin" in t.obj or "file:r" in t.obj:
            out.add("in")
        else:
            out.add("?")
    return out


def stream(e, p, want):
    ks = kinds(p)
    if ks == {want}:
        return True
    if want == "out" and ks == {"stderr"}:
        return False
    raise Unsupported("stream %s" % ", ".join(sorted(ks)))


def text(e, p):
    """A constant string."""
    if len(p.alts) != 1 or p.alts[0][1] is None:
        return None
    t = p.alts[0][1]
    if not t.obj.startswith("glob:") or t.path or not is_true(simp(t.col == 0)):
        return None
    return e.m.cstring(t.obj[5:])


def buffer(e, p):
    """The characters of a buffer and where a pointer is in it."""
    if len(p.alts) != 1 or p.alts[0][1] is None:
        return None
    t = p.alts[0][1]
    d = e.st.desc[t.obj]
    if d.kind != "arr" or d.elem != "i8":
        return None
    return t, d, e.getmem(e.st, t.obj, "@i", "i8")


# ------------------------------------------------------------ reading
def fgets(e, i, av):
    """Reads the next line; lines are shorter than the buffer (assumed)."""
    b = buffer(e, av[0])
    stream(e, av[2], "in")
    if b is None:
        raise Unsupported("fgets into %r" % av[0])
    t, d, old = b
    st = e.st
    n = av[1]
    e.oblige("bounds", And(n >= 2, t.col >= 0, t.col + n <= d.n), "fgets: size of the buffer")
    pos = st.ghost["POS"]
    ok = pos < NL
    j = z3.Int("j!b")
    new = e.fresh("buf", AI)
    R = e.reach[e.cur]
    e.assume(Implies(ok, LEN(pos) + 2 <= n), R)
    full = LEN(pos) + If(newline(pos), ival(1), ival(0))
    e.assume(Implies(ok, And(new[t.col + full] == 0,
                             z3.ForAll([j], z3.Implies(z3.And(j >= t.col, j < t.col + full), z3.And(new[j] == z3.If(j < t.col + LEN(pos), CH(pos, j - t.col), 10), new[j] != 0)), patterns=[new[j]]),
                             z3.ForAll([j], z3.And(new[j] >= -128, new[j] <= 127), patterns=[new[j]]))), R)
    if is_true(simp(t.col == 0)):
        e.assume(Implies(ok, LINEOF(new) == pos), R)
    e.assume(Implies(ok, And(LEN(pos) >= 0, Or(LEN(pos) > 0, newline(pos)))), R)
    e.assume(Implies(Not(ok), new == old), R)
    st.mem[(t.obj, "@i")] = new
    st.ghost["POS"] = If(ok, pos + 1, pos)
    return Ptr([(ok, t), (Not(ok), None)])


def conversions(fmt):
    """Literal text and conversions of a format."""
    out = []
    k = 0
    while k < len(fmt):
        if fmt[k] == "%":
            m = re.match(r"%([-+ #0]*)(\d*|\*)(\.\d+)?(hh|h|ll|l|z|L)?([a-zA-Z%])", fmt[k:])
            if not m or m.group(2) == "*":
                raise Unsupported("format %r" % fmt)
            if m.group(5) == "%":
                out.append("%")
            else:
                out.append((m.group(1), m.group(2), m.group(3) or "", m.group(4) or "", m.group(5)))
            k += m.end()
        else:
            out.append(fmt[k])
            k += 1
    return out


def scanned(fmt):
    """Functions of the line: number of values read, and the values."""
    parts = conversions(re.sub(r"\s+", " ", fmt))
    key = "".join(p if isinstance(p, str) else "%%%s%s" % (p[1], "lf" if p[4] in "fgeE" else p[4]) for p in parts)
    cv = [p for p in parts if not isinstance(p, str)]
    n = z3.Function("scan[%s]" % key, I, I)
    vs = []
    for m, p in enumerate(cv):
        if p[4] in "fge" and p[3] == "l":
            vs.append((z3.Function("scan[%s].%d" % (key, m), I, F), "double"))
        elif p[4] == "d" and p[3] == "":
            vs.append((z3.Function("scan[%s].%d" % (key, m), I, I), "i32"))
        else:
            raise Unsupported("scanning %r" % fmt)
    return n, vs


def scanfacts(e, fmt, k):
    n, vs = scanned(fmt)
    e.assume(z3.And(n(k) >= -1, n(k) <= len(vs)), e.reach[e.cur])
    for f, ty in vs:
        if ty == "double":
            e.dfacts(f(k))
        else:
            e.assume(z3.And(f(k) >= -2 ** 31, f(k) < 2 ** 31), e.reach[e.cur])
    return n, vs


def sscanf(e, i, av):
    b = buffer(e, av[0])
    fmt = text(e, av[1])
    if b is None or fmt is None or not is_true(simp(b[0].col == 0)):
        raise Unsupported("sscanf")
    k = LINEOF(b[2])
    n, vs = scanfacts(e, fmt, k)
    r = e.fresh_int("scanned", "i32")
    e.assume(r == n(k), e.reach[e.cur])
    for m, (f, ty) in enumerate(vs):
        p = av[2 + m]
        e.store(e.st, p, e.merge_vals([(n(k) > m, f(k)), (Not(n(k) > m), peek(e, p, ty))], ty), ty)
    return r


def peek(e, p, ty):
    """What a cell holds, or anything if it was never set."""
    return e.load(e.st, p, ty)


def strlen(e, i, av):
    s = text(e, av[0])
    if s is not None:
        return ival(len(s))
    b = buffer(e, av[0])
    if b is None:
        n = e.fresh_int("strlen", "i64")
        e.assume(n >= 0)
        return n
    t, d, A = b
    n = e.fresh_int("strlen", "i64")
    j = z3.Int("j!s")
    R = e.reach[e.cur]
    # a string ends within its buffer: shown, so that reading stays inside
    e.oblige("bounds", z3.Not(z3.ForAll([j], z3.Implies(z3.And(j >= t.col, j < d.n), A[j] != 0), patterns=[A[j]])), "string ends within its buffer")
    e.assume(And(n >= 0, A[t.col + n] == 0, z3.ForAll([j], z3.Implies(z3.And(j >= t.col, j < t.col + n), A[j] != 0), patterns=[A[j]])), R)
    return n


def strcmp(e, i, av, n=None):
    for a, b in ((av[0], av[1]), (av[1], av[0])):
        s, bf = text(e, b), buffer(e, a)
        if s is not None and bf is not None:
            t, d, A = bf
            chars = [ord(c) for c in s] + [0]
            if n is not None:
                chars = chars[:n]
            r = e.fresh_int("strcmp", "i32")
            e.assume((r == 0) == z3.And(*[A[t.col + k] == c for k, c in enumerate(chars)]), e.reach[e.cur])
            return r
    return e.fresh_int("strcmp", "i32")


def strncmp(e, i, av):
    k = simp(av[2])
    if not isconst(k):
        return e.fresh_int("strcmp", "i32")
    return strcmp(e, i, av[:2], k.as_long())


def strchr(e, i, av):
    raise Unsupported("strchr")


# ------------------------------------------------------------ writing
def code(conv):
    """Number of a conversion (flags, width, precision, kind)."""
    fl, w, pr, ln, c = conv
    return CONV.setdefault((fl, w, pr, c), 1000 + len(CONV))


LINE = 999          # a line of the input as it was read
STRING = 998        # a string given by the caller


def push(e, st, toks):
    n = st.ghost["NOUT"]
    K, Iv, D = st.ghost["OUTK"], st.ghost["OUTI"], st.ghost["OUTD"]
    for k, (kind, val) in enumerate(toks):
        K = z3.Store(K, n + k, ival(kind))
        if val is not None:
            if val.sort() == F:
                D = z3.Store(D, n + k, val)
            else:
                Iv = z3.Store(Iv, n + k, val)
    st.ghost["NOUT"] = simp(n + len(toks))
    st.ghost["OUTK"], st.ghost["OUTI"], st.ghost["OUTD"] = K, Iv, D


def tokens(e, fmt, args):
    out = []
    args = list(args)
    for p in conversions(fmt):
        if isinstance(p, str):
            out.append((ord(p), None))
            continue
        if not args:
            raise Unsupported("too few values to print")
        a = args.pop(0)
        if p[4] == "s":
            out += string(e, a)
        elif p[4] in "dui" and not isinstance(a, Ptr) and a.sort() == I:
            out.append((code(p), a))
        elif p[4] in "fgeGE" and not isinstance(a, Ptr) and a.sort() == F:
            out.append((code(p), a))
        elif p[4] == "c" and not isinstance(a, Ptr) and isconst(simp(a)):
            out.append((simp(a).as_long(), None))
        else:
            raise Unsupported("printing %r" % fmt)
    return out


def string(e, a):
    s = text(e, a)
    if s is not None:
        return [(ord(c), None) for c in s]
    b = buffer(e, a)
    if b is not None:
        if not is_true(simp(b[0].col == 0)):
            raise Unsupported("printing part of a line")
        return [(LINE, LINEOF(b[2]))]
    if len(a.alts) == 1 and a.alts[0][1] is not None and e.st.desc[a.alts[0][1].obj].kind == "opaque":
        o = a.alts[0][1].obj
        ids = e.__dict__.setdefault("strings", {})
        return [(STRING, ival(ids.setdefault(o, len(ids))))]
    raise Unsupported("printing a string")


def out(e, f, toks):
    if f is None or stream(e, f, "out"):
        push(e, e.st, toks())


def fprintf(e, i, av):
    fmt = text(e, av[1])
    if kinds(av[0]) != {"stderr"}:
        if fmt is None:
            raise Unsupported("format of output")
        out(e, av[0], lambda: tokens(e, fmt, av[2:]))
    return e.fresh_int("printed", "i32")


def printf(e, i, av):
    fmt = text(e, av[0])
    if fmt is None:
        raise Unsupported("format of output")
    out(e, None, lambda: tokens(e, fmt, av[1:]))
    return e.fresh_int("printed", "i32")


def fputs(e, i, av):
    out(e, av[1], lambda: string(e, av[0]))
    return e.fresh_int("printed", "i32")


def puts(e, i, av):
    out(e, None, lambda: string(e, av[0]) + [(10, None)])
    return e.fresh_int("printed", "i32")


def fputc(e, i, av):
    c = simp(av[0])
    if not isconst(c):
        raise Unsupported("character printed")
    out(e, av[1], lambda: [(c.as_long(), None)])
    return c


def putchar(e, i, av):
    c = simp(av[0])
    if not isconst(c):
        raise Unsupported("character printed")
    out(e, None, lambda: [(c.as_long(), None)])
    return c


def feof(e, i, av):
    raise Unsupported("feof")


def strdup(e, i, av):
    n = e.fresh_int("strlen", "i64")
    e.assume(n >= 1)
    o = e.mkobj(e.st, "str" + i.res, Desc("arr", "i8", n=n, fresh=True))
    e.st.alive[o] = T
    return to(o)


HANDLERS = {"strdup": strdup, "gu_fopen": fopen, "fgets": fgets, "sscanf": sscanf, "__isoc99_sscanf": sscanf, "__isoc23_sscanf": sscanf, "strlen": strlen, "strcmp": strcmp, "strncmp": strncmp,
            "fprintf": fprintf, "printf": printf, "fputs": fputs, "puts": puts, "fputc": fputc, "putc": fputc, "putchar": putchar}
