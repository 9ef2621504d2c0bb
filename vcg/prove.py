"""Discharging obligations: slices, Houdini over candidate invariants, z3 with
cvc5 as second back end, forked workers."""
import os, sys, time, json, subprocess, tempfile, select, struct, signal
import z3
from .engine import isnan, F

Z3SET = dict(auto_config=False, mbqi=False)
NPROC = int(os.environ.get("VCG_JOBS", "8"))


def conjuncts(f):
    """The goal as a list of (hypotheses, goal), each to be proved on its own."""
    out = []

    def split(f, h):
        if z3.is_implies(f):
            split(f.arg(1), h + [f.arg(0)])
        elif z3.is_and(f):
            for c in f.children():
                split(c, h)
        else:
            out.append((h, f))
    split(f, [])
    return out


class Abstract:
    """Products of two or more real unknowns replaced by applications of an uninterpreted function: weaker
    facts, but the solver stays within linear arithmetic."""

    def __init__(s):
        s.cache = {}
        s.keep = []
        s.used = set()            # numbers of factors of products

    def commute(s):
        """The order of the factors does not matter (factors of one product may be equal to, but not the same terms as, those of another)."""
        out = []
        for n in sorted(s.used & {2, 3}):
            f = s.mul(n)
            v = [z3.Real("p!%d" % k) for k in range(n)]
            for k in range(n - 1):
                w = v[:k] + [v[k + 1], v[k]] + v[k + 2:]
                out.append(z3.ForAll(v, f(*v) == f(*w), patterns=[f(*v)]))
        if 2 in s.used:
            # rule of signs
            f = s.mul(2)
            a, b = v = [z3.Real("p!0"), z3.Real("p!1")]
            out.append(z3.ForAll(v, z3.And((f(a, b) > 0) == z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)), (f(a, b) == 0) == z3.Or(a == 0, b == 0)), patterns=[f(a, b)]))
        return out

    def mul(s, n):
        return z3.Function("product%d" % n, *([z3.RealSort()] * (n + 1)))

    def __call__(s, f):
        k = f.get_id()
        if k in s.cache:
            return s.cache[k]
        if z3.is_quantifier(f):
            b = s(f.body())
            r = f
            if not b.eq(f.body()):
                vs = [z3.Const("q!%s" % f.var_name(j), f.var_sort(j)) for j in range(f.num_vars())]
                b = z3.substitute_vars(b, *vs[::-1])
                ps = [z3.MultiPattern(*[z3.substitute_vars(s(t), *vs[::-1]) for t in f.pattern(j).children()]) for j in range(f.num_patterns())]
                r = (z3.ForAll if f.is_forall() else z3.Exists)(vs, b, patterns=ps)
        elif z3.is_app(f) and f.num_args():
            ch = [s(c) for c in f.children()]
            if z3.is_mul(f) and f.sort() == z3.RealSort() and sum(not z3.is_rational_value(c) for c in ch) > 1:
                c0 = [c for c in ch if z3.is_rational_value(c)]
                c1 = sorted((c for c in ch if not z3.is_rational_value(c)), key=lambda t: t.get_id())
                r = s.mul(len(c1))(*c1)
                s.used.add(len(c1))
                for c in c0:
                    r = c * r
            elif f.decl().kind() == z3.Z3_OP_POWER:
                r = z3.Function("power", z3.RealSort(), z3.RealSort(), z3.RealSort())(*[z3.ToReal(c) if z3.is_int(c) else c for c in ch]) if f.sort() == z3.RealSort() else f
            elif all(a.eq(b) for a, b in zip(ch, f.children())):
                r = f
            else:
                r = f.decl()(*ch)
        else:
            r = f
        s.cache[k] = r
        s.keep += [f, r]
        return r


def load():
    """Time limits are extended when the machine is busy with other things."""
    try:
        return min(4.0, max(1.0, os.getloadavg()[0] / (os.cpu_count() or 8)))
    except OSError:
        return 1.0


class Deadline(Exception):
    pass


def die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class Prover:
    def __init__(s, eng, name, t1=2.0, t2=20.0, hints=None, log=None, use_cvc5=True, deadline=None):
        s.deadline = deadline
        s.saturated = False
        s.e = eng
        s.name = name
        s.t1, s.t2 = t1, t2
        s.log = log
        s.use_cvc5 = use_cvc5
        s.time = 0.0
        s.hq = {}
        s.dead = set()
        s.by = {}
        s.queries = 0
        s.abstract = Abstract()

    # ------------------------------------------------------------ slices
    def hasq(s, f):
        k = f.get_id()
        if k not in s.hq:
            s.hq[k] = s._hasq(f, set())
        return s.hq[k]

    def _hasq(s, f, seen):
        st = [f]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                return True
            st += x.children()
        return False

    def slice(s, o, qf):
        anc = s.e.anc[o.block]
        out = []
        for f in s.e.glob:
            if not (qf and s.hasq(f)):
                out.append(f)
        for b, f, kind in s.e.asm[:o.pos]:
            if b in anc and not (qf and s.hasq(f)):
                out.append(f)
        return out

    def check(s, o, qf, timeout, guards, opts=None, linear=False):
        """True if discharged; returns (ok, used guards, time, why)."""
        t0 = time.time()
        linear = linear and not getattr(s.e, "z3opts", None) or opts is None and not getattr(s.e, "z3opts", None)
        opts = opts or getattr(s.e, "z3opts", None)
        ab = s.abstract if linear and s.e.arith == "real" else lambda f: f
        facts = [ab(f) for f in s.slice(o, qf)] + [o.reach]
        goal = o.goal
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [z3.Const("sk!%s" % goal.var_name(k), goal.var_sort(k)) for k in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *vs[::-1])
            for hook in getattr(s.e, "skolem_hints", []):
                facts += [ab(f) for f in hook(vs)]
        goal = ab(goal)
        if ab is s.abstract:
            facts += ab.commute()

        def ask(hyps, goal):
            so = z3.Solver()
            so.set("auto_config", False)
            so.set("mbqi", False)
            so.set("timeout", int(timeout * load() * 1000))
            for k, v in (opts or {"smt.arith.nl": False}).items():
                so.set(k, v)
            so.add(*facts)
            so.add(*hyps)
            so.add(z3.Not(goal))
            r = so.check(*guards)
            if r == z3.unsat:
                return True, {str(x) for x in so.unsat_core()}, ""
            return False, set(), "sat" if r == z3.sat else so.reason_unknown()

        ok, used, why = ask([], goal)
        parts = conjuncts(goal)
        if not ok and why != "sat" and len(parts) > 1:
            used = set()
            for h, part in parts:
                ok, u, why = ask(h, part)
                used |= u
                if not ok:
                    break
        return ok, sorted(used) if ok else [], time.time() - t0, why

    def cvc5(s, o, timeout, guards):
        so = z3.Solver()
        for f in s.slice(o, False):
            so.add(f)
        so.add(o.reach)
        for g in guards:
            so.add(g)
        so.add(z3.Not(o.goal))
        txt = "(set-logic ALL)\n" + so.to_smt2()
        t0 = time.time()
        try:
            r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % int(timeout * 1000), "-"], input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout + 5, preexec_fn=die_with_parent)
            ok = r.stdout.strip().startswith("unsat")
        except Exception:
            ok = False
        return ok, time.time() - t0

    def solve(s, idx, live, effort):
        o = s.e.obl[idx]
        anc = s.e.anc[o.block]
        guards = [c.guard for c in s.e.cands if c.id in live and c.loop.header in anc]
        tot = 0
        qsteps = [True, False]
        why = ""
        if o.cand is not None and not o.cand.numeric:
            qsteps = [False]
        if z3.is_quantifier(o.goal):
            qsteps = [False]
        if effort >= 1 and o.cand is None:
            # luck of the search: short runs with other seeds before the long ones
            for opts in ({"smt.random_seed": 7}, {"smt.random_seed": 11}, {"smt.random_seed": 13, "smt.arith.solver": 2}):
                ok, used, t, why = s.check(o, False, 2 * s.t1, guards, dict(getattr(s.e, "z3opts", None) or {"smt.arith.nl": False}, **opts), True)
                tot += t
                if ok:
                    return True, used, tot, "z3", why
        for qf in qsteps:
            ng = [c.guard for c in s.e.cands if c.id in live and c.loop.header in anc and (not qf or c.numeric or not getattr(c, "quant", True))]
            tl = s.t1 if effort == 0 else s.t2
            if qf:
                tl = min(tl, s.t1)
            ok, used, t, why = s.check(o, qf, tl, ng)
            tot += t
            if ok:
                return True, used, tot, "z3", why
            if qf and o.cand is not None and o.cand.numeric and not s.e.__dict__.get("numq", False):
                return False, [], tot, "z3", why
        for opts in getattr(s.e, "z3alts", ()):
            ok, used, t, why = s.check(o, False, tl, guards, opts)
            tot += t
            if ok:
                return True, used, tot, "z3", why
        if effort >= 1 and o.cand is None and s.e.arith == "real":
            for opts in ({"smt.arith.solver": 2, "smt.random_seed": 3}, {"smt.arith.nl": True}, {"smt.arith.nl": True, "smt.random_seed": 5}):
                ok, used, t, why = s.check(o, False, s.t2, guards, opts)
                tot += t
                if ok:
                    return True, used, tot, "z3", why
        if effort >= 1 and s.use_cvc5 and o.cand is None:
            ok, t = s.cvc5(o, s.t2, guards)
            tot += t
            if ok:
                return True, [str(g) for g in guards], tot, "cvc5", why
        return False, [], tot, "z3", why

    # ------------------------------------------------------------ workers
    def pool(s, jobs, live, effort, maxfail=None):
        """jobs: obligation indices -> dict idx -> (ok, used, time, by, why)."""
        res = {}
        if not jobs:
            return res
        if s.deadline and time.time() > s.deadline:
            raise Deadline()
        n = min(NPROC, len(jobs))
        procs = []
        for w in range(n):
            r1, w1 = os.pipe()   # parent -> child
            r2, w2 = os.pipe()   # child -> parent
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1)
                    os.close(r2)
                    fi, fo = os.fdopen(r1, "r"), os.fdopen(w2, "w")
                    for l in fi:
                        k = int(l)
                        try:
                            a = s.solve(k, live, effort)
                        except Exception as ex:
                            a = (False, [], 0, "z3", "error: %s" % ex)
                        fo.write(json.dumps([k, a]) + "\n")
                        fo.flush()
                finally:
                    os._exit(0)
            os.close(r1)
            os.close(w2)
            for q in procs:
                pass
            procs.append((pid, os.fdopen(w1, "w"), os.fdopen(r2, "r")))
        todo = list(jobs)[::-1]
        busy = {}
        for k, (pid, wi, ro) in enumerate(procs):
            if todo:
                wi.write("%d\n" % todo.pop())
                wi.flush()
                busy[ro.fileno()] = k
        nfail = 0
        stop = None
        while busy:
            left = None if not s.deadline else s.deadline + 5 - time.time()
            if left is not None and left <= 0:
                stop = "deadline"
            elif maxfail is not None and nfail >= maxfail:
                stop = "enough"
            if stop:
                break
            rd, _, _ = select.select(list(busy), [], [], left)
            for fd in rd:
                k = busy[fd]
                pid, wi, ro = procs[k]
                l = ro.readline()
                if not l:
                    del busy[fd]
                    continue
                idx, a = json.loads(l)
                res[idx] = a
                nfail += not a[0]
                s.time += a[2]
                s.queries += 1
                if todo:
                    wi.write("%d\n" % todo.pop())
                    wi.flush()
                else:
                    del busy[fd]
                    wi.close()
        for pid, wi, ro in procs:
            if stop:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            try:
                wi.close()
            except Exception:
                pass
            ro.close()
            os.waitpid(pid, 0)
        if stop == "deadline" and not nfail:
            raise Deadline()
        for j in jobs:
            res.setdefault(j, (False, [], 0, "z3", "not attempted further" if stop else "worker died"))
        return res

    # ------------------------------------------------------------ driver
    def run(s, only=None, quick=False):
        """Houdini, then hard obligations.  Returns list of failed hard obligations."""
        e = s.e
        live = {c.id for c in e.cands if not c.dead and (only is None or c.label in only)}
        s.saturated = only is None
        # a candidate that is not applicable somewhere (None) is dropped
        obi = {}
        for k, o in enumerate(e.obl):
            if o.cand is not None:
                obi.setdefault(o.cand.id, []).append(k)
        proved = {}           # idx -> used guards
        rounds = 0
        order = {c.id: c for c in e.cands}
        # numeric candidates first: they need no quantified facts
        # what does not hold on entry to its loop need not be tried over the back edges
        for stage in ("numeric", "entry", "all"):
            while True:
                rounds += 1
                jobs = []
                gset = {"inv!%s" % i for i in live}
                for i in sorted(live, key=str):
                    if stage == "numeric" and not order[i].numeric:
                        continue
                    for k in obi.get(i, []):
                        if k in proved and proved[k] <= gset:
                            continue
                        if stage == "entry" and not e.obl[k].label.endswith(":entry"):
                            continue
                        jobs.append(k)
                if not jobs:
                    break
                jobs.sort()
                r = s.pool(jobs, live, 0)
                bad = set()
                if os.environ.get("VCG_SLOW"):
                    for k, (ok, used, t, by, why) in r.items():
                        if t > 0.5:
                            print("slow %.2f %s %s %s" % (t, ok, e.obl[k].label, why))
                for k, (ok, used, t, by, why) in r.items():
                    if ok:
                        proved[k] = set(used)
                        s.by[k] = (by, t)
                    else:
                        bad.add(e.obl[k].cand.id)
                        e.obl[k].status = why
                if s.log:
                    s.log("  [%s] houdini %s round %d: %d queries, dropped %d, live %d" % (s.name, stage, rounds, len(jobs), len(bad), len(live) - len(bad)))
                if not bad:
                    break
                live -= bad
        s.live = live
        s.proved = proved
        hard = [k for k, o in enumerate(e.obl) if o.cand is None]
        r = s.pool(hard, live, 0)
        fail = [k for k in hard if not r[k][0]]
        s.used = {}
        for k in hard:
            if r[k][0]:
                s.by[k] = (r[k][3], r[k][2])
                s.used[k] = r[k][1]
        if fail:
            if s.log:
                s.log("  [%s] %d of %d obligations need more effort" % (s.name, len(fail), len(hard)))
            r2 = s.pool(fail, live, 1, maxfail=8)
            for k in fail:
                if r2[k][0]:
                    s.used[k] = r2[k][1]
                    s.by[k] = (r2[k][3], r2[k][2])
                e.obl[k].detail = r2[k][4]
            fail = [k for k in fail if not r2[k][0]]
        s.hard = hard
        s.fail = fail
        s.nhard = len(hard)
        # discharged invariants count as obligations too
        s.ninv = sum(len(obi.get(i, [])) for i in live)
        s.nobl = s.nhard + s.ninv + e.trivial
        s.ndis = s.nobl - len(fail)
        return fail

    def needed(s):
        """Labels of the candidates the final proof rests on."""
        lab = {"inv!%s" % c.id: c for c in s.e.cands}
        obi = {}
        for k, o in enumerate(s.e.obl):
            if o.cand is not None:
                obi.setdefault(o.cand.id, []).append(k)
        todo = [g for u in s.used.values() for g in u]
        seen = set()
        while todo:
            g = todo.pop()
            if g in seen or g not in lab:
                continue
            seen.add(g)
            for k in obi.get(lab[g].id, []):
                todo += list(s.proved.get(k, ()))
        return {lab[g].label for g in seen}

    def backends(s):
        out = {"syntactic": s.e.trivial}
        for k, (by, t) in s.by.items():
            o = s.e.obl[k]
            if o.cand is None or o.cand.id in s.live:
                out[by] = out.get(by, 0) + 1
        return out

    def modeltext(s, k):
        try:
            m = s.model(k)
        except Exception as ex:
            return str(ex)
        if m is None:
            return "(none: the obligation is refuted only with quantified facts, or the solver gave up)"
        t = "\n".join("  %s = %s" % (d, m[d]) for d in sorted(m.decls(), key=str) if d.arity() == 0 and not str(d).startswith(("R.", "c.", "inv!")))
        return t[:3000]

    def vacuous(s):
        """Exits whose path condition is refutable together with the assumptions."""
        e = s.e
        bad = []
        alive = getattr(e, "expect_no_exit", False)
        for reach, pos, b in e.exitreach:
            so = z3.Solver()
            so.set("auto_config", False)
            so.set("mbqi", False)
            so.set("timeout", 3000)
            anc = e.anc[b]
            for f in e.glob:
                so.add(f)
            for bb, f, kind in e.asm[:pos]:
                if bb in anc:
                    so.add(f)
            so.add(reach)
            gs = [c.guard for c in e.cands if c.id in s.live and c.loop.header in anc]
            if so.check(*gs) != z3.unsat:
                alive = True
        return not alive

    def describe(s, k):
        o = s.e.obl[k]
        fn, fl = o.where if o.where else ("", "")
        return "%s: obligation %s '%s' in %s (%s:%s) not discharged (%s)" % (s.name, o.kind, o.label, fn or s.e.fname, fl, o.line, o.detail or o.status or "unknown")

    def model(s, k, timeout=5):
        """A (partial) counterexample with quantified facts left out."""
        o = s.e.obl[k]
        so = z3.Solver()
        so.set("timeout", int(timeout * load() * 1000))
        for f in s.slice(o, True):
            so.add(f)
        anc = s.e.anc[o.block]
        for c in s.e.cands:
            if c.id in s.live and c.loop.header in anc and c.numeric:
                so.add(c.guard)
        so.add(o.reach)
        so.add(z3.Not(o.goal))
        if so.check() == z3.sat:
            return so.model()
        return None
