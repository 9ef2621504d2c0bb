#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property>: regenerate all obligations of the property from /repo's
current sources, discharge them, write the evidence file."""
import os, sys, json, time, tempfile, shutil, subprocess, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vcg import ir, prove
from vcg.engine import Unsupported
from vcg import harness

T0 = time.time()
PROOF_BUDGET = float(os.environ.get("VCG_BUDGET", "520"))


def log(*a):
    print(*a, flush=True)


_mods = {}


def module(work, keep, main):
    k = (frozenset(keep), main)
    if k not in _mods:
        _mods[k] = ir.build_module(work, keep, main)
    return _mods[k]


def hintfile(name):
    return os.path.join(HERE, "hints", name + ".json")


def isolated(t, work, verbose, probe=None):
    """run_task in a process of its own: the solver sees the same terms whatever ran before."""
    try:
        module(work, t.keep, t.main)
    except Exception:
        pass            # run_task reports it
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            prove.die_with_parent()
            os.close(rd)
            r = run_task(t, work, verbose, probe)
            with os.fdopen(wr, "w") as f:
                json.dump(r, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        txt = f.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(txt)
    except ValueError:
        return dict(task=t.name, functions=sorted(t.keep), status="undecided", obligations=0, discharged=0, solver_s=0.0, failed=[], why="the verifier ended early (memory?)", by={})


def run_task(t, work, verbose, probe=None):
    """-> dict(status = proved|failed|undecided, ...)"""
    r = dict(task=t.name, functions=sorted(t.keep), status="undecided", obligations=0, discharged=0, solver_s=0.0, failed=[], why="", by={})
    t0 = time.time()
    try:
        m = module(work, t.keep, t.main)
        e = t.build(m, "")
    except ir.ExtractError as ex:
        r["why"] = "extraction: %s" % str(ex)[:500]
        return r
    except Unsupported as ex:
        r["why"] = "outside the verifier's reach: %s" % ex
        if verbose:
            traceback.print_exc()
        return r
    except Exception as ex:
        r["why"] = "verification condition generator: %s: %s" % (type(ex).__name__, ex)
        if verbose:
            traceback.print_exc()
        return r
    hints = None
    if os.path.exists(hintfile(t.name)) and not os.environ.get("VCG_NOHINTS"):
        hints = set(json.load(open(hintfile(t.name))))
    attempts = ([hints] if hints is not None else []) + [None]
    for h in attempts:
        p = prove.Prover(e, t.name, t1=t.t1, t2=t.t2, log=log if verbose else None, deadline=T0 + PROOF_BUDGET)
        try:
            fail = p.run(only=h, quick=h is not None)
        except prove.Deadline:
            r["why"] = "time budget of the proof exhausted"
            r["solver_s"] += p.time
            return r
        r["solver_s"] += p.time
        if not fail or p.saturated:
            break
        if probe and len(attempts) > 1:
            # the invariants needed last time do not do: is there a failing input?  If not, search for others.
            hres = probe()
            r["probed"] = True
            if hres and hres["status"] == "fail":
                r["probe"] = hres
                break
            probe = None
    r["obligations"], r["discharged"] = p.nobl, p.ndis
    r["by"] = p.backends()
    r["invariants"] = p.ninv
    if fail:
        r["status"] = "failed"
        r["failed"] = [p.describe(k) for k in fail]
        r["models"] = [p.modeltext(k) for k in fail[:3]]
    elif p.vacuous():
        r["status"] = "failed"
        r["failed"] = ["%s: the assumptions are contradictory (vacuous proof)" % t.name]
    else:
        r["status"] = "proved"
        if os.environ.get("VCG_WRITEHINTS"):
            os.makedirs(os.path.join(HERE, "hints"), exist_ok=True)
            json.dump(sorted(p.needed()), open(hintfile(t.name), "w"), indent=0)
    r["wall_s"] = round(time.time() - t0, 2)
    return r


def known(pid):
    """Known findings: lines "finding: property=<id> key=<key> <what fails>"."""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l[len("finding: property=%s " % pid):]
                key = rest.split()[0].split("=", 1)[1]
                out.append((key, rest.split(" ", 1)[1]))
    return out


def main():
    from specs.registry import PROPS
    pid = sys.argv[1]
    verbose = "-v" in sys.argv or os.environ.get("VCG_VERBOSE")
    P = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix="gu_%s_" % pid)
    rc = 1
    try:
        rc = decide(P, pid, tier, seed, work, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(P, pid, tier, seed, work, verbose):
    res = []

    def probe():
        return harness.run(P.harness, pid, seed, 20, work, os.path.join(HERE, "replays"), [k for k, _ in known(pid)])
    hres = None
    for t in P.tasks:
        r = isolated(t, work, verbose, probe if P.harness and tier == "quick" and not any(x.get("probed") for x in res) else None)
        log("%s: task %-24s %-9s %d/%d obligations, solver %.1f s %s" % (pid, t.name, r["status"], r["discharged"], r["obligations"], r["solver_s"], r["why"]))
        res.append(r)
        hres = r.pop("probe", None)
        if hres:
            break
    failed = [r for r in res if r["status"] == "failed"]
    undecided = [r for r in res if r["status"] == "undecided"]
    for k, what in known(pid):
        log("KNOWN-FINDING: property=%s %s" % (pid, what))
    if hres:
        log("%s: executable contract (%s): %s" % (pid, P.harness, hres["summary"]))
    elif P.harness and (failed or undecided or P.always_bounded or tier == "thorough" or not P.tasks):
        budget = 20 if (failed or undecided) else (60 if tier == "thorough" else 6)
        if (failed or undecided) and tier == "thorough":
            budget = 120
        hres = harness.run(P.harness, pid, seed + (1 if any(x.get("probed") for x in res) else 0), budget, work, os.path.join(HERE, "replays"), [k for k, _ in known(pid)])
        log("%s: executable contract (%s): %s" % (pid, P.harness, hres["summary"]))
    rep = None
    viol = 0
    if hres and hres["status"] == "fail":
        rep = hres["replay"]
        with open(rep, "a") as f:
            if failed or undecided:
                f.write("\nobligations not discharged:\n" + "\n".join(x for r in failed for x in r["failed"]) + "\n")
                f.write("\n".join("%s: %s" % (r["task"], r["why"]) for r in undecided) + "\n")
        viol = 1
        line = "VIOLATION property=%s replay=%s" % (pid, rep)
    elif failed:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rep = os.path.join(HERE, "replays", "%s.txt" % pid)
        with open(rep, "w") as f:
            f.write("property %s: obligations the verifier does not discharge on the current tree\n" % pid)
            for r in failed:
                for x in r["failed"]:
                    f.write(x + "\n")
                for mtxt in r.get("models", []):
                    f.write("partial counterexample (quantified facts left out):\n%s\n" % mtxt)
            f.write("\nexecutable contract on the real code: %s\n" % (hres["summary"] if hres else "not run"))
        viol = 1
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rep)
    evidence(P, pid, tier, seed, res, hres, undecided, viol)
    if viol:
        for r in failed:
            for x in r["failed"][:10]:
                log("  " + x)
        log(line)
        return 1
    if hres and hres["status"] == "error":
        log("%s: the executable contract could not be built or run: %s" % (pid, hres["summary"]))
        if undecided or not P.tasks:
            return 2
    return 0


def evidence(P, pid, tier, seed, res, hres, undecided, viol):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    by = {}
    for r in res:
        for k, n in r["by"].items():
            by[k] = by.get(k, 0) + n
    cov = dict(
        obligations=sum(r["obligations"] for r in res), discharged=sum(r["discharged"] for r in res),
        checker_cmd="VERIF_TIER=%s VERIF_SEED=%d ./check.py %s" % (tier, seed, pid),
        trusted_base=["clang 18 front end, llvm-link and opt passes always-inline, sroa, mem2reg (extraction)", "vcg: IR parser and verification-condition generator of /verif/vcg",
                      "z3 5.3.2 (python API)", "cvc5 1.1.2 (second back end)", "contracts of C library functions in vcg/libc.py; allocation never fails"],
        functions_under_contract=P.functions, discharged_by=by, solver_s=round(sum(r["solver_s"] for r in res), 1),
        tasks=[dict(task=r["task"], status=r["status"], obligations=r["obligations"], discharged=r["discharged"], loop_invariant_obligations=r.get("invariants", 0),
                    solver_s=round(r["solver_s"], 2), why=r["why"], failed=r["failed"][:20]) for r in res],
        bounded_standin=dict(used=hres is not None, what=P.always_bounded or ("all of the property (a task is undecided)" if undecided else "cross-check only"),
                             evaluations=hres["cases"], distinct_nontrivial=hres["distinct"], summary=hres["summary"], bound=hres["bound"]) if hres else dict(used=False))
    level = "proof"
    if not P.tasks or undecided:
        level = "other"
        cov["explanation"] = "bounded stand-in for the functions outside the verifier's reach in this run: %s" % "; ".join("%s: %s" % (r["task"], r["why"]) for r in undecided)
    elif P.always_bounded:
        cov["explanation"] = "proof of the listed tasks; bounded stand-in (labelled, never counted as proved) for: %s" % P.always_bounded
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=P.assumptions, wall_s=round(time.time() - T0, 2), violations=viol)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
