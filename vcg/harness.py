"""Builds and runs an executable contract (replay/<name>.c) against the real code."""
import os, re, subprocess, shutil
from . import ir

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CF = ["-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-std=gnu11", "-ffp-contract=off"]


def build(name, work):
    objs = []
    procs = []
    for u in ir.lib_units():
        o = os.path.join(work, "h_%s.o" % u)
        if not os.path.exists(o):
            procs.append(subprocess.Popen(["gcc"] + CF + ["-I" + ir.SRC, "-c", "-o", o, os.path.join(ir.SRC, u + ".c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        objs.append(o)
    err = ""
    for p in procs:
        out = p.communicate()[0]
        if p.returncode:
            err += out.decode()[-1500:]
    if err:
        return None, err
    exe = os.path.join(work, name)
    r = subprocess.run(["gcc"] + CF + ["-I" + ir.SRC, "-I" + os.path.join(HERE, "replay"), "-o", exe, os.path.join(HERE, "replay", name + ".c")] + objs + ["-lm"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout[-2000:]
    return exe, ""


def programs(work):
    """The command-line programs, built from the current sources with sanitizers."""
    pdir = os.path.join(work, "bin")
    os.makedirs(pdir, exist_ok=True)
    procs = []
    libs = [os.path.join(work, "h_%s.o" % u) for u in ir.lib_units()]
    for u in ir.libsources():
        if ir.has_main(u):
            procs.append(subprocess.Popen(["gcc"] + CF + ["-I" + ir.SRC, "-o", os.path.join(pdir, u), os.path.join(ir.SRC, u + ".c")] + libs + ["-lm"],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    err = ""
    for p in procs:
        out = p.communicate()[0]
        if p.returncode:
            err += out.decode()[-800:]
    return pdir, err


def run(name, pid, seed, budget, work, outdir, knownkeys=()):
    res = dict(status="error", summary="", cases=0, distinct=0, replay=None, bound="%.0f s of cases, seed %d" % (budget, seed))
    exe, err = build(name, work)
    if exe is None:
        res["summary"] = "build failed: " + err
        return res
    os.makedirs(outdir, exist_ok=True)
    rep = os.path.join(outdir, "%s.txt" % pid)
    if os.path.exists(rep):
        os.unlink(rep)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:handle_segv=1:exitcode=99"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["KNOWN"] = ",".join(knownkeys)
    env["SCRATCH"] = os.path.join(work, "scratch")
    os.makedirs(env["SCRATCH"], exist_ok=True)
    src = open(os.path.join(HERE, "replay", name + ".c")).read()
    if "NEEDS_PROGRAMS" in src:
        env["BIN"], perr = programs(work)
        if perr:
            res["summary"] = "building the programs failed: " + perr
            return res
    try:
        r = subprocess.run([exe, pid, str(seed), str(budget), rep], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=env["SCRATCH"], timeout=budget * 4 + 120)
    except subprocess.TimeoutExpired:
        res["status"] = "error"
        res["summary"] = "harness time-out"
        return res
    out = r.stdout.decode("utf8", "replace")
    m = re.search(r"OK cases=(\d+) distinct=(\d+)", out)
    if r.returncode == 0 and m:
        res.update(status="ok", cases=int(m.group(1)), distinct=int(m.group(2)), summary="no failing input in %s cases" % m.group(1))
        return res
    if not os.path.exists(rep):
        open(rep, "w").write("property %s: the executable contract ended with status %d\n" % (pid, r.returncode))
    with open(rep, "a") as f:
        f.write("\n" + r.stderr.decode("utf8", "replace")[-6000:])
    head = open(rep, errors="replace").read().split("\n")
    res.update(status="fail", replay=rep, summary="failing input: " + (head[1] if len(head) > 1 else ""))
    return res
