"""C20: check sum and spread reported by the C++ programs"""
import math, re
from vcg.frame import *
from . import upwind_cxx as W, upwind_replay as R, drivers as D, mains as M, prog_replay as P

KINDS = ("post", "invariant", "termination", "lemma", "vacuity")
def judge(c, r):
    f = r.get("field"); d = r.get("diag")
    if f is None or d is None: return "no output"
    s = math.fsum(f); n = len(f)
    if not R.close(d[0], s): return "check sum is %.15g, the values sum to %.15g" % (d[0], s)
    m = s / n
    sd = math.sqrt(math.fsum((x - m) ** 2 for x in f) / n)
    if d[1] >= 0 and not R.close(d[1], sd, 1e-7): return "spread is %.15g, the standard deviation is %.15g" % (d[1], sd)
    if r.get("after") != f: return "computing the diagnostics changed the field"
RULE = "arbitrary fields on problems with unequal sizes, 1 and 3 threads; what the programs (the MPI ones on 1 to 8 processes) print against the field they write"
STD = ("upwind", "upwindOMPTasks", "upwindAcc2", "upwindOMP5")        # programs that document -std
def printed(out, what): return [float(x) for x in re.findall(r"(?:%s)[^:=\n]*[:=]\s*([-+0-9.eE]+|nan|-?inf)\s*$" % what, out, re.M | re.I)]
def judge_main(o, path, std):
    v = P.Vtk(path)
    if v.err: return None                 # the file is C11's business
    s = math.fsum(v.vals); n = len(v.vals); sd = math.sqrt(math.fsum((x - s / n) ** 2 for x in v.vals) / n)
    c = printed(o, "check sum"); near = lambda a, b: abs(a - b) <= 5e-5 * (1e-4 + abs(b))
    if not c: return "no check sum is printed"
    if not near(c[-1], s): return "the check sum printed is %g, the values of the file add up to %g" % (c[-1], s)
    if std is None: return None
    q = printed(o, "std|spread|deviation")
    if std and not q: return "the spread is not printed"
    if std and not near(q[-1], sd): return "the spread printed is %g, the standard deviation of the values of the file is %g" % (q[-1], sd)
def mains(H):
    d = scratch()
    try:
        jobs = [(p, P.build_cxx(d, p), f, [p]) for p, f in P.CXX.items()] + [("upwindMpi", P.build_mpi(d, "upwind/cxx/upwindMpi.cxx", "upwindMpi"), "upMpi.vtk", ["1", "2", "4", "8"])]
        for name, (exe, err), f, procs in jobs:
            if exe is None: H.inconclusive = "%s does not compile: %s" % (name, err); continue
            for n, s in [(1, 2), (2, 1), (3, 0), (4, 3), (5, 25), (6, 40), (9, 7)] + ([(16, 100), (30, 12)] if THOROUGH else []):
                for p in procs:
                    mpi = name == "upwindMpi"
                    if mpi and (s == 0 or n ** 3 % int(p) or n % 2 and int(p) > 1): continue
                    for std in (True, False) if name in STD else (None,):
                        path = os.path.join(d, f)
                        if os.path.exists(path): os.unlink(path)
                        rc, o, e = sh([exe] + ([p] if mpi else []) + ["-numCells", str(n), "-numSteps", str(s), "-vtk"] + (["-std"] if std else []), 60, cwd=d, env=dict(os.environ, OMP_NUM_THREADS="3"))
                        if rc: H.inconclusive = "%s: status %s %s" % (name, rc, (e or o)[-300:]); continue      # C22's and C16's business
                        H.cases += 1; w = judge_main(o, path, std)
                        if len(H.samples) < 6 and H.cases % 11 == 1: H.samples.append("%s n=%d steps=%d" % (name, n, s))
                        if w: H.fail = {"program": name, "numCells": n, "numSteps": s, "processes": p if mpi else 1, "std": std, "what": w}; return H
        return H
    finally: shutil.rmtree(d, ignore_errors=True)
def units():
    u = []
    for p in W.PROGRAMS:
        for what in ("checksum", "std"): u.append(("%s %s" % (p, what), W.diag_unit(p, 3, what)))
        u.append(("%s main" % p, D.cxx_unit(p, ("report",))))
    return u + M.report_units()
def harness(r):
    H = R.harness([(p, W.source(p)) for p in W.PROGRAMS], judge, 300 if THOROUGH else 60, RULE)(r)
    return H if H.fail else mains(H)
ASSUME = ["floating-point arithmetic is treated as exact real arithmetic", "sqrt is an uninterpreted function (the argument is proved to be the population variance)",
          "the mains use the parser through its contract (C12), the class through the contracts proved here and in C08, the filter through its contract (C05-C07): its check sum on the root is the sum over all the cells (C07)",
          "a number printed is recognised by the words before it on its line (check sum, std); the Laplacian program in 1 to 3 dimensions"]
def main():
    return run_check("C20", "", units(), KINDS, harness, ASSUME)
