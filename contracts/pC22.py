"""C22: the upwind programs run the problem asked for on the command line"""
import itertools, re
from vcg.frame import *
from . import drivers as D, prog_replay as P, py_replay as PR
KINDS = ("post", "pre", "invariant", "termination", "lemma", "vacuity")
def units(): return D.units(("run",))
ASSUME = ["real arithmetic for doubles (the time step is compared with a tenth of the crossing time up to one part in 10^9)",
          "the command line parser of the C++ programs is used through its contract (C12); the class of each program through its contract (C08, C13, C14, C19)",
          "at least one cell per axis, at most 1290 (the number of cells fits the integer types), no negative number of steps; the Fortran and Python programs read well-formed integers"]
def judge(out, path, n, s, ref):
    m = re.search(r"check sum:\s*(\S+)\s*$", out, re.M | re.I)
    if not m: return "no check sum is printed"
    if abs(float(m.group(1)) - 1) > 1e-5: return "the check sum printed is %s" % m.group(1)
    w = P.judge_rectilinear(P.Vtk(path), [n] * 3, [1.0] * 3, ref)
    return w and "%s: %s" % (os.path.basename(path), w)
def oracle(n, s):
    q = dict(n=[n] * 3, v=[1.0] * 3, L=[1.0] * 3); idx = list(itertools.product(range(n), repeat=3)); f = {i: 0.0 for i in idx}; f[0, 0, 0] = 1.0
    for _ in range(s): f = PR.step(f, q, 0.1 / n)
    return [f[i] for i in idx]
def harness(_):
    H = Harness(); H.rule = "every program run through its main with several numbers of cells and steps, one or three threads, file on request; file and check sum against an independent oracle; without the request no file appears"; d = scratch()
    sizes = [(1, 2), (2, 1), (3, 4), (4, 0), (5, 7), (6, 3), (9, 12)] + ([(12, 5), (15, 30)] if THOROUGH else [])
    ref = {c: oracle(*c) for c in sizes}
    try:
        jobs = []
        for p, f in P.CXX.items(): jobs.append((p + ".cxx", P.build_cxx(d, p), f, lambda exe, n, s, v: [exe, "-numSteps", str(s), "-numCells", str(n)] + (["-vtk"] if v is True else [])))
        for p in P.FORTRAN: jobs.append((p + ".F90", P.build_fortran(d, p), "up.vtk", lambda exe, n, s, v: [exe, str(n), str(s)] + (["vtk"] if v is True else [v] if v else [])))
        jobs.append(("upwind.py", (P.PY, None), "up.vtk", lambda exe, n, s, v: [exe, os.path.join(REPO, "upwind/python/upwind.py"), str(n), str(s)] + (["vtk"] if v is True else [v] if v else [])))
        for name, (exe, err), f, cmd in jobs:
            if exe is None: H.inconclusive = "%s does not compile: %s" % (name, err); continue
            for k, (n, s) in enumerate(sizes):
                for v in ((True, False) if name.endswith(".cxx") else (True, False, "no", "novtk")) if k == 2 else (True,):
                    path = os.path.join(d, f)
                    if os.path.exists(path): os.unlink(path)
                    rc, o, e = sh(cmd(exe, n, s, v), 60, cwd=d, env=dict(os.environ, OMP_NUM_THREADS="3" if k % 2 else "1", PYTHONDONTWRITEBYTECODE="1"))
                    if rc == -9: H.inconclusive = "%s: time limit" % name; continue
                    H.cases += 1
                    if len(H.samples) < 4 and H.cases % 13 == 1: H.samples.append("%s n=%d steps=%d" % (name, n, s))
                    w = "the program ended with status %d: %s" % (rc, (e or o)[-300:]) if rc else judge(o, path, n, s, ref[n, s]) if v is True else "a file is written though none was asked for" if os.path.exists(path) else None
                    if w: H.fail = {"program": name, "numCells": n, "numSteps": s, "vtk": v, "what": w}; return H
        from . import mpi_replay as MR
        for q, n, s, w in ((2, 4, 3, ["vtk"]), (8, 6, 5, ["vtk"]), (1, 3, 2, []), (2, 2, 4, ["no"]), (2, 4, None, []), (1, 2, None, [])):
            if MR.program(H, d, q, n, s, w, True): return H
        return H
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    return run_check("C22", "", units(), KINDS, harness, ASSUME)
