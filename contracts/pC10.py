"""C10: see properties.jsonl"""
import math, re
from vcg.frame import *
from . import conserve as C, prog_replay as P

KINDS = ("post", "pre", "invariant", "termination", "lemma", "vacuity")
RULE = "the C++, MPI (1 to 8 processes in-process), Fortran and Python programs run through their mains on several resolutions and step counts; the field is read from the VTK file: values within [0,1], total one, check sum one"
ASSUME = ["real arithmetic for doubles", "C08's update contract is discharged again here (3-d, every program); the distributed stencil contract of C05 is used for upwindMpi",
          "the updates of the Fortran and Python programs (C13, C14, C19) are discharged again here in 3-d; as there, they hold for the velocities the contracts admit"]
def judge(out, path, n):
    m = re.search(r"check sum:\s*(\S+)\s*$", out, re.M | re.I)
    if not m: return "no check sum is printed"
    if abs(float(m.group(1)) - 1) > 1e-5: return "the check sum is %s" % m.group(1)
    v = P.Vtk(path)
    if v.err: return None                 # the file is C11's and C18's business
    if any(not (-1e-9 <= x <= 1 + 1e-6) for x in v.vals): return "values outside [0,1]: %s" % [x for x in v.vals if not (-1e-9 <= x <= 1 + 1e-6)][:3]
    if abs(math.fsum(v.vals) - 1) > 2e-5: return "the values add up to %.9g" % math.fsum(v.vals)
def harness(_):
    H = Harness(); H.rule = RULE; d = scratch()
    sizes = [(1, 3), (2, 1), (2, 40), (3, 1), (3, 7), (4, 2), (5, 25), (6, 12), (9, 60), (12, 6)] + ([(20, 100), (33, 10)] if THOROUGH else [])
    try:
        jobs = []
        for p, f in P.CXX.items(): jobs.append((p, P.build_cxx(d, p), f, lambda exe, n, s: [exe, "-numCells", str(n), "-numSteps", str(s), "-vtk"], [""]))
        jobs.append(("upwindMpi", P.build_mpi(d, "upwind/cxx/upwindMpi.cxx", "upwindMpi"), "upMpi.vtk", None, ["1", "2", "4", "8"]))
        for p in P.FORTRAN: jobs.append((p + ".F90", P.build_fortran(d, p), "up.vtk", lambda exe, n, s: [exe, str(n), str(s), "vtk"], [""]))
        jobs.append(("upwind.py", (P.PY, None), "up.vtk", lambda exe, n, s: [exe, os.path.join(REPO, "upwind/python/upwind.py"), str(n), str(s), "vtk"], [""]))
        for name, (exe, err), f, cmd, procs in jobs:
            if exe is None: H.inconclusive = "%s does not compile: %s" % (name, err); continue
            for n, s in sizes if name != "upwind.py" else sizes[1::2]:
                for p in procs:
                    if p and (n ** 3 % int(p) or n % 2 and int(p) > 1): continue
                    path = os.path.join(d, f)
                    if os.path.exists(path): os.unlink(path)
                    c = cmd(exe, n, s) if cmd else [exe, p, "-numCells", str(n), "-numSteps", str(s), "-vtk"]
                    rc, o, e = sh(c, 60, cwd=d, env=dict(os.environ, OMP_NUM_THREADS="3", PYTHONDONTWRITEBYTECODE="1"))
                    H.cases += 1
                    if len(H.samples) < 4 and H.cases % 17 == 1: H.samples.append("%s n=%d steps=%d %s" % (name, n, s, p))
                    w = "the program ended with status %d: %s" % (rc, (e or o)[-300:]) if rc else judge(o, path, n) if s else None
                    if rc and rc == -9: H.inconclusive = "%s: time limit" % name; continue
                    if w: H.fail = {"program": name, "numCells": n, "numSteps": s, "processes": p, "what": w}; return H
        from . import mpi_replay as MR
        for p, n, k in ((1, 3, 7), (4, 4, 20), (8, 6, 12)):
            path = os.path.join(d, "upMPI.vtk")
            if os.path.exists(path): os.unlink(path)
            rc, o, e = MR.launch(p, [os.path.join(REPO, "upwind/python/upwindMPI.py"), str(n), str(k), "vtk"], d, 120)
            if rc: H.inconclusive = "upwindMPI.py: status %s %s" % (rc, e[-300:]); break      # C19's and C22's business
            H.cases += 1; w = judge(o, path, n)
            if w: H.fail = {"program": "upwindMPI.py", "numCells": n, "numSteps": k, "processes": p, "what": w}; return H
        return H
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    return run_check("C10", "", C.units(), KINDS, harness, ASSUME)
