"""C11: see properties.jsonl"""
import random
from vcg.frame import *
from . import vtk_cxx as X, prog_replay as P, upwind_replay as R, cpp_replay as CR, upwind_cxx as W
KINDS = ("post", "pre", "invariant", "termination", "lemma", "vacuity")
ASSUME = ["the representation of numbers as text (operator<< for double, default precision) is trusted: the contract speaks about the values given to it", "real arithmetic for doubles",
          "MultiArrayIter is used through its contract, proved for C01", "the stream accepts what is written (no disk error)"]
RULE = "writeVTK on random grids (1-3 dimensions, 1 to 13 cells per axis), corners and fields; saveVTK of the five programs on non-cubic grids; the files are read back by an independent strict reader"
def harness(_):
    H = Harness(); H.rule = RULE; d = scratch(); rnd = random.Random(SEED)
    try:
        rc, e, exe = CR.build(d, "writevtk_harness.cpp", ["cxx/writeVTK.cpp", "cxx/MultiArrayIter.cpp"])
        if rc: H.inconclusive = "harness does not compile: " + e[-500:]
        else:
            cases = []
            for k in range(400 if THOROUGH else 120):
                nd = 1 + k % 3; n = [rnd.choice([1, 1, 2, 3, 4, 5, 9, 10, 11, 13][:10 if nd < 3 else 7]) for _ in range(nd)]
                lo = [rnd.choice([0, -1, 0.5, -2.25]) for _ in n]; hi = [a + rnd.choice([1, 0.5, 3.25, 2]) for a in lo]; t = 1
                for x in n: t *= x
                if k % 7 == 3:         # small and large domains
                    q = rnd.choice([2.0 ** -14, 2.0 ** -18, 2.0 ** 30]); lo = [q * x for x in lo]; hi = [q * x for x in hi]
                cases.append((n, lo, hi, [rnd.choice([-1, 1]) * (i + 1 + rnd.randint(0, 8) / 8) if t < 1000 else i for i in range(t)]))
            inp = "\n".join("%d %s" % (len(n), " ".join("%r" % x for x in n + lo + hi + f)) for n, lo, hi, f in cases)
            rc, o, e = sh([exe, d], 120, inp)
            for k, (n, lo, hi, f) in enumerate(cases):
                H.cases += 1; p = os.path.join(d, "w%d.vtk" % k)
                if len(H.samples) < 2: H.samples.append("writeVTK dims %s lo %s hi %s" % (n, lo, hi))
                w = P.judge_structured(P.Vtk(p), n, lo, hi, f) if os.path.exists(p) or rc == 0 else "the program ended with status %d" % rc
                if w: H.fail = {"function": "writeVTK", "globalDims": n, "xmins": lo, "xmaxs": hi, "what": w}; return H
        for prog in W.PROGRAMS:
            exe = os.path.join(d, prog); rc, o, e = R.compile_cpp(exe, W.source(prog))
            if rc: H.inconclusive = "%s: harness does not compile: %s" % (prog, e[-500:]); continue
            cases = [dict(c, vtk=1, steps=min(c["steps"], 1)) for c in R.gen_cases(rnd, 60 if THOROUGH else 26)]
            for c in cases[4::9]:          # small and large domains
                q = rnd.choice([2.0 ** -14, 2.0 ** -18, 2.0 ** 30]); c["L"] = [q * x for x in c["L"]]; c["steps"] = 0
            rc, o, e = R.run_cases(exe, cases, os.path.join(d, "u.vtk"))
            res = R.parse_out(o, cases)
            if len(res) < len(cases):
                c = cases[len(res)]; rc1, o1, e1 = R.run_cases(exe, [c], os.path.join(d, "u.vtk"))
                if rc1 not in (0, -9) and not R.parse_out(o1, [c]): H.fail = {"program": prog, "numCells": c["n"], "lengths": c["L"], "what": "the program ended with status %d: %s" % (rc1, e1[-300:])}; return H
                H.inconclusive = "%s: ended with status %d after %d cases" % (prog, rc, len(res))
            for c, r in zip(cases, res):
                H.cases += 1
                w = P.judge_rectilinear(P.Vtk(None, "\n".join(r.get("vtk", [])) + "\n"), c["n"], c["L"], r["after"])
                if w: H.fail = {"program": prog, "numCells": c["n"], "lengths": c["L"], "what": w}; return H
        return H
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    return run_check("C11", "", X.units(), KINDS, harness, ASSUME)
