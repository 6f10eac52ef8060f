"""C18: see properties.jsonl"""
from vcg.frame import *
from . import pyup as PU, py_replay as PR, fort as F, fort_replay as FR, prog_replay as P, pymain as PM, mpi_replay as MR
KINDS = ("post", "pre", "invariant", "termination", "lemma", "vacuity")
def units():
    return [(p + " saveVTK", F.save_unit(p, 3)) for p in F.PROGRAMS] + [("upwind.py saveVTK %dd" % nd, PU.save_unit(nd)) for nd in (1, 2, 3)] + [("upwindMPI.py file", PM.vtk_unit)]
ASSUME = ["the conversion of a number to text by a given edit descriptor is trusted (the contract checks that the descriptor leaves room for the value and keeps the exponent letter)", "real arithmetic for doubles",
          "fewer than 10^9 cells along an axis (ten columns)", "the stream accepts what is written (no disk error)",
          "upwindMPI.py: the distributed class is used through its contract (C19)"]
def harness(_):
    H = Harness(); H.rule = "Fortran programs on problems with unequal sizes (1..7 per axis), lengths and arbitrary fields, among them tiny, huge, negative and zero values and a long axis; the files are read back by an independent strict reader"
    d = scratch()
    try:
        def judge(c, r, w, k):
            p = os.path.join(w, "case%d.vtk" % k)
            if not os.path.exists(p): return "no file was written"
            return P.judge_rectilinear(P.Vtk(p), c["n"], c["L"], r["after"])
        FR.upwind(H, d, F.PROGRAMS, F.source, judge, 90 if THOROUGH else 30, threads=(1,), vtk=True)
        if H.fail is None:
            cases = PR.gen(random.Random(SEED), 120 if THOROUGH else 45) + PR.tiny(random.Random(SEED))
            for k, c in enumerate(cases): c["vtk"] = os.path.join(d, "py%d.vtk" % k)
            def pj(c, r, k): return P.judge_any(P.Vtk(c["vtk"]), c["n"], c["L"], r["after"])
            PR.upwind(H, d, cases, pj)
        if H.fail is None:
            for q, n, k in ((2, 4, 3), (8, 6, 5)):
                if MR.program(H, d, q, n, k): break
        return H
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    return run_check("C18", "", units(), KINDS, harness, ASSUME)
