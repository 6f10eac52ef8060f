"""C13: the Fortran upwind programs advance the field by the first-order upwind scheme"""
from vcg.frame import *
from . import fort as F, upwind_cxx as W, fort_replay as FR

KINDS = ("post", "pre", "bounds", "invariant", "termination", "lemma", "vacuity")
def units():
    u = [("lemmas 3d", lambda U: W.lemmas(U, 3))]
    for p in F.PROGRAMS:
        u.append((p + " constructor", F.ctor_unit(p, 3)))
        u.append((p + " advect", F.advect_unit(p, 3)))
    return u
ASSUME = ["floating-point arithmetic is treated as exact real arithmetic; integers do not overflow (C13's precondition: the number of cells fits the integer type)",
          "the programs are verified as compiled in this configuration (preprocessed with HAVE_OPENMP, without HAVE_OPENACC and HAVE_OPENMP_OFFLOAD)"]
def harness(_):
    H = Harness(); H.rule = "problems with unequal sizes (1..7 per axis), velocities of either sign, arbitrary fields, 0..5 steps, run through the compiled modules; 1 and 3 threads; an independent oracle"
    d = scratch()
    try:
        FR.upwind(H, d, F.PROGRAMS, F.source, FR.judge_step, 200 if THOROUGH else 60)
        return H
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    return run_check("C13", "", units(), KINDS, harness, ASSUME)
