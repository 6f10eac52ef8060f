"""C14: the Python upwind program advances the field by the same upwind scheme"""
from vcg.frame import *
from . import pyup as P, upwind_cxx as W

KINDS = ("post", "pre", "bounds", "invariant", "termination", "lemma", "vacuity")
def units():
    u = [("lemmas %dd" % nd, lambda U, nd=nd: W.lemmas(U, nd)) for nd in (2, 3)]
    for nd in (1, 2, 3):
        u.append(("constructor %dd" % nd, P.ctor_unit(nd)))
        u.append(("advect %dd" % nd, P.advect_unit(nd)))
        u.append(("checksum %dd" % nd, P.checksum_unit(nd)))
    return u
ASSUME = ["floating-point arithmetic is treated as exact real arithmetic; integers do not overflow (C14's precondition: the number of cells fits the integer type)",
          "numpy behaves as documented (zeros, ones, identity, arange, outer, dot, fancy indexing, in-place operators, broadcasting, sum); velocity and lengths are float64 arrays, numCells is a list of integers, as the program passes them"]
def harness(_):
    from . import py_replay as PR
    H = Harness(); H.rule = "problems in 1 to 3 dimensions with unequal sizes (1..7 per axis), velocities of either sign, arbitrary fields, 0..5 steps of different lengths, run through the class; an independent oracle"
    d = scratch()
    try: PR.upwind(H, d, PR.gen(random.Random(SEED), 900 if THOROUGH else 240), PR.judge_step); return H
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    return run_check("C14", "", units(), KINDS, harness, ASSUME)
