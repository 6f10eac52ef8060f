"""C08: the C++ upwind programs advance the field by the first-order upwind scheme"""
from vcg.frame import *
from . import upwind_cxx as W, upwind_replay as R

KINDS = ("post", "invariant", "termination", "lemma", "vacuity")
def units():
    u = [("lemmas 3d", lambda U: W.lemmas(U, 3))]
    for p in W.PROGRAMS:
        u.append((p + " constructor", W.ctor_unit(p, 3)))
        u.append((p + " advect", W.advect_unit(p, 3)))
    for nd in (1, 2):
        u.append(("lemmas %dd" % nd, lambda U, nd=nd: W.lemmas(U, nd)))
        u.append(("upwind constructor %dd" % nd, W.ctor_unit("upwind", nd)))
        u.append(("upwind advect %dd" % nd, W.advect_unit("upwind", nd)))
    return u
def main():
    return run_check("C08", "", units(), KINDS, R.harness([(p, W.source(p)) for p in W.PROGRAMS], R.judge_step, 300 if THOROUGH else 60, "problems with unequal sizes (1..7 per axis), velocities of either sign, arbitrary fields, 0..5 steps; 1 and 3 threads"), ["floating-point arithmetic is treated as exact real arithmetic"])
