"""C01: the array iterator enumerates its index box once, in the requested order"""
from vcg.frame import *
from . import cxx_lib as L, cpp_replay as CR

KINDS = ("post", "invariant", "termination", "lemma", "vacuity")
def units():
    u = []
    for nd in (1, 2, 3, 4):
        for row in (True, False):
            u.append(("%d-d %s" % (nd, "row-major" if row else "column-major"), L.mai_unit(nd, row)))
            if nd <= 3: u.append(("%d-d %s empty" % (nd, "row-major" if row else "column-major"), L.empty_unit(nd, row)))
    return u
def main():
    return run_check("C01", "", units(), KINDS, CR.harness("mai_harness.cpp", ["cxx/MultiArrayIter.cpp"], "boxes of 1 to 6 axes with sizes 1..7, both orders: all positions, all cells; large boxes at random positions"),
        ["the number of axes is fixed in each contract instance (1 to 4)", "the box has at most 2^64-1 cells and its corners fit size_t"])
