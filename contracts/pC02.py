"""C02: see properties.jsonl"""
from vcg.frame import *
from . import cube as Q, cpp_replay as CR

KINDS = ("post", "invariant", "termination", "lemma", "vacuity", "optimal")
ASSUME = ["the grid has at most 2^56 cells and 1 to 3 axes (each number of axes is one instance of the contracts)", "fewer than 2^30 processes",
          "std::vector, std::accumulate and std::multiplies behave as the standard says (modelled, not verified)"]
def units():
    u = []
    u.append(("getPrimeFactors", Q.divisors_unit))
    for nd in (1, 2, 3):
        for w in ("body", "valid", "complete"): u.append(("computeOptimalDecomp %d-d (%s)" % (nd, w), Q.optimal_unit(nd, w), ("post", "invariant", "termination", "lemma", "vacuity")))
        u.append(("build %d-d" % nd, Q.build_unit(nd)))
        u.append(("sub-domains %d-d" % nd, Q.boxes_unit(nd)))
    return u
def main():
    return run_check("C02", "", units(), KINDS, CR.harness("cube_harness.cpp", ["cxx/MultiArrayIter.cpp", "cxx/CubeDecomp.cpp"], "all small grids in 1 to 4 dimensions with 1..24 processes, larger grids with many divisors, products of divisors beyond 32 bits; against brute force", args=("C02",)), ASSUME + ["computeCost is used through its contract here (proved for C04)"])
