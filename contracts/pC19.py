"""C19: the distributed Python program matches the serial scheme"""
from vcg.frame import *
from . import pympi as M
KINDS = ("post", "pre", "bounds", "invariant", "termination", "lemma", "vacuity")
units = M.units
ASSUME = ["floating-point arithmetic is treated as exact real arithmetic; integers do not overflow",
          "numpy behaves as documented; velocity and lengths are float64 arrays, numCells is a list of integers, as the program passes them",
          "mpinum.CubeDecomp numbers the processes of a P0 x P1 x P2 grid one to one, rank 0 being the low corner; getSlab(r) is the uniform sub-domain of process r and getNeighborProc the process shifted by the offset, periodic where asked; a decomposition exists (otherwise the constructor ends the program)",
          "mpinum ghosted arrays: getData(r, side) is the outermost layer on that side of process r's array as it is when all processes have reached the call; reduce(operator.add) gives the root the sum over all elements of all processes",
          "mpi4py gather hands the root the list of the objects passed by the processes, by rank, and None to the others; distributed arrays cannot be serialised",
          "every process takes the same branches (checked: no collective call stands in a branch that depends on the process)"]
def harness(_):
    from . import mpi_replay as MR
    H = Harness(); H.rule = "1 to 12 processes, process grids and sub-domains of different extents, velocities zero or positive, arbitrary fields, 0..4 steps of different lengths, run through the class under mpiexec; the main program with its file; an independent oracle"
    d = scratch()
    try:
        rnd = random.Random(SEED)
        if MR.run(H, d, MR.gen(rnd, (1, 2, 3, 4, 6, 8, 12) if THOROUGH else (1, 2, 4, 6, 8), 40 if THOROUGH else 14)): return H
        for P, n, s in ((1, 5, 3), (4, 4, 2), (8, 6, 4)):
            if MR.program(H, d, P, n, s): return H
        return H
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    return run_check("C19", "", units(), KINDS, harness, ASSUME)
