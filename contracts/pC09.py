"""C09: parallel loops give the same field for every thread schedule"""
from vcg.frame import *
from . import upwind_cxx as W, race_replay as RR, fort as F, drivers as D, pC15 as MM

KINDS = ("race", "vacuity")
PROGS = W.PROGRAMS
OFFLOAD = {"upwindF08Gpu": ("-cpp", "-fopenmp", "-DHAVE_OPENMP", "-DHAVE_OPENMP_OFFLOAD")}
def units():
    u = []
    for p in PROGS:
        u.append((p + " constructor", W.ctor_unit(p, 3)))
        u.append((p + " advect", W.advect_unit(p, 3)))
        for what in ("checksum", "std"): u.append(("%s %s" % (p, what), W.diag_unit(p, 3, what)))
    for p in F.PROGRAMS:
        u.append((p + ".F90 advect", F.advect_unit(p, 3)))
        u.append((p + ".F90 main", D.fort_unit(p, ("run",), 2)))
    for p in OFFLOAD: u.append((p + ".F90 advect, offloading", F.advect_unit(p, 3, OFFLOAD[p])))
    u.append(("matmult.F90 matmult1", MM.kernel_unit("matmult1")))
    return u
def harness(_):
    H = Harness(); H.rule = "small grids with more threads than cells (C++ and Fortran), coroutine threads in several orders, every access between two barriers recorded; field compared with the one-thread field"
    d = scratch()
    try:
        rc, o, e = RR.build_rt(d)
        if rc: H.inconclusive = e[-500:]; return H
        RR.cpp_harness(H, d, [(p, W.source(p)) for p in PROGS])
        if H.fail is None: RR.fortran_harness(H, d, [(p, F.source(p)) for p in F.PROGRAMS])
        return H
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    return run_check("C09", "", units(), KINDS, harness, ["accelerator directives are verified through their mechanical translation to host OpenMP work sharing (data clauses dropped)",
        "the OpenMP runtime implements work sharing, barriers, private and reduction as specified", "the Fortran programs are read in the configurations HAVE_OPENMP and (upwindF08Gpu) HAVE_OPENMP_OFFLOAD; temporaries of a DO CONCURRENT iteration are local to it, as the standard requires of a conforming program"])
