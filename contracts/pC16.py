"""C16: see properties.jsonl"""
from vcg.frame import *
from . import mains as M, cpp_replay as CR

KINDS = ("post", "pre", "invariant", "termination", "lemma", "vacuity")
RULE = "both drivers with a Filter that records its arguments and the order of calls, for random command lines, ranks, process counts and validity of the decomposition"
ASSUME = ["CmdLineArgParser is used through its contract (C12): an option read has the value of the command line or its default, any int",
          "Filter is used through its contract (C05-C07); ghost state counts how often the stencil has been applied to the data in the input and in the output",
          "the initial condition of the upwind driver adds the three indices in int: at most 2^29 cells per axis",
          "real arithmetic for doubles; the Laplacian driver in 1 to 4 dimensions"]
def harness(_):
    H = Harness(); H.rule = RULE
    d = scratch()
    try:
        for w, src in (("U", "upwind/cxx/upwindMpi.cxx"), ("L", "laplacian/cxx/laplacian.cxx")):
            rc, e, exe = CR.build(d, "driver_harness.cpp", ["cxx/CmdLineArgParser.cpp"], ["-O1", "-g", "-I" + os.path.join(VERIF, "replay/mock"), '-DWHICH="%s"' % w, '-DSRC="%s"' % os.path.join(REPO, src)], w)
            if rc: H.inconclusive = "harness does not compile: " + e[-800:]; continue
            CR.collect(H, exe, [str(SEED), "thorough" if THOROUGH else "quick"], d)
            if H.fail: break
        return H
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    return run_check("C16", "", M.units(), KINDS, harness, ASSUME)
