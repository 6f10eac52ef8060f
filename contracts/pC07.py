"""C07: see properties.jsonl"""
from vcg.frame import *
from . import filt as F, cpp_replay as CR

def main():
    return run_check("C07", "", F.units("C07"), F.KINDS, CR.harness("filter_harness.cpp", ["cxx/Filter.cpp", "cxx/CubeDecomp.cpp", "cxx/MultiArrayIter.cpp", "cxx/writeVTK.cpp"], F.RULE,
        flags=F.FLAGS, args=("C07",)), F.ASSUME)
