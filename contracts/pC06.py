"""C06: see properties.jsonl"""
from vcg.frame import *
from . import filt as F, cpp_replay as CR

def main():
    return run_check("C06", "", F.units("C06"), F.KINDS, CR.harness("filter_harness.cpp", ["cxx/Filter.cpp", "cxx/CubeDecomp.cpp", "cxx/MultiArrayIter.cpp", "cxx/writeVTK.cpp"], F.RULE,
        flags=F.FLAGS, args=("C06",)), F.ASSUME)
