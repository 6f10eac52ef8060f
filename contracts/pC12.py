"""C12: see properties.jsonl"""
from vcg.frame import *
from . import cmdline as C, cpp_replay as CR

KINDS = ("post", "invariant", "termination", "lemma", "vacuity")
ASSUME = ["a string is identified with its content; its length and characters are functions of it, and atof and atoi are functions of it (uninterpreted: the conversions themselves are the C library's)",
          "std::map behaves as a finite map with distinct keys (modelled, not verified); the order of its keys is arbitrary",
          "an argument list has at least the program name and at most 2^31 - 1 entries"]
def units():
    return [("constructor, get<T>, set", C.access_unit)] + [("parse (%s)" % k, C.parse_unit(k)) for k in C.MAPS]
def main():
    return run_check("C12", "", units(), KINDS, CR.harness("cmdline_harness.cpp", ["cxx/CmdLineArgParser.cpp"], "random registrations of the four kinds of options and random argument lists (repeated, trailing, unregistered and dash-only tokens, negative numbers, empty tokens) against an independent reading of the rules"), ASSUME)
