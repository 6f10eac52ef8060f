"""C17: bounds, null pointers, divisors and overflow in the C++ library and programs"""
import random, re
from vcg.frame import *
from . import cxx_lib as L, cube as Q, cmdline as C, upwind_cxx as W, upwind_replay as R, vtk_cxx as X, mains as M, drivers as D, filt as F, cpp_replay as CR, pC01, pC08, pC20
KINDS = ("safety", "divzero", "invariant", "vacuity")
FK = KINDS + ("pre",)
def units():
    u = []
    for nd in (3, 2, 1):
        for w in ("apply", "ctor", "ctor-none", "dtor", "setInData", "setInDataByIndices", "copyOutToIn", "checksum", "save", "save-others", "print"): u.append(("Filter::%s %d-d" % (w, nd), F.UNITS[w](nd), FK))
        u.append(("computeOptimalDecomp %d-d" % nd, Q.optimal_unit(nd, "body")))
        u.append(("computeCost %d-d" % nd, Q.cost_unit(nd))); u.append(("CubeDecomp::build %d-d" % nd, Q.build_unit(nd)))
        u.append(("sub-domains %d-d" % nd, Q.boxes_unit(nd))); u.append(("neighbours %d-d" % nd, Q.neighbor_unit(nd)))
        u.append(("lemmas on index boxes and corners %d-d" % nd, F.lemma_unit(nd), ("lemma",)))
    u.append(("getPrimeFactors", Q.divisors_unit))
    u += [("MultiArrayIter " + x[0],) + tuple(x[1:]) for x in pC01.units()]
    u += [("CmdLineArgParser: constructor, get<T>, set", C.access_unit)] + [("CmdLineArgParser::parse (%s)" % k, C.parse_unit(k)) for k in C.MAPS]
    u += [x for x in pC08.units() + pC20.units() if not x[0].startswith("lemmas")] + [(x[0], x[1], ("lemma",)) for x in pC08.units() if x[0].startswith("lemmas")]
    u += [("%s print" % p, W.print_unit(p, 3)) for p in W.PROGRAMS] + [("CmdLineArgParser::help", C.help_unit)]
    u += X.units() + M.units() + [x for x in D.units(("run",)) if ".cxx" in x[0]]
    return [x for k, x in enumerate(u) if x[0] not in [y[0] for y in u[:k]]]
ASSUME = ["the number of cells fits the integer type the program counts them with (int for the upwind programs, 2^31-1 cells per process for the filter, 2^56 cells for the decomposition, 2^29 cells per axis for the upwind MPI driver), 1 to 3 dimensions (4 for the iterator)",
          "a stencil has branches along one axis at a time, reaching at most one sub-domain; queries on a decomposition are made after a successful build with a valid rank",
          "std:: containers and algorithms behave as the standard says (modelled with their bounds as obligations); MPI as in contracts/filt.py",
          "floating-point overflow and NaN are not considered"]
SAN = ["-O1", "-g", "-fsanitize=address,undefined,float-divide-by-zero", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", STUB_FREE="1")
SIGN = re.compile(r"Sanitizer|runtime error|Assertion '|terminate called after throwing an instance of 'std::(out_of_range|length_error|bad_alloc|bad_array_new_length)|terminate called after throwing an instance of 'std::logic_error")
STUB = re.compile(r"bytes|frees memory|freed twice|is not valid|MPI_\w+ from rank|gets \d+ (indices|coordinates)|out_of_range|exposes")
def report(e):
    m = SIGN.search(e or "")
    return e[max(0, m.start() - 200):][:900] if m else None
def drive(H, d, name, driver, srcs, args, flags=()):
    rc, e, exe = CR.build(d, driver, srcs, SAN + list(flags), "h_" + re.sub(r"\W", "_", name))
    if rc: H.inconclusive = "%s: harness does not compile: %s" % (name, e[-500:]); return False
    rc, o, e = sh([exe] + args + [str(SEED), "thorough" if THOROUGH else "quick"], 300, cwd=d, env=ENV)
    H.cases += sum(int(l.split()[1]) for l in o.split("\n") if l.startswith("CASES "))
    w = report(e) or next((l for l in o.split("\n") if l.startswith("FAIL ") and STUB.search(l)), None)
    if w: H.fail = {"what": w, "driver": name, "case": [l for l in o.split("\n") if l.startswith("CASE ")][-1:]}; return True
    if rc: H.inconclusive = "%s ended with status %s" % (name, rc)
    return False
def harness(_):
    H = Harness(); H.rule = "library and programs compiled with AddressSanitizer, UndefinedBehaviourSanitizer and library assertions: iterators, decompositions, parser, filter on the MPI stand-in, writers, the five programs on unequal and tiny grids, every main"
    d = scratch(); SUM = ["cxx/CmdLineArgParser.cpp"]; fl = [x for x in F.FLAGS if "stub" in x or x == "-lpthread"]
    try:
        for name, drv, srcs, args, flags in (("iterator", "mai_harness.cpp", ["cxx/MultiArrayIter.cpp"], [], ()), ("decomposition", "cube_harness.cpp", ["cxx/MultiArrayIter.cpp", "cxx/CubeDecomp.cpp"], ["C17"], ()),
                                             ("parser", "cmdline_harness.cpp", SUM, [], ()), ("filter", "filter_harness.cpp", ["cxx/Filter.cpp", "cxx/CubeDecomp.cpp", "cxx/MultiArrayIter.cpp", "cxx/writeVTK.cpp"], ["C17"], fl)):
            if drive(H, d, name, drv, srcs, args, flags): return H
        rnd = random.Random(SEED)
        rc, e, exe = CR.build(d, "writevtk_harness.cpp", ["cxx/writeVTK.cpp", "cxx/MultiArrayIter.cpp"], SAN, "w")
        if rc: H.inconclusive = "writeVTK: harness does not compile: " + e[-400:]
        else:
            for k in range(60):
                nd = 1 + k % 3; n = [rnd.choice([1, 1, 2, 3, 4, 7]) for _ in range(nd)]; t = 1
                for x in n: t *= x
                rc, o, e = sh([exe, d], 60, "%d %s\n" % (nd, " ".join(str(x) for x in n + [0] * nd + [1] * nd + list(range(t)))), env=ENV); H.cases += 1
                if report(e): H.fail = {"function": "writeVTK", "dims": n, "what": report(e)}; return H
        for prog in W.PROGRAMS:
            exe = os.path.join(d, prog)
            rc, o, e = R.compile_cpp(exe, W.source(prog), flags=["-fopenmp", "-DHAVE_OPENMP"] + SAN[2:])
            if rc: H.inconclusive = "%s: harness does not compile: %s" % (prog, e[-400:]); continue
            cases = [dict(c, vtk=int(k % 3 == 0), steps=min(c["steps"], 2)) for k, c in enumerate(R.gen_cases(rnd, 160 if THOROUGH else 64))]
            os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
            rc, o, e = R.run_cases(exe, cases, os.path.join(d, "u.vtk")); n = len(R.parse_out(o, cases)); H.cases += n
            if report(e): H.fail = {"program": prog, "problem": cases[min(n, len(cases) - 1)], "what": report(e)}; return H
            if rc: H.inconclusive = "%s ended with status %s" % (prog, rc)
        for prog in W.PROGRAMS:
            exe = os.path.join(d, "m_" + prog)
            rc, o, e = sh(["g++", "-std=c++17", "-w", "-fopenmp", "-DHAVE_OPENMP"] + SAN + CR.INC + [os.path.join(REPO, "upwind/cxx", prog + ".cxx"), os.path.join(REPO, SUM[0]), "-o", exe], 240)
            if rc: H.inconclusive = "%s does not compile: %s" % (prog, e[-400:]); continue
            for a in ([], ["-numCells", "1", "-numSteps", "1", "-vtk", "-std"], ["-numCells", "2", "-numSteps", "0", "-vtk"], ["-numCells", "5", "-numSteps", "3", "-vtk", "-std"], ["-h"], ["-numCells"], ["-nope"]):
                if not a: a = ["-numCells", "7"]
                rc, o, e = sh([exe] + a, 60, cwd=d, env=dict(ENV, OMP_NUM_THREADS="3")); H.cases += 1
                if report(e): H.fail = {"program": prog, "arguments": a, "what": report(e)}; return H
        for w, src in (("U", "upwind/cxx/upwindMpi.cxx"), ("L", "laplacian/cxx/laplacian.cxx")):
            if drive(H, d, src, "driver_harness.cpp", SUM, [], ["-I" + os.path.join(VERIF, "replay/mock"), '-DWHICH="%s"' % w, '-DSRC="%s"' % os.path.join(REPO, src)]): return H
        return H
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    return run_check("C17", "", units(), KINDS, harness, ASSUME)
