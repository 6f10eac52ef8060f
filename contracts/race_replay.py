"""Race search on the compiled programs with the deterministic runtime replay/race_rt.cpp (bounded cross-check of C09)."""
import os, random, re, itertools
from vcg.frame import *
from vcg.directives import translate
from . import upwind_replay as R

WRAP = ["-Wl,--wrap=malloc,--wrap=free,--wrap=memcpy,--wrap=memmove,--wrap=memset"]
def build_rt(d):
    return sh(["g++", "-std=c++17", "-O1", "-w", "-c", os.path.join(VERIF, "replay/race_rt.cpp"), "-o", os.path.join(d, "rt.o")], 120)
def build_cpp(d, prog, src):
    """harness around the translated translation unit, instrumented"""
    t = os.path.join(d, prog + "_tu.cxx")
    with open(src) as f: text = translate(f.read())
    with open(t, "w") as f: f.write(text)
    exe = os.path.join(d, prog)
    inc = ["-I" + os.path.join(REPO, "cxx"), "-I" + os.path.join(REPO, "upwind/cxx")]
    rc, o, e = sh(["g++", "-std=c++17", "-O1", "-g", "-w", "-fno-access-control", "-fopenmp", "-fsanitize=thread", "-DHAVE_OPENMP"] + inc + ['-DSRC="%s"' % t, "-c", os.path.join(VERIF, "replay/upwind_harness.cpp"), "-o", exe + ".o"], 240)
    if rc: return rc, e, None
    rc, o, e = sh(["g++", "-O1", "-w", "-c", os.path.join(REPO, "cxx/CmdLineArgParser.cpp"), "-o", exe + "_cmd.o"] + inc, 120)
    if rc: return rc, e, None
    rc, o, e = sh(["g++", exe + ".o", exe + "_cmd.o", os.path.join(d, "rt.o"), "-o", exe] + WRAP, 120)
    return rc, e, exe
def races(err):
    m = re.findall(r"^RACES (\d+)", err, re.M)
    return int(m[-1]) if m else None

CASES = [dict(n=[2, 1, 1], steps=2), dict(n=[1, 2, 1], steps=2), dict(n=[1, 1, 2], steps=2), dict(n=[3, 2, 4], steps=2), dict(n=[2, 3, 3], steps=3), dict(n=[4, 4, 4], steps=1), dict(n=[5, 1, 2], steps=3), dict(n=[7, 3, 5], steps=1)]
def cpp_harness(H, d, progs):
    rnd = random.Random(SEED)
    for prog, src in progs:
        rc, e, exe = build_cpp(d, prog, src)
        if rc: H.inconclusive = "%s: instrumented build fails: %s" % (prog, e[-600:]); continue
        cases = []
        for i, c in enumerate(CASES * (3 if THOROUGH else 1)):
            s = [(-1) ** ((i >> j) & 1) for j in range(3)]
            n = c["n"]; N = n[0] * n[1] * n[2]
            cases.append(dict(v=[s[0] * 1.0, s[1] * 0.5, s[2] * 2.0], L=[1.0, 2.0, 0.5], n=n, dt=0.01, steps=c["steps"], f=[round(rnd.uniform(-2, 2), 3) for _ in range(N)]))
        base = None
        for th, order in [(1, 0), (2, 0), (4, 1), (64, 0), (105, 5)] + ([(3, 7), (5, 11), (16, 1), (128, 13)] if THOROUGH else []):
            inp = []
            for c in cases:
                inp.append(" ".join("%.17g" % x for x in c["v"] + c["L"]) + " %d %d %d %.17g %d 1 0" % (*c["n"], c["dt"], c["steps"]) + "\n" + " ".join("%.17g" % x for x in c["f"]))
            rc, o, e = sh([exe], 100, "\n".join(inp) + "\n", env=dict(os.environ, RT_THREADS=str(th), RT_ORDER=str(order)))
            r = races(e); H.cases += len(cases)
            if r is None or rc != 0: H.inconclusive = "%s with %d threads ended with status %s: %s" % (prog, th, rc, e[-300:]); break
            if r > 0:
                # which problem?
                for c, i in zip(cases, inp):
                    rc1, o1, e1 = sh([exe], 100, i + "\n", env=dict(os.environ, RT_THREADS=str(th), RT_ORDER=str(order)))
                    if (races(e1) or 0) > 0:
                        H.fail = {"program": src, "threads": th, "order": order, "problem": {k: c[k] for k in ("v", "L", "n", "dt", "steps")}, "what": "conflicting accesses between two barriers", "report": e1[-800:]}; return
                H.fail = {"program": src, "threads": th, "order": order, "what": "conflicting accesses between two barriers", "report": e[-800:]}; return
            fields = [l for l in o.split("\n") if l.startswith("field")]
            if base is None: base = (fields, cases)
            else:
                for c, a, b in zip(cases, base[0], fields):
                    x, y = [[float(w) for w in q.split()[1:]] for q in (a, b)]
                    if any(not R.close(p, q, 1e-9) for p, q in zip(x, y)) or len(x) != len(y):
                        H.fail = {"program": src, "threads": th, "order": order, "problem": {k: c[k] for k in ("v", "L", "n", "dt", "steps")}, "what": "the field differs from the one computed with one thread"}; return
        H.samples.append({"program": prog, "cases": len(cases), "threads": "1,2,4,64,105"})
def build_fortran(d, p, src, flags=("-fopenmp", "-DHAVE_OPENMP")):
    """the module instrumented, its main renamed away, the driver on the deterministic runtime"""
    w = os.path.join(d, "f_" + p); os.makedirs(w, exist_ok=True); m = os.path.join(w, "m.o"); exe = os.path.join(w, "drv")
    rc, o, e = sh(["gfortran", "-cpp", "-J" + w, "-c", src, "-o", m, "-O1", "-g", "-w", "-fsanitize=thread"] + list(flags), 240)
    if rc: return rc, e, None
    rc, o, e = sh(["objcopy", "--redefine-sym", "main=orig_main", "--redefine-sym", "MAIN__=orig_MAIN__", m], 60)
    if rc: return rc, e, None
    rc, o, e = sh(["gfortran", "-I" + w, "-J" + w, "-c", os.path.join(VERIF, "replay/upwind_driver.f90"), "-o", os.path.join(w, "d.o"), "-O1", "-w"], 120, cwd=w)
    if rc: return rc, e, None
    rc, o, e = sh(["gfortran", os.path.join(w, "d.o"), m, os.path.join(d, "rt.o"), "-lstdc++", "-o", exe] + WRAP, 120)
    return rc, e, exe
def fortran_harness(H, d, progs):
    from . import fort_replay as FR
    rnd = random.Random(SEED)
    cases = []
    for i, c in enumerate(CASES * (3 if THOROUGH else 1)):
        s = [(-1) ** ((i >> j) & 1) for j in range(3)]; n = c["n"]
        cases.append(dict(v=[s[0] * 1.0, s[1] * 0.5, s[2] * 2.0], L=[1.0, 2.0, 0.5], n=n, dt=0.01, steps=c["steps"], f=[round(rnd.uniform(-2, 2), 3) for _ in range(n[0] * n[1] * n[2])]))
    for prog, src in progs:
        rc, e, exe = build_fortran(d, prog, src)
        if rc: H.inconclusive = "%s: instrumented build fails: %s" % (prog, e[-600:]); continue
        def go(cs, th, order):
            inp = []
            for c in cs: inp += [" ".join("%.17g" % x for x in c["v"] + c["L"]) + " %d %d %d " % tuple(c["n"]) + "%.17g %d 1 0" % (c["dt"], c["steps"]), " ".join("%.17g" % x for x in c["f"])]
            rc, o, e = sh([exe], 100, "\n".join(inp) + "\n", cwd=d, env=dict(os.environ, RT_THREADS=str(th), RT_ORDER=str(order)))
            return rc, FR.parse(o, len(cs)), e
        base = None
        for th, order in [(1, 0), (2, 0), (4, 1), (64, 0), (105, 5)]:
            rc, res, e = go(cases, th, order); r = races(e); H.cases += len(cases)
            if r is None or rc != 0 or len(res) < len(cases): H.inconclusive = "%s with %d threads ended with status %s: %s" % (prog, th, rc, e[-300:]); break
            if base is None: base = res
            for c, x, y in zip(cases, base, res):
                bad = r > 0 and (races(go([c], th, order)[2]) or 0) > 0
                if bad or any(not R.close(a, b, 1e-9) for a, b in zip(x["after"], y["after"])):
                    H.fail = {"program": prog + ".F90", "threads": th, "order": order, "problem": {k: c[k] for k in ("v", "L", "n", "dt", "steps")}, "what": "conflicting accesses between two barriers" if bad else "the field differs from the one computed with one thread"}; return
        # the whole program, its start-up region included
        exe = os.path.join(d, "f_" + prog, "main")
        rc, o, e = sh(["gfortran", "-cpp", "-J" + os.path.dirname(exe), src, "-c", "-o", exe + ".o", "-O1", "-g", "-w", "-fsanitize=thread", "-fopenmp", "-DHAVE_OPENMP"], 240)
        if rc == 0: rc, o, e = sh(["gfortran", exe + ".o", os.path.join(d, "rt.o"), "-lstdc++", "-o", exe] + WRAP, 120)
        if rc: H.inconclusive = "%s: instrumented build of the program fails: %s" % (prog, e[-600:]); continue
        rc, o, e = sh([exe, "3", "1"], 100, cwd=os.path.dirname(exe), env=dict(os.environ, RT_THREADS="3", RT_ORDER="0")); H.cases += 1
        if (races(e) or 0) > 0: H.fail = {"program": prog + ".F90", "threads": 3, "arguments": "3 1", "what": "conflicting accesses between two barriers in the main program", "report": e[-600:]}; return
        H.samples.append({"program": prog + ".F90", "cases": len(cases), "threads": "1,2,4,64,105"})
