"""Replay of the Fortran contracts on the compiled modules (their main programs renamed away), with an independent oracle."""
import os, random
from vcg.frame import *
from . import upwind_replay as R

def build(d, src, driver, flags=("-fopenmp", "-DHAVE_OPENMP"), check=False):
    """-> (exe or None, error)"""
    w = os.path.join(d, "b_" + os.path.basename(src).split(".")[0] + ("_c" if check else "")); os.makedirs(w, exist_ok=True)
    opt = ["-O1", "-g", "-w"] + (["-fcheck=bounds,mem,pointer"] if check else [])
    rc, o, e = sh(["gfortran", "-cpp", "-J" + w, "-c", src, "-o", os.path.join(w, "m.o")] + opt + list(flags), 240)
    if rc: return None, e[-800:]
    rc, o, e = sh(["objcopy", "--redefine-sym", "main=orig_main", "--redefine-sym", "MAIN__=orig_MAIN__", os.path.join(w, "m.o")], 60)
    if rc: return None, e[-800:]
    exe = os.path.join(w, "drv")
    rc, o, e = sh(["gfortran", "-I" + w, "-J" + w, os.path.join(VERIF, "replay", driver), os.path.join(w, "m.o"), "-o", exe, "-O1", "-g", "-w"] + list(flags), 240, cwd=w)
    return (exe, None) if rc == 0 else (None, e[-800:])
def parse(o, n):
    res = []; cur = {}
    for line in o.split("\n"):
        w = line.split()
        if not w: continue
        if w[0] == "after":
            cur["after"] = cur.get("field"); res.append(cur); cur = {}
        elif w[0] in ("init", "field"):
            try: cur[w[0]] = [float(x) for x in w[1:]]
            except ValueError: cur[w[0]] = []
    return res[:n]
def run(exe, cases, d, threads, timeout=100):
    inp = []
    for c in cases:
        inp.append(" ".join("%.17g" % x for x in c["v"] + c["L"]) + " %d %d %d " % tuple(c["n"]) + "%.17g %d %d %d" % (c["dt"], c["steps"], 1 if c["f"] else 0, 1 if c.get("vtk") else 0))
        if c["f"]: inp.append(" ".join("%.17g" % x for x in c["f"]))
    return sh([exe], timeout, "\n".join(inp) + "\n", cwd=d, env=dict(os.environ, OMP_NUM_THREADS=str(threads)))
def upwind(H, d, progs, source, judge, count, threads=(1, 3), vtk=False):
    """run the cases of every program; judge(case, result, directory, k); True when a failure was found"""
    rnd = random.Random(SEED)
    for p in progs:
        exe, err = build(d, source(p), "upwind_driver.f90")
        if exe is None: H.inconclusive = "%s: the driver does not compile: %s" % (p, err); continue
        cases = R.gen_cases(rnd, count)
        for c in cases: c["vtk"] = vtk
        if vtk: cases += tiny(rnd)
        else: cases += [dict(c, vtk=False) for c in R.long_cases()]
        w = os.path.join(d, "run_" + p); os.makedirs(w, exist_ok=True)
        for th in threads:
            rc, o, e = run(exe, cases, w, th)
            res = parse(o, len(cases))
            for k, (c, r) in enumerate(zip(cases, res)):
                H.cases += 1
                if len(H.samples) < 4 and k % 7 == 2: H.samples.append({"program": p, **{x: c[x] for x in ("v", "L", "n", "dt", "steps")}})
                what = judge(c, r, w, k)
                if what: H.fail = {"program": p + ".F90", "threads": th, "problem": c, "what": what}; return True
            if len(res) < len(cases):
                c = cases[len(res)]; rc1, o1, e1 = run(exe, [c], w, th)
                if rc1 not in (0, -9) and not parse(o1, 1):
                    H.fail = {"program": p + ".F90", "threads": th, "problem": c, "what": "the program ended with status %d: %s" % (rc1, (e1 or o1)[-400:])}; return True
                H.inconclusive = "%s: output incomplete (status %d) %s" % (p, rc, e[-300:])
    return False
def tiny(rnd):
    """fields whose values are tiny, huge, negative and zero"""
    out = []
    for n, L in (((3, 2, 2), [1.0, 2.0, 0.5]), ((1, 4, 2), [1.0, 2.0, 0.5]), ((3, 4, 2), [1.234567e-6, 3.1e-12, 2.5e8]), ((2, 3, 4), [1e-5, 1e-5, 1e-5])):
        N = n[0] * n[1] * n[2]
        f = [rnd.choice([1e-100, -2.5e-120, 1e-300, 0.0, 3e-7, -4.5e10, 7e101, 1.25, -1e-99]) for _ in range(N)]
        out.append(dict(v=[1.0, 1.0, 1.0], L=L, n=list(n), dt=0.0, steps=0, f=f, vtk=True))
    # large problems: three and four digit node counts per axis
    out.append(dict(v=[1.0, 1.0, 1.0], L=[1.0, 2.0, 0.5], n=[1, 1, 1203], dt=0.0, steps=0, f=[0.5] * 1203, vtk=True))
    out.append(dict(v=[1.0, 1.0, 1.0], L=[1.0, 2.0, 0.5], n=[1203, 1, 1], dt=0.0, steps=0, f=[0.5] * 1203, vtk=True))
    return out
def judge_step(c, r, d, k): return R.judge_step(c, r)

def matmult_oracle(kind, n, m, l, a, b):
    """column-major input and output"""
    if kind == 2: return [float(x) for x in range(1, n * m + m * l + 1)]
    return [sum(a[i + n * j] * b[j + m * k] for j in range(m)) for k in range(l) for i in range(n)]
