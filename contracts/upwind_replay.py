"""Replay of the upwind contracts on the compiled programs (C++), with an independent oracle."""
import os, random, itertools
from vcg.frame import *

def step_oracle(old, v, L, n, dt):
    """first-order upwind step on index sets, last index fastest"""
    n0, n1, n2 = n
    new = {}
    for i in itertools.product(range(n0), range(n1), range(n2)):
        r = old[i]
        for j in range(3):
            up = list(i); up[j] = (i[j] - 1) % n[j] if v[j] >= 0 else (i[j] + 1) % n[j]
            r -= abs(v[j]) * dt * n[j] / L[j] * (old[i] - old[tuple(up)])
        new[i] = r
    return new

def close(a, b, tol=1e-9): return abs(a - b) <= tol * (1 + abs(a) + abs(b))

def gen_cases(rnd, count):
    """small problems: unequal sizes, sizes 1 and 2, velocities of either sign and zero, arbitrary fields"""
    out = []
    sizes = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 4), (4, 3, 2), (3, 3, 3), (1, 3, 2), (5, 1, 3), (2, 2, 5), (3, 5, 2), (4, 4, 4), (7, 2, 3)]
    signs = list(itertools.product((1, -1), repeat=3))
    for c in range(count):
        n = sizes[c % len(sizes)] if c < 3 * len(sizes) else tuple(rnd.randint(1, 6) for _ in range(3))
        s = signs[c % 8]
        v = [s[j] * rnd.choice([0.0, 0.5, 1.0, 1.75, 3.0]) if rnd.random() < 0.8 else s[j] for j in range(3)]
        L = [rnd.choice([0.5, 1.0, 2.0, 3.25]) for _ in range(3)]
        dt = rnd.choice([0.01, 0.03, 0.125])
        steps = rnd.choice([0, 1, 1, 1, 2, 3, 5])
        usef = rnd.random() < 0.8
        f = [round(rnd.uniform(-3, 3), 3) for _ in range(n[0] * n[1] * n[2])] if usef else None
        out.append(dict(v=v, L=L, n=list(n), dt=dt, steps=steps, f=f))
    return out

def long_cases():
    """more cells, and more cells along an axis, than small integer types count"""
    out = []
    for n, v in (((33001, 1, 2), (1.0, -0.5, 2.0)), ((2, 33001, 1), (-1.0, 0.5, 1.0)), ((1, 2, 33001), (0.5, 1.0, -1.5))):
        out.append(dict(v=list(v), L=[1.0, 2.0, 0.5], n=list(n), dt=1e-6, steps=1, f=[((i * 7919) % 1013) / 97.0 for i in range(66002)]))
    return out

def compile_cpp(out, src, harness="upwind_harness.cpp", flags=("-fopenmp", "-DHAVE_OPENMP"), std="-std=c++17", objs=(), opt="-O1"):
    cmd = ["g++", std, opt, "-g", "-w", "-fno-access-control"] + list(flags) + ["-I" + os.path.join(REPO, "cxx"), "-I" + os.path.join(REPO, "upwind/cxx"), '-DSRC="%s"' % src,
           os.path.join(VERIF, "replay", harness), os.path.join(REPO, "cxx", "CmdLineArgParser.cpp"), "-o", out] + list(objs)
    return sh(cmd, 240)

def run_cases(exe, cases, vtkfile, threads=3, timeout=100):
    inp = []
    for c in cases:
        inp.append(" ".join("%.17g" % x for x in c["v"] + c["L"]) + " %d %d %d " % tuple(c["n"]) + "%.17g %d %d %d" % (c["dt"], c["steps"], 1 if c["f"] else 0, 1 if c.get("vtk") else 0))
        if c["f"]: inp.append(" ".join("%.17g" % x for x in c["f"]))
    env = dict(os.environ, OMP_NUM_THREADS=str(threads), VTKFILE=vtkfile)
    return sh([exe], timeout, "\n".join(inp) + "\n", env=env)

def parse_out(o, cases):
    """list of dicts per case (may be shorter when the program died)"""
    res = []; cur = {}
    vtk = None
    it = iter(o.split("\n"))
    for line in it:
        if line.startswith("|"): cur.setdefault("vtk", []).append(line[1:]); continue
        w = line.split()
        if not w: continue
        if w[0] in ("init", "field", "diag", "after"): 
            cur[w[0]] = [float(x) for x in w[1:]]
        if w[0] == "after" and not cases[len(res)].get("vtk") or w[0] == "endvtk":
            res.append(cur); cur = {}
            if len(res) == len(cases): break
    return res

def oracle(c, f0):
    n = c["n"]
    idx = list(itertools.product(*[range(k) for k in n]))
    old = dict(zip(idx, f0))
    for _ in range(c["steps"]): old = step_oracle(old, c["v"], c["L"], n, c["dt"])
    return [old[i] for i in idx]

def harness(progs, judge, count, rule, threads=(1, 3), flags=("-fopenmp", "-DHAVE_OPENMP"), vtk=False):
    """compile each program's class, run the cases, judge(case, output) -> None or what is wrong"""
    def run(results):
        H = Harness(); H.rule = rule
        rnd = random.Random(SEED)
        d = scratch()
        try:
            for prog, src in progs:
                exe = os.path.join(d, prog)
                rc, o, e = compile_cpp(exe, src, flags=flags)
                if rc != 0:
                    H.inconclusive = "%s: harness does not compile: %s" % (prog, e[-800:]); continue
                cases = gen_cases(rnd, count)
                if vtk:
                    for c in cases: c["vtk"] = True
                else: cases += long_cases()
                for th in threads:
                    rc, o, e = run_cases(exe, cases, os.path.join(d, "out.vtk"), th)
                    res = parse_out(o, cases)
                    for c, r in zip(cases, res):
                        H.cases += 1
                        if len(H.samples) < 3: H.samples.append({"program": prog, **{k: c[k] for k in ("v", "L", "n", "dt", "steps")}})
                        w = judge(c, r)
                        if w:
                            H.fail = {"program": src, "threads": th, "problem": c, "what": w}; return H
                    if len(res) < len(cases):
                        c = cases[len(res)]
                        # run the case alone, to make sure it is the one that fails
                        rc1, o1, e1 = run_cases(exe, [c], os.path.join(d, "out.vtk"), th)
                        if rc1 != 0 and len(parse_out(o1, [c])) == 0:
                            H.fail = {"program": src, "threads": th, "problem": c, "what": "the program ended with status %d: %s" % (rc1, e1[-500:])}; return H
                        # once more after the problems before it: what an earlier object leaves behind may matter
                        pre = cases[:len(res) + 1]; rc2, o2, e2 = run_cases(exe, pre, os.path.join(d, "out.vtk"), th)
                        if rc2 < 0 and rc2 != -9 and len(parse_out(o2, pre)) < len(pre):
                            H.fail = {"program": src, "threads": th, "problems": pre[-6:], "what": "the program ended with signal %d on the problem number %d of a sequence" % (-rc2, len(pre))}; return H
                        H.inconclusive = "output incomplete (status %d) %s" % (rc, e[-300:])
            return H
        finally: shutil.rmtree(d, ignore_errors=True)
    return run

def judge_step(c, r):
    n = c["n"]; N = n[0] * n[1] * n[2]
    if r.get("init") != [1.0] + [0.0] * (N - 1): return "initial field is not one in the low corner and zero elsewhere: %s" % r.get("init")
    ref = oracle(c, c["f"] or r["init"])
    got = r.get("field", [])
    if len(got) != N: return "field has %d values" % len(got)
    for i, (a, b) in enumerate(zip(got, ref)):
        if not close(a, b): return "cell %d is %.12g, the upwind scheme gives %.12g" % (i, a, b)
