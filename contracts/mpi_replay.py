"""Replay of C19 on the program itself: the class runs under mpiexec, one launch per number of processes."""
import itertools, json, os, random, re
from vcg.frame import *
from . import py_replay as PR, upwind_replay as R
from .prog_replay import PY, Vtk, judge_rectilinear
def launch(P, args, d, timeout):
    # timeout asks mpiexec to end, which takes its processes along
    pre = "[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; export PYTHONDONTWRITEBYTECODE=1; exec timeout -k 10 %d mpiexec -n %d %s " % (timeout, P, PY)
    rc, o, e = sh(["bash", "-c", pre + " ".join("'%s'" % a for a in args)], timeout + 30, cwd=d)
    return (-9, o, e + "\n[time limit]") if rc in (124, 137) else (rc, o, e)
def gen(rnd, procs, per):
    out = []
    for P in procs:
        for k in range(per):
            while True:
                # a process grid and sub-domains of different extents
                fac = [1, 1, 1]; rest = P; p = 2
                while rest > 1:
                    while rest % p == 0: fac[rnd.randrange(3)] *= p; rest //= p
                    p += 1
                n = [f * rnd.choice([1, 1, 2, 2, 3, 4, 5]) for f in fac]
                if n[0] * n[1] * n[2] <= 700: break
            N = n[0] * n[1] * n[2]
            v = [rnd.choice([0.0, 1.0, 0.5, 2.0, 0.125, 3.7]) for _ in range(3)]
            L = [rnd.choice([1.0, 2.0, 0.5, 3.0]) for _ in range(3)]
            dts = [rnd.choice([0.01, 0.1, 0.05, 0.3]) for _ in range(rnd.choice([0, 1, 1, 2, 3, 4]))]
            f = None if k % 5 == 0 else [rnd.choice([0.0, 1.0, -2.5, 7.0, 0.125]) + rnd.random() for _ in range(N)]
            out.append(dict(P=P, v=v, L=L, n=n, dts=dts, f=f))
    return out
def judge(c, rs):
    n = c["n"]; N = n[0] * n[1] * n[2]; idx = list(itertools.product(*[range(k) for k in n]))
    ref = [dict(zip(idx, c["f"] or [1.0] + [0.0] * (N - 1)))]
    for dt in c["dts"]: ref.append(PR.step(ref[-1], c, dt))
    for r in rs:
        cells = list(itertools.product(*[range(a, b) for a, b in zip(r["lo"], r["hi"])])); nm = "process %d of %d: " % (r["rank"], c["P"])
        if r["shape"] != [b - a for a, b in zip(r["lo"], r["hi"])]: return nm + "local field has shape %s" % r["shape"]
        if r["init"] != [1.0 if not any(x) else 0.0 for x in cells]: return nm + "initial field is not one in the low corner of the grid and zero elsewhere"
        for t, f in enumerate(r["fields"]):
            for x, y in zip(f, cells):
                if not R.close(x, ref[t + 1][y]): return nm + "after step %d cell %s is %.12g, the upwind scheme gives %.12g" % (t + 1, list(y), x, ref[t + 1][y])
        if r["fields"] and r["after"] != r["fields"][-1]: return nm + "checksum modifies the field"
        for a, b, w in zip(r["args"], (c["v"], c["L"], c["n"]), ("velocity", "lengths", "numCells")):
            if a != b: return nm + "argument %s is modified" % w
        if r["rank"] == 0:
            g = r["gather"]; s = sum(ref[-1].values())
            if not R.close(r["sum"], s): return nm + "check sum %.12g of a field whose sum is %.12g" % (r["sum"], s)
            if g is None or g["shape"] != n: return nm + "gathered array %s" % (g and g["shape"])
            for x, y in zip(g["vals"], idx):
                if not R.close(x, ref[-1][y]): return nm + "gathered value of cell %s is %.12g, the field's is %.12g" % (list(y), x, ref[-1][y])
        elif r["gather"] is not None: return nm + "gatherRoot returns data"
    return None
def run(H, d, cases, alone=False):
    with open(os.path.join(d, "cases.json"), "w") as f: json.dump(cases, f)
    for P in sorted({c["P"] for c in cases}):
        mine = [c for c in cases if c["P"] == P]; pre = os.path.join(d, "out%d" % P)
        rc, o, e = launch(P, [os.path.join(VERIF, "replay/upwind_mpi.py"), os.path.join(REPO, "upwind/python"), os.path.join(d, "cases.json"), pre], d, 45 if alone else 100)
        res = []
        for r in range(P):
            try: lines = open("%s.%d" % (pre, r)).read().split("\n")
            except OSError: lines = []
            L = []
            for l in lines:
                try: L.append(json.loads(l))
                except ValueError: break
            res.append(L)
        for k, c in enumerate(mine):
            rs = [L[k] for L in res if len(L) > k]
            bad = next((r for r in rs if r.get("error")), None)
            if bad:
                if bad["error"].startswith("import") or "has no attribute" in bad["error"] and "Upwind" in bad["error"]: H.inconclusive = bad["error"]; return False
                H.fail = {"program": "upwindMPI.py", "problem": c, "what": "process %s: %s" % (bad.get("rank"), bad["error"]), "trace": bad.get("trace")}; return True
            if len(rs) < P:
                H.inconclusive = "upwindMPI.py on %d processes: output incomplete (status %s) %s" % (P, rc, e[-400:])
                if rc == -9 and not alone:
                    # once more, on its own, before it counts as one that never ends
                    if run(H, d, [c], True): return True
                elif rc == -9: H.fail = {"program": "upwindMPI.py", "problem": c, "what": "the processes do not end (a problem of %d cells, stopped after 100 and 45 seconds)" % (c["n"][0] * c["n"][1] * c["n"][2])}; return True
                break
            H.cases += 1
            if len(H.samples) < 4 and k % 5 == 2: H.samples.append({x: c[x] for x in ("P", "v", "L", "n", "dts")})
            w = judge(c, rs)
            if w: H.fail = {"program": "upwindMPI.py", "problem": c, "what": w}; return True
    return False
def program(H, d, P, n, steps, words=("vtk",), total=False):
    """the main program: the gathered file has every cell in its place; check sum one; no file without the word vtk"""
    for x in ("upMPI.vtk",):
        if os.path.exists(os.path.join(d, x)): os.unlink(os.path.join(d, x))
    rc, o, e = launch(P, [os.path.join(REPO, "upwind/python/upwindMPI.py"), str(n)] + ([str(steps)] if steps is not None else []) + list(words), d, 60)
    c = {"processes": P, "cells": n, "steps": steps, "further words": list(words)}; steps = 100 if steps is None else steps
    if rc == -9:
        # a problem of a few cells: once more before it counts as one that never ends
        rc, o, e = launch(P, [os.path.join(REPO, "upwind/python/upwindMPI.py"), str(n), str(steps)] + list(words), d, 90)
        if rc == -9: H.fail = {"program": "upwindMPI.py", "problem": c, "what": "the program does not end (stopped after 60 and 90 seconds)"}; return True
    if rc != 0:
        if "Error" in e and "Traceback" in e: H.fail = {"program": "upwindMPI.py", "problem": c, "what": "the program ends with an error: %s" % e[-700:]}; return True
        H.inconclusive = "mpiexec: status %s %s" % (rc, e[-300:]); return False
    H.cases += 1
    if total:
        m = re.search(r"check sum:\s*(\S+)\s*$", o, re.M | re.I)
        w = "no check sum is printed" if not m else "the check sum printed is %s" % m.group(1) if not abs(float(m.group(1)) - 1) <= 1e-5 else None
        if w is None and "vtk" not in words[:1] and os.path.exists(os.path.join(d, "upMPI.vtk")): w = "a file is written though none was asked for"
        if w: H.fail = {"program": "upwindMPI.py", "problem": c, "what": w}; return True
    if "vtk" not in words[:1]: return False
    q = dict(n=[n] * 3, v=[1.0] * 3, L=[1.0] * 3); idx = list(itertools.product(range(n), repeat=3)); f = {i: 0.0 for i in idx}; f[0, 0, 0] = 1.0
    for _ in range(steps): f = PR.step(f, q, 0.1 / n)
    w = judge_rectilinear(Vtk(os.path.join(d, "upMPI.vtk")), [n] * 3, [1.0] * 3, [f[i] for i in idx])
    if w: H.fail = {"program": "upwindMPI.py", "problem": c, "what": "upMPI.vtk: " + w}; return True
    return False
