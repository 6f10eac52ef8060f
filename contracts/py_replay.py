"""Replay of the Python contracts on the program itself, with an independent oracle."""
import itertools, json, os, random
from vcg.frame import *
from . import upwind_replay as R
from .prog_replay import PY

def gen(rnd, count, dims=(3, 1, 2)):
    out = []
    for k, c in enumerate(R.gen_cases(rnd, count)):
        nd = dims[k % len(dims)] if k % 2 else 3
        if nd < 3:
            c["v"], c["L"], c["n"] = c["v"][:nd], c["L"][:nd], c["n"][:nd]
            N = 1
            for x in c["n"]: N *= x
            c["f"] = c["f"] and c["f"][:N]
        if k in (11, 12):                # more cells than small integer types count
            c["n"] = [70001] if k == 11 else [41, 43, 39]; nd = len(c["n"]); c["v"] = [-1.0] if k == 11 else [1.0, -0.5, 2.0]; c["L"] = c["L"][:nd] + [1.0] * (nd - len(c["L"]))
            N = 70001 if k == 11 else 41 * 43 * 39; c["f"] = [((i * 7919) % 1013) / 97.0 for i in range(N)]; c["steps"] = 2
        c["dts"] = [c["dt"] * rnd.choice([1, 1, 0.5, 2]) for _ in range(c["steps"])]; out.append(c)
    return out
def tiny(rnd):
    """tiny, huge, negative and zero values, short and long axes"""
    out = []
    for n, L in (([3, 2, 7], [1.234567891e-5, 3.1e-9, 2.571234e-7]), ([7, 3, 2], [3.3e-5, 1e-5, 1.7777777e-6]), ([1, 4, 2], [1e8, 3.7e12, 1.0]), ([7], [1e-5]), ([12, 3], [1.0, 7e-105]), ([1203, 1], [1.0, 1.0])):
        N = 1
        for x in n: N *= x
        f = [rnd.choice([1e-100, -2.5e-120, -1.2345678901234567e-300, 0.0, 3e-7, -4.5e10, 7e101, 1.25, -1e-99, -1.23456789e-5]) for _ in range(N)]
        out.append(dict(v=[1.0] * len(n), L=L, n=n, dt=0.0, steps=0, f=f, dts=[]))
    return out
def run(cases, d, timeout=200):
    rc, o, e = sh([PY, os.path.join(VERIF, "replay/upwind_py.py"), os.path.join(REPO, "upwind/python")], timeout, json.dumps(cases), cwd=d, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    res = []
    for l in o.split("\n"):
        try: res.append(json.loads(l))
        except ValueError: break
    return rc, res, e
def upwind(H, d, cases, judge):
    rc, res, e = run(cases, d)
    for k, (c, r) in enumerate(zip(cases, res)):
        H.cases += 1
        if len(H.samples) < 4 and k % 7 == 2: H.samples.append({x: c[x] for x in ("v", "L", "n", "dts")})
        w = r.get("error") or judge(c, r, k)
        if w: H.fail = {"program": "upwind.py", "problem": c, "what": w}; return True
    if len(res) < len(cases): H.inconclusive = "upwind.py: output incomplete (status %s) %s" % (rc, e[-500:])
    return False
def step(old, c, dt):
    n = c["n"]; new = {}
    for i, x in old.items():
        y = x
        for j in range(len(n)):
            u = list(i); u[j] = (i[j] + (1 if c["v"][j] < 0 else -1)) % n[j]
            y -= abs(c["v"][j]) * dt / (c["L"][j] / n[j]) * (x - old[tuple(u)])
        new[i] = y
    return new
def judge_step(c, r, k=0):
    N = 1
    for x in c["n"]: N *= x
    if r.get("init") != [1.0] + [0.0] * (N - 1): return "initial field is not one in the low corner and zero elsewhere: %s" % r.get("init")
    idx = list(itertools.product(*[range(k) for k in c["n"]])); old = dict(zip(idx, c["f"] or r["init"]))
    for dt in c["dts"]: old = step(old, c, dt)
    got = r["field"]
    if len(got) != N: return "field has %d values" % len(got)
    for i, (a, j) in enumerate(zip(got, idx)):
        if not R.close(a, old[j]): return "cell %d is %.12g, the upwind scheme gives %.12g" % (i, a, old[j])
    if not R.close(r["diag"], sum(got)): return "check sum %.12g of a field whose sum is %.12g" % (r["diag"], sum(got))
    if r["after"] != got: return "checksum modifies the field"
    for a, b, nm in zip(r["args"], (c["v"], c["L"], c["n"]), ("velocity", "lengths", "numCells")):
        if a != b: return "argument %s is modified" % nm
