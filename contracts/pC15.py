"""C15: both matrix multiplication kernels compute the matrix product"""
from vcg.frame import *
from vcg.core import *
from vcg.fortfe import Unit, FInterp, Frame
from vcg.cppfe import REPO
from . import fort as F, fort_replay as FR
from .upwind_cxx import sum_goal, rec_of
import os, random

KINDS = ("post", "pre", "bounds", "race", "invariant", "termination", "lemma", "vacuity")
def source(): return os.path.join(REPO, "matmult/fortran/matmult.F90")
def split_mul(t):
    return t
def setup(U, name, u):
    n, m, l = z3.Ints("n m l")
    A, B, C = (z3.Function(x, INT, INT, REAL) for x in ("A_", "B_", "C_"))
    eng = U.engine("matmult.F90: " + name); I = FInterp(eng, u); st = State()
    pre = [n >= 0, m >= 0, l >= 0]
    for p in pre: st.assume(p)
    mk = lambda G, r, c: SVec((r, c), lambda x: G(Z(x[0]), Z(x[1])), (), None, 2)
    st.vars.update(a=mk(A, n, m), b=mk(B, m, l), c=mk(C, n, l))
    return eng, I, st, pre, (n, m, l), (A, B, C)
def unchanged(U, eng, hy, st, nm, G, r, c):
    i, j = z3.Ints("iu ju"); v = st.vars[nm]
    hy = hy + [i >= 0, i < r, j >= 0, j < c]
    for x, y in zip(v.len, (r, c)): U.goal(eng, hy, "frame: shape of input %s unchanged" % nm, eq(x, y), kind="post")
    U.equal(eng, hy, "frame: input %s unchanged" % nm, v.get((i, j)), G(i, j))
def kernel_unit(name):
    def run(U):
        u = Unit(source())
        eng, I, st, pre, (n, m, l), (A, B, C) = setup(U, name, u)
        if name not in u.procs: raise Unsupported("procedure %s not found" % name)
        F.call(I, st, name, "a", "b", "c")
        U.vacuity(eng, pre, name); U.discharge(eng)
        i, k = z3.Ints("i k"); hy = list(st.hyps) + [i >= 0, i < n, k >= 0, k < l]
        c = st.vars["c"]
        for x, y in zip(c.len, (n, l)): U.goal(eng, hy, "shape of the result unchanged", eq(x, y), kind="post")
        t = simp_under(eng, hy, c.get((i, k)))
        sum_goal(U, eng, hy, "every element of the result is the inner product of its row and column", t, m, lambda j: mul(A(i, Z(j)), B(Z(j), k)))
        unchanged(U, eng, pre, st, "a", A, n, m); unchanged(U, eng, pre, st, "b", B, m, l)
    return run
def simp_under(eng, hy, t):
    """drops the guards which the hypotheses decide"""
    A = Tactic(eng, hy)
    while is_z(t) and z3.is_app_of(t, z3.Z3_OP_ITE):
        g = t.arg(0)
        if proves(hy, g): t = t.arg(1)
        elif proves(hy, z3.Not(g)): t = t.arg(2)
        else: break
    return t
def proves(hy, g):
    s = z3.Solver(); s.set("timeout", 20000)
    for h in hy:
        if not isinstance(h, QFact): s.add(Z(h))
    s.add(z3.Not(g)); return s.check() == z3.unsat
def init_unit(U):
    u = Unit(source())
    eng, I, st, pre, (n, m, l), _ = setup(U, "initmat", u)
    if "initmat" not in u.procs: raise Unsupported("procedure initmat not found")
    F.call(I, st, "initmat", "a", "b")
    U.vacuity(eng, pre, "initmat"); U.discharge(eng)
    i, j, k = z3.Ints("i j k"); a, b = st.vars["a"], st.vars["b"]
    ha = list(pre) + [i >= 0, i < n, j >= 0, j < m]; hb = list(pre) + [j >= 0, j < m, k >= 0, k < l]
    for x, y in zip(a.len + b.len, (n, m, m, l)): U.goal(eng, pre, "shapes unchanged", eq(x, y), kind="post")
    R = z3.ToReal
    U.equal(eng, ha, "the left matrix counts from one in column-major order", a.get((i, j)), add(add(R(i), mul(R(n), R(j))), 1))
    U.equal(eng, hb, "the right matrix continues the count in column-major order", b.get((j, k)), add(add(add(mul(R(n), R(m)), R(j)), mul(R(m), R(k))), 1))
def units():
    return [("matmult0", kernel_unit("matmult0")), ("matmult1", kernel_unit("matmult1")), ("initmat", init_unit)]
ASSUME = ["floating-point arithmetic is treated as exact real arithmetic; default integers do not overflow",
          "actual arguments of the kernels do not alias (the Fortran standard's rule for assigned dummy arguments)"]
def harness(_):
    H = Harness(); H.rule = "conforming shapes 1..7 per dimension and some longer, unequal, small-integer and real matrices, both kernels and initmat; a result array filled with a sentinel; independent oracle"
    d = scratch()
    try:
        rnd = random.Random(SEED)
        exe, err = FR.build(d, source(), "matmult_driver.f90")
        if exe is None: H.inconclusive = "the driver does not compile: " + err; return H
        cases = []
        for q in range(400 if THOROUGH else 120):
            n, m, l = (rnd.randint(1, 7) for _ in range(3))
            if q % 9 == 0: n, m, l = rnd.choice([(1, 1, 40), (40, 1, 1), (1, 40, 1), (17, 33, 5), (64, 3, 9), (3, 70, 65)])
            f = (lambda: float(rnd.randint(-9, 9))) if q % 2 else (lambda: rnd.uniform(-3, 3))
            cases.append((q % 3, n, m, l, [f() for _ in range(n * m)], [f() for _ in range(m * l)]))
        inp = []
        for c in cases:
            inp.append("%d %d %d %d" % c[:4])
            if c[0] != 2: inp += [" ".join("%.17g" % x for x in c[4]), " ".join("%.17g" % x for x in c[5])]
        rc, o, e = sh([exe], 200, "\n".join(inp) + "\n", cwd=d, env=dict(os.environ, OMP_NUM_THREADS="3"))
        lines = [x.split() for x in o.split("\n") if x.strip()]
        for c, w in zip(cases, lines):
            H.cases += 1
            want = FR.matmult_oracle(*c); nm = ("matmult0", "matmult1", "initmat")[c[0]]
            if len(H.samples) < 4 and H.cases % 7 == 3: H.samples.append({"procedure": nm, "shape": c[1:4]})
            what = None
            if w and w[-1] == "changed": what = "an input matrix was changed"; w = w[:-1]
            try: got = [float(x) for x in w]
            except ValueError: got = None
            if got is None or len(got) != len(want): what = what or "%d values expected, got %r" % (len(want), w[:6])
            elif what is None:
                for q, (x, y) in enumerate(zip(got, want)):
                    if not abs(x - y) <= 1e-9 * (1 + abs(y)): what = "element %d (column-major) is %r, expected %r" % (q, x, y); break
            if what: H.fail = {"program": "matmult.F90", "procedure": nm, "shape": c[1:4], "a": c[4], "b": c[5], "what": what}; return H
        if len(lines) < len(cases):
            if rc not in (0, -9): H.fail = {"program": "matmult.F90", "shape": cases[len(lines)][1:4], "kind": cases[len(lines)][0], "what": "the program ended with status %d: %s" % (rc, e[-300:])}
            else: H.inconclusive = "output incomplete (status %d)" % rc
        return H
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    return run_check("C15", "", units(), KINDS, harness, ASSUME)
