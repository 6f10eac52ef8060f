"""C10: the step is conservative and monotone.  The update proved for C08 (new = old - sum_j c_j (old - old at the upwind
neighbour)) is discharged again here; that the neighbour maps are bijections of the cells, and that the Courant numbers
the main programs use are non-negative and add up to at most one, are obligations; that such a step keeps the total and
the bounds is proved in lemmas/conservation.lean and checked by Lean's kernel on every run."""
import subprocess
from .cxx_lib import *
from .cxx_lib import invoke
from vcg.core import *
from vcg.frame import UnitCtx, sh, VERIF
from vcg.cppfe import TU, Interp, REPO
from vcg.lemma import Tactic
from . import upwind_cxx as W, mains as M, drivers as D, fort as F, pyup as PU, pympi as MP

def lean_unit(U):
    U.engine("lemmas/conservation.lean")
    rc, o, e = sh(["lean", os.path.join(VERIF, "lemmas/conservation.lean")], 280)
    if rc == -9 or "unknown module" in o or "No such file" in e: raise Unsupported("lean: " + (o + e)[-400:])
    for t in ("a conservative step with bijective neighbour maps leaves the total unchanged", "a step with non-negative Courant numbers adding up to at most one stays within the old bounds"):
        U.add(t, "lemma", "proved" if rc == 0 and "sorry" not in o and "error" not in o else "refuted", "lean 4 kernel (Mathlib)", o[-500:])
def bijection_unit(nd):
    def run(U):
        g = W.Grid(nd); ii, rng = g.cell(); e = U.engine("lemma: the neighbour maps are bijections (%d-d)" % nd)
        hy = [n >= 1 for n in g.n] + rng
        for j in range(nd):
            for s in (1, -1):
                up = list(ii); up[j] = z3.If(ii[j] == g.n[j] - 1, 0, ii[j] + 1) if s > 0 else z3.If(ii[j] == 0, g.n[j] - 1, ii[j] - 1)
                dn = list(up); dn[j] = z3.If(up[j] == 0, g.n[j] - 1, up[j] - 1) if s > 0 else z3.If(up[j] == g.n[j] - 1, 0, up[j] + 1)
                U.goal(e, hy, "the neighbour (axis %d, %+d) of a cell is a cell" % (j, s), z3.And(up[j] >= 0, up[j] < g.n[j]), kind="lemma")
                U.goal(e, hy, "the opposite step goes back (axis %d, %+d)" % (j, s), dn[j] == ii[j], kind="lemma")
    return run
def borrowed(pid, fn):
    """obligations of another property's unit that this one needs: when they are not all discharged, this property is undecided here (the replay stands in)"""
    def run(U):
        V = UnitCtx(U.name, U.kinds, U.tmul)
        fn(V)
        bad = [o for o in V.obls if o["status"] != "proved" and o["kind"] != "vacuity"]
        U.engines += V.engines; U.functions += V.functions
        if bad: raise Unsupported("the update is not shown to be the upwind scheme (see %s): %s" % (pid, bad[0]["name"]))
        U.obls += V.obls
    return run

class MpiConv(M.UpwindC):
    """weights of the stencil: non-negative, adding up to one"""
    def at_ctor(self, I, st, v, n):
        E = M.stencil_of(v[3]); loc = I.loc(n)
        for k, w in sorted(E.items()): I.eng.oblige(st, "the weight of branch %s is not negative" % (k,), "post", ge(w, 0), loc)
        I.eng.oblige(st, "the weights add up to one", "post", eq(M.sum_(list(E.values())), 1), loc)
    def at_save(self, g): return True
    def at_init(self, I, st, nm, f, n): return M.UpwindC.at_init(self, I, st, nm, f, n)
def mpi_unit(U):
    C = MpiConv()
    M.run_main(U, "upwind/cxx/upwindMpi.cxx", C)
def units():
    u = [("conservation and bounds (Lean)", lean_unit)] + [("neighbour maps %dd" % d, bijection_unit(d)) for d in (1, 2, 3)]
    for p in W.PROGRAMS:
        u += [(p + " main", D.cxx_unit(p, ("cfl",))), (p + " constructor", borrowed("C08", W.ctor_unit(p, 3))), (p + " advect", borrowed("C08", W.advect_unit(p, 3)))]
    u.append(("lemmas 3d", lambda U: W.lemmas(U, 3)))
    u.append(("upwindMpi main", mpi_unit))
    # the Fortran and Python programs: their updates (C13, C14, C19) and the time step their mains compute
    for p in F.PROGRAMS:
        u += [(p + ".F90 main", D.fort_unit(p, ("cfl",), 2)), (p + ".F90 constructor", borrowed("C13", F.ctor_unit(p, 3))), (p + ".F90 advect", borrowed("C13", F.advect_unit(p, 3)))]
    u += [("upwind.py main", D.py_unit("upwind.py", ("cfl",))), ("upwindMPI.py main", D.py_unit("upwindMPI.py", ("cfl",)))]
    u += [("upwind.py constructor", borrowed("C14", PU.ctor_unit(3))), ("upwind.py advect", borrowed("C14", PU.advect_unit(3)))]
    u += [("process grid", MP.lemmas), ("upwindMPI.py constructor", borrowed("C19", MP.ctor_unit)), ("upwindMPI.py advect", borrowed("C19", MP.advect_unit))]
    return u
