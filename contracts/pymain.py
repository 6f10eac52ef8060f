"""Contracts of the main functions of the Python programs: class Upwind is used through its contract (C14, C19)."""
from vcg.core import *
from vcg.pyfe import PyModule, PInterp, PFrame, Func, Arr, PList, Inst, NONE, scal
from vcg.cppfe import REPO
import os
DIR = os.path.join(REPO, "upwind/python")
def R(x): return z3.ToReal(Z(x)) if is_z(x) and x.sort() == INT else Fraction(x) if isint(x) else x
class Upw:
    """contract of class Upwind: one call of advect makes a step of the scheme for the problem the object was built with"""
    def __init__(self, mpi, ghost=None): self.mpi = mpi; self.g = ghost; self.rk = z3.Int("rk"); self.calls = 0; self.objs = []
    def ctor(self, I, st, a, kw):
        names = ("velocity", "lengths", "numCells"); a = list(a) + [kw[k] for k in names[len(a):] if k in kw]
        if len(a) != 3: raise Unsupported("Upwind's arguments")
        col = []
        for x, nm in zip(a, names):
            if nm != "numCells" and (not isinstance(x, Arr) or x.dt != "f"): raise Unsupported("%s is not a real array" % nm)
            it = [I.getter(st, x)((j,)) for j in range(x.shape[0])] if isinstance(x, Arr) and isint(x.shape[0]) else I.items(st, x)
            if it is None: raise Unsupported("%s of unknown length" % nm)
            col.append(list(it))
        v, L, n = col
        if self.g: self.g.made(st, v, L, n)
        ob = lambda nm, c: I.eng.oblige(st, nm, "pre", c)
        ob("as many lengths and cell counts as velocity components", len(v) == len(L) == len(n))
        if not len(v) == len(L) == len(n): raise Unsupported("Upwind's arguments")
        ob("domain lengths are positive, at least one cell per axis", band(*[lt(0, x) for x in L], *[ge(x, 1) for x in n]))
        if self.mpi:
            ob("three axes", len(n) == 3)
            ob("the velocity components are not negative", band(*[ge(x, 0) for x in v]))
        root = I.fresh_root("obj"); d = I.fresh_root("nd"); st.vars[d] = CVec([rdiv(R(l), R(k)) for l, k in zip(L, n)])
        st.vars[root] = Obj("UPW", {"deltas": Arr(d, (len(n),), "f"), "numCells": a[2], "rk": self.rk, "sz": z3.Int("sz")})
        o = Inst(root, None); self.objs.append((o, v, L, n)); return o
    def method(self, I, st, o, name, a, kw):
        if name == "advect":
            dt = a[0] if a else kw["deltaTime"]; self.calls += 1
            v, L, n = next((v, L, n) for p, v, L, n in self.objs if p.root == o.root)
            if self.g: self.g.advect(st, R(dt))
            return NONE
        if name == "checksum":
            v = self.g.summed(st) if self.g else I.eng.fresh("checksum", REAL)
            if not self.mpi: return v
            r = Opaque("check sum"); self.nsums = getattr(self, "nsums", 0) + 1
            if self.g: r = Opaque("check sum %d" % self.nsums); r.steps = self.g.get(st, "steps")
            return r
        if name == "saveVTK" and not self.mpi:
            if self.g: self.g.saved(st)
            return NONE
        if name == "gatherRoot" and self.mpi:
            v, L, n = next((v, L, n) for p, v, L, n in self.objs if p.root == o.root)
            if self.g: self.g.saved(st)
            G = z3.Function("gathered", INT, INT, INT, REAL)
            r = I.fresh_root("nd"); st.vars[r] = SVec(tuple(n), lambda i: G(*[Z(x) for x in i]), (), None, 3); self.G = G
            from .pympi import RootOnly
            return RootOnly(Arr(r, tuple(n), "f"), eq(self.rk, 0))
        if name == "printOut": return NONE
        raise Unsupported("Upwind.%s" % name)
def run(U, prog, title, root_vtk=False, what=None):
    """main on an arbitrary command line"""
    mpi = prog == "upwindMPI.py"; mod = PyModule(os.path.join(DIR, prog)); P = Upw(mpi)
    eng = U.engine("%s: %s" % (prog, title))
    if mpi:
        from .pympi import MPInterp, World
        I = MPInterp(eng, mod, World())
    else: I = PInterp(eng, mod, [DIR])
    cls = mod.cls("advect"); I.contracts[cls.name] = P.ctor; I.objmodels["UPW"] = P.method
    st = State(); argc = z3.Int("argc")
    if what:
        from .drivers import Ghost, G, ghost
        P.g = Ghost(z3.Int("int(argv[1])"), lambda st, nm, c: eng.oblige(st, nm, "post", c), what); st.write(G, ghost())
    if root_vtk: argc = 4; P.rk = 0; I.strb = {("streq", "argv[3]", "vtk"): True, ("streq", "vtk", "argv[3]"): True}
    st.assume(Z(ge(argc, 1)))
    n, s = z3.Int("int(argv[1])"), z3.Int("int(argv[2])")
    for f in (n >= 1, n <= 1290, s >= 0): st.assume(f)
    if mpi: st.assume(Z(band(ge(P.rk, 0), lt(P.rk, z3.Int("sz")))))
    st.vars["stdout"] = Stream(()); st.vars["list#argv"] = SVec(argc, lambda i: Opaque("argv[%s]" % unz(i))); st.vars["sys.argv"] = PList("list#argv")
    I.frames.append(PFrame("top.", mod)); U.vacuity(eng, st.hyps, "main")
    hy = list(st.hyps)
    I.call_func(st, mod.func("main"), [], {})
    U.discharge(eng)
    return eng, I, st, P, hy, argc, n, s
def vtk_unit(U):
    """upwindMPI.py: the file holds the gathered field on the axes of the problem"""
    from . import vtkfile as V
    eng, I, st, P, hy, argc, n, s = run(U, "upwindMPI.py", "main: the file", True)
    if len(P.objs) != 1 or not hasattr(P, "G"): raise Unsupported("no field is gathered")
    if len(I.files) != 1: U.fact("one file is written", False, detail=str(I.files)); return
    it = [x for x in st.vars[I.files[0]].items if not (isinstance(x, tuple) and x[0] == "close")]
    D = V.doc(U, st, it, hy, "upMPI.vtk")
    if D is None: return
    V.separation(U, eng, D)
    o, v, L, nc = P.objs[0]; i = [z3.Int("i%d" % j) for j in range(3)]
    hints = [n * n >= 1, n * n * n >= 1]
    from .upwind_cxx import Grid
    g = Grid(3); g.n = [n] * 3; ii, rng = g.cell(); c = g.flat(ii)
    V.rectilinear(U, eng, hy + g.hints(ii), D, [n] * 3, list(reversed(L)), n * n * n, P.G(*ii), None, rng, c, g.hints(ii))
