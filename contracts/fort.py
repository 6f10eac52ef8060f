"""Contracts of the Fortran programs (upwind/fortran/*.F90, matmult/fortran/matmult.F90)."""
from vcg.core import *
from vcg.fortfe import Unit, FInterp, Frame, class_name, strip_idx
from vcg.cppfe import REPO
from vcg.loops import pname, leaves, lget
from .upwind_cxx import Grid, lemmas
import os

PROGRAMS = ("upwind", "upwindF03", "upwindF08", "upwindF08Gpu")
def source(p): return os.path.join(REPO, "upwind/fortran/%s.F90" % p)
def load(p, flags=None): return Unit(source(p), flags) if flags else Unit(source(p))
class FGrid(Grid):
    """1-based flat indices are stored positions plus one; the rest is Grid"""

def type_name(u):
    for t, cs in u.types.items():
        if "f" in cs and "numcells" in cs: return t
    raise Unsupported("the type with the field f was not found")
def proc(u, nm, *alts):
    """a procedure of the class by the name of its type-bound binding or its own"""
    for n in (nm,) + alts:
        for (t, b), q in u.bindings.items():
            if b == n: return q
        if "upwind_" + n in u.procs: return "upwind_" + n
    raise Unsupported("procedure %s not found" % nm)
def call(I, st, name, *roots):
    """call with variables as actual arguments"""
    if not I.frames:
        f = Frame("@test"); I.frames.append(f)
    f = I.frames[-1]
    for r in roots: f.vars[r] = (r,)
    return I.call(st, name, [("var", "@test:" + r, []) for r in roots])

def construct(U, p, nd, u=None):
    u = u or load(p); g = FGrid(nd)
    eng = U.engine("%s.F90: upwind_new" % p); I = FInterp(eng, u); st = State()
    for f in g.pre + g.lem: st.assume(f)
    st.vars.update(velocity=CVec(g.v), lengths=CVec(g.L), numcells=CVec(g.n))
    st.vars["obj"] = I.scalar_init(("DERIVED", type_name(u)))
    call(I, st, proc(u, "new"), "obj", "velocity", "lengths", "numcells")
    return eng, I, st, g, u
def fpath(st, name="f"):
    v = st.vars["obj"].fields.get(name)
    return v.path if isinstance(v, Ptr) else ("obj", ("f", name))
def field(st):
    v = st.read(fpath(st))
    if not isinstance(v, (SVec, CVec)): raise Unsupported("the field is not an array")
    return v

def ctor_unit(p, nd):
    def run(U):
        eng, I, st, g, u = construct(U, p, nd)
        U.vacuity(eng, g.pre, "upwind_new")
        U.discharge(eng)
        f = field(st); ii, rng = g.cell(); hy = st.hyps + rng
        U.goal(eng, hy, "the field has one value per cell", eq(f.len, g.ntot), kind="post")
        zero = band(*[eq(i, 0) for i in ii])
        U.equal(eng, hy, "the field is one in the low corner cell and zero elsewhere", f.get(g.flat(ii)), ite(zero, Fraction(1), Fraction(0)), splits=[i == 0 for i in ii], hints=g.hints(ii))
        for nm, want in (("velocity", g.v), ("lengths", g.L), ("numcells", g.n)):
            for a, b in zip(st.vars[nm].items, want): U.goal(eng, hy, "frame: argument %s unchanged" % nm, eq(a, b), kind="post")
    return run

def arbitrary(st):
    """the object with an arbitrary field (class invariant: everything else is as constructed)"""
    v = field(st); F = z3.Function("F_f", INT, REAL)
    st.write(fpath(st), SVec(v.len, lambda i: F(Z(i))))
def advect_unit(p, nd, flags=None):
    def run(U):
        _, I0, st, g, u = construct(U, p, nd, load(p, flags))
        eng = U.engine("%s.F90: upwind_advect" % p); I = FInterp(eng, u); I.complb = I0.complb
        arbitrary(st); old_f = field(st); obj0 = st.vars["obj"]
        dt = z3.Real("deltaTime"); st.vars["dt"] = dt
        hy0 = list(st.hyps)
        call(I, st, proc(u, "advect"), "obj", "dt")
        U.vacuity(eng, hy0, "upwind_advect")
        U.discharge(eng)
        obj = st.vars["obj"]
        U.goal(eng, st.hyps, "frame: number of values unchanged", eq(field(st).len, old_f.len), kind="post")
        for k, v in obj0.fields.items():
            if isinstance(v, SVec) or k == "f": continue
            for (q, a) in leaves(v, (("f", k),)):
                b = lget(obj, q)
                if is_z(a) or isinstance(a, (int, Fraction)): U.goal(eng, st.hyps, "frame: %s unchanged" % k, eq(a, b), kind="post")
        U.goal(eng, st.hyps, "frame: deltaTime unchanged", eq(st.vars["dt"], dt), kind="post")
        ii, rng = g.cell()
        old = lambda a: old_f.get(g.flat(a))
        U.equal(eng, hy0 + rng, "one call advances every cell by the upwind scheme", field(st).get(g.flat(ii)), g.step(old, ii, dt), g.splits(ii), g.hints(ii))
    return run

def save_unit(p, nd):
    """the VTK file a program writes for an arbitrary field (class invariant: everything else is as constructed)"""
    def run(U):
        from . import vtkfile as V
        _, I0, st, g, u = construct(U, p, nd)
        eng = U.engine("%s.F90: upwind_saveVTK" % p); I = FInterp(eng, u); I.complb = I0.complb
        arbitrary(st); fv = field(st); obj0 = st.vars["obj"]; st.vars["filename"] = name = Opaque("the file name")
        for r, v in list(st.vars.items()):
            if isinstance(v, Stream): st.vars[r] = Stream(())
        for x in g.n: st.assume(lt(add(x, 1), 10 ** 9))
        hy0 = list(st.hyps)
        call(I, st, proc(u, "saveVTK", "savevtk"), "obj", "filename")
        U.vacuity(eng, hy0, "upwind_saveVTK"); U.discharge(eng)
        from vcg.loops import changed
        U.fact("the object is not modified", not changed(State({"obj": obj0}), State({"obj": st.vars["obj"]})))
        F = [(r, v) for r, v in st.vars.items() if isinstance(v, Stream) and r != "stdout" and v.items]
        if len(F) != 1: U.fact("one file is written", False, detail=str([f[0] for f in F])); return
        it = F[0][1].items; op = [x for x in it if isinstance(x, tuple) and x[0] == "open"]
        U.fact("the file named by the argument is opened once, before anything is written", len(op) == 1 and op[0][1] is name and it[0] is op[0], detail=str(op))
        D = V.doc(U, st, it, hy0, "upwind_saveVTK")
        if D is None: return
        V.separation(U, eng, D)
        c = z3.Int("c")
        V.rectilinear(U, eng, hy0, D, list(reversed(g.n)), list(reversed(g.L)), g.ntot, fv.get(c), None, [c >= 0, Z(lt(c, g.ntot))], c)
    return run
