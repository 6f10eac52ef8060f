"""C11: the VTK writers of the C++ code: writeVTK (cxx/writeVTK.cpp) and Upwind::saveVTK (upwind/cxx/saveVTK.h)"""
from .cxx_lib import *
from .cxx_lib import invoke
from vcg.core import *
from vcg.cppfe import Interp
from . import upwind_cxx as W, vtkfile as V
from .filt import Mai
from vcg.lemma import Tactic, OutOfTime
from vcg.frame import UnitCtx
from vcg.textout import nest_path

def files(st, I=None):
    return [(r, v) for r, v in st.vars.items() if isinstance(v, Stream) and not r.startswith("g:") and v.items]
def the_file(U, st, name, opened):
    """the one file the function writes, which must be the one named"""
    F = files(st)
    if len(F) != 1: U.fact("one file is written", False, detail=str([f[0] for f in F])); return None
    it = F[0][1].items
    op = [x for x in it if isinstance(x, tuple) and x[0] == "open"]
    U.fact("the file named by the argument is opened once, before anything is written", len(op) == 1 and opened(op[0][1]) and isinstance(it[0], tuple) and it[0] == op[0], detail=str(op))
    return it

class Radix:
    """contract of MultiArrayIter with its mixed radix representation spelled out (C01)"""
    def __init__(self, nd): self.nd = nd
    def NT(self, e): return prod(e)
    def order(self, row): return list(range(self.nd)) if row else list(reversed(range(self.nd)))
    def flat(self, row, e, c):
        o = self.order(row); r = c[o[0]]
        for j in o[1:]: r = add(mul(r, e[j]), c[j])
        return r
    def dig(self, row, e, p):
        o = self.order(row); q = p; d = {}
        for j in reversed(o[1:]): d[j] = fmod(q, e[j]); q = fdiv(q, e[j])
        d[o[0]] = q
        return [d[j] for j in range(self.nd)]

def write_unit(nd):
    def run(U):
        tu = load('#include "writeVTK.cpp"\n', ["writeVTK"])
        f = [x for x in tu.funcs if x.name == "writeVTK" and x.cls is None]
        if not f: raise Unsupported("writeVTK not found")
        eng = U.engine("writeVTK (%d-d)" % nd); I = Interp(eng, tu)
        M = Mai(Radix(3)); I.models["MultiArrayIter"] = M.ctor; I.objmodels["MAI"] = M.method
        st = State()
        n = [z3.Int("n%d" % j) for j in range(nd)]; lo = [z3.Real("xmin%d" % j) for j in range(nd)]; hi = [z3.Real("xmax%d" % j) for j in range(nd)]
        ntot = prod(n); F = z3.Function("field", INT, REAL)
        N3 = [n[j] if j < nd else 1 for j in range(3)]
        pre = [x >= 1 for x in n] + [Z(le(prod([add(x, 1) for x in N3]), 2**62))]
        for p in pre: st.assume(p)
        hy0 = list(st.hyps)
        st.vars["g:cout"] = Stream(); st.vars["g:cerr"] = Stream()
        name, label = Opaque("the file name"), Opaque("the field name")
        invoke(I, st, f[0], None, name, CVec(n), CVec(lo), CVec(hi), SVec(ntot, lambda i: F(Z(i))), label)
        U.vacuity(eng, hy0, "writeVTK"); U.discharge(eng)
        it = the_file(U, st, name, lambda x: x is name)
        if it is None: return
        D = V.doc(U, st, it, hy0, "writeVTK")
        if D is None: return
        V.separation(U, eng, D)
        U.fact("the grid is structured", D.kind == "STRUCTURED_GRID", detail=D.kind)
        if D.kind != "STRUCTURED_GRID": return
        D3 = D.dims
        for j in range(3):
            if j < nd: U.equal(eng, hy0, "axis %d: one node more than cells" % j, D3[j], add(n[j], 1))
            else: U.goal(eng, hy0, "axis %d: a single layer of cells" % j, bor(eq(D3[j], 1), eq(D3[j], 2)))
        U.equal(eng, hy0, "as many points declared as nodes", D.npoints, prod(D3))
        U.equal(eng, hy0, "three coordinates per point written", D.points.len, mul(3, D.npoints))
        # node with indices x: position in the file, first index fastest
        E = [add(n[j], 1) if j < nd else D3[j] for j in range(3)]
        x = [z3.Int("node%d" % j) for j in range(3)]
        rng = [z3.And(a >= 0, Z(lt(a, e))) for a, e in zip(x, E)]
        p = add(x[0], mul(E[0], add(x[1], mul(E[1], x[2]))))
        q = z3.Int("point"); qd = [fmod(q, E[0]), fmod(fdiv(q, E[0]), E[1]), fdiv(fdiv(q, E[0]), E[1])]
        hints = [Z(ge(mul(x[j], E[k]), 0)) for j in range(3) for k in range(3) if j != k] + [Z(ge(mul(sub(sub(E[j], 1), x[j]), E[k]), 0)) for j in range(3) for k in range(3) if j != k]
        hints += [Z(ge(mul(x[2], mul(E[0], E[1])), 0)), Z(ge(mul(sub(sub(E[2], 1), x[2]), mul(E[0], E[1])), 0))]
        val = lambda j, i: add(lo[j], rdiv(mul(sub(hi[j], lo[j]), z3.ToReal(Z(i))), z3.ToReal(n[j])))
        for j in range(nd):
            nm = "coordinate %d of every node: uniform from corner to corner, first index fastest" % j
            T = Tactic(eng, hy0 + [q >= 0, Z(lt(q, prod(E)))], 3000, ())
            try: ok = T.equal(D.points.get(add(mul(3, q), j)), val(j, qd[j]), []) is None        # by position
            except OutOfTime: ok = False
            r = None if ok else nest_path(D.points.pieces, [x[2], x[1], x[0]], j)                 # by loop indices
            if r is not None:
                V2 = UnitCtx(U.name, U.kinds, U.tmul)
                ok = V2.equal(eng, hy0 + rng, nm, r[0], add(mul(3, p), j), hints=hints) and V2.goal(eng, hy0 + rng, nm, r[1]) and V2.equal(eng, hy0 + rng, nm, r[2], val(j, x[j]), hints=hints)
            if ok: U.add(nm, "post", "proved", "ring+z3")
            else: U.equal(eng, hy0 + rng, nm, D.points.get(add(mul(3, p), j)), val(j, x[j]), hints=hints)   # by indices
        c = z3.Int("c")
        V.common(U, eng, hy0, D, ntot, F(c), None, [c >= 0, Z(lt(c, ntot))], c)
    return run
def save_unit(prog, nd):
    def run(U):
        eng0, I0, st, g, cls, tu = W.construct(U, prog, nd)
        f = W.method(tu, cls, "saveVTK")
        eng = U.engine("%s: %s::saveVTK" % (W.PROGRAMS[prog], cls)); I = Interp(eng, tu)
        st.vars["self"] = obj0 = W.arbitrary_fields(st.vars["self"])
        for r, v in list(st.vars.items()):
            if isinstance(v, Stream): st.vars[r] = Stream()
        hy0 = list(st.hyps); name = Opaque("the file name")
        invoke(I, st, f, ("self",), name)
        U.vacuity(eng, hy0, "saveVTK"); U.discharge(eng)
        from vcg.loops import changed
        U.fact("the object is not modified", not changed(State({"self": obj0}), State({"self": st.vars["self"]})))
        it = the_file(U, st, name, lambda x: x is name)
        if it is None: return
        D = V.doc(U, st, it, hy0, "saveVTK")
        if D is None: return
        V.separation(U, eng, D)
        c = z3.Int("c"); Fd = W.field(obj0)
        V.rectilinear(U, eng, hy0, D, list(reversed(g.n)), list(reversed(g.L)), g.ntot, Fd.get(c), None, [c >= 0, Z(lt(c, g.ntot))], c)
    return run
def units():
    u = [("writeVTK %dd" % nd, write_unit(nd)) for nd in (1, 2, 3)]
    for p in W.PROGRAMS:
        u.append((p + " saveVTK", save_unit(p, 3)))
    return u
