"""Contracts of the serial Python upwind program (upwind/python/upwind.py): class Upwind."""
from vcg.core import *
from vcg.pyfe import PyModule, PInterp, PFrame, Func, Arr, PList, Inst, Handle, scal
from vcg.cppfe import REPO
from vcg.loops import changed, leaves, lget
from .upwind_cxx import Grid
from .sums import sum_goal
import os

DIR = os.path.join(REPO, "upwind/python")
def source(): return os.path.join(DIR, "upwind.py")
def load(): return PyModule(source())
def construct(U, nd, mod=None, title="Upwind.__init__"):
    """run the constructor on an arbitrary problem -> engine, interpreter, state, grid, instance, argument handles"""
    mod = mod or load(); cls = mod.cls("advect"); g = Grid(nd)
    eng = U.engine("upwind.py: %s (%d dimensions)" % (title, nd)); I = PInterp(eng, mod, [DIR]); st = State()
    for f in g.pre + g.lem: st.assume(f)
    st.vars["nd#velocity"] = CVec(g.v); st.vars["nd#lengths"] = CVec(g.L); st.vars["list#numCells"] = CVec(g.n)
    args = [Arr("nd#velocity", (nd,), "f"), Arr("nd#lengths", (nd,), "f"), PList("list#numCells")]
    I.frames.append(PFrame("top.", mod))
    o = I.instantiate(st, cls, args, {})
    return eng, I, st, g, o
def field(st, o, name="f"):
    """the field: a one-dimensional real array"""
    v = st.vars[o.root].fields.get(name)
    if not isinstance(v, Arr) or v.dt != "f" or v.rank != 1: raise Unsupported("attribute %s is not a vector of reals" % name)
    return v
def args_unchanged(U, eng, hy, st, g):
    for root, want, nm in (("nd#velocity", g.v, "velocity"), ("nd#lengths", g.L, "lengths"), ("list#numCells", g.n, "numCells")):
        it = st.vars[root]
        if it.len != len(want): U.fact("frame: argument %s unchanged" % nm, False); continue
        for a, b in zip(it.items, want): U.goal(eng, hy, "frame: argument %s unchanged" % nm, eq(a, b))
def ctor_unit(nd):
    def run(U):
        eng, I, st, g, o = construct(U, nd)
        U.vacuity(eng, g.pre, "Upwind.__init__"); U.discharge(eng)
        f = field(st, o); ii, rng = g.cell(); hy = st.hyps + rng
        U.goal(eng, hy, "the field has one value per cell", eq(f.shape[0], g.ntot))
        zero = band(*[eq(i, 0) for i in ii])
        U.equal(eng, hy, "the field is one in the low corner cell and zero elsewhere", I.getter(st, f)((g.flat(ii),)), ite(zero, Fraction(1), Fraction(0)), splits=[i == 0 for i in ii], hints=g.hints(ii))
        args_unchanged(U, eng, st.hyps, st, g)
    return run
def arbitrary(st, o):
    """the object with an arbitrary field (class invariant: everything else is as constructed); -> element function"""
    f = field(st, o); F = z3.Function("F_f", INT, REAL); base = st.vars[f.root]
    if base.rank != 1: raise Unsupported("the field is a view of an array of higher rank")
    G = (lambda i: F(Z(i))) if f.imap is None else None
    if G is None: raise Unsupported("the field is a view")
    st.vars[f.root] = SVec(base.len, G)
    return lambda i: F(Z(i))
def attrs(st, o): return st.vars[o.root].fields
def changes(eng, hy, before, after, o, g, froot=None):
    """attributes other than the field whose value is not the one before"""
    A, B = attrs(before, o), attrs(after, o); out = []
    for k, b in B.items():
        if k == "f": continue
        if k not in A: out.append(k); continue
        a = A[k]
        if scal(a) and scal(b):
            if a is not b and eng.prover.check(hy, eq(a, b), 2000)[0] != "proved": out.append(k)
        elif isinstance(a, (Arr, PList)) and isinstance(b, type(a)):
            if a.root == froot: continue
            x, y = before.vars[a.root], after.vars[b.root]
            if x is y: continue
            if isinstance(x, CVec) and isinstance(y, CVec) and x.len == y.len and all(scal(p) and scal(q) and eng.prover.check(hy, eq(p, q), 2000)[0] == "proved" for p, q in zip(x.items, y.items)): continue
            if isinstance(x, SVec) and isinstance(y, SVec) and same_array(eng, hy, x, y, g): continue
            out.append(k)
        elif a is b or hasattr(a, "same_as") and a.same_as(b): continue
        else: out.append(k)
    return out + [k for k in A if k not in B]
def havoc(I, st, o, names):
    """arbitrary values in the attributes an earlier call may have left behind"""
    for k in names:
        v = attrs(st, o).get(k)
        if scal(v) and (is_z(v) or isinstance(v, (int, Fraction))) and not isinstance(v, bool):
            I.setattr(st, o, k, I.eng.fresh("old_" + k, REAL if isinstance(v, Fraction) or is_z(v) and v.sort() == REAL else INT))
        elif isinstance(v, Arr) and isinstance(st.vars[v.root], SVec):
            w = st.vars[v.root]; F = z3.Function("old_%s_%d" % (k, next(I.eng.names)), *([INT] * w.rank), REAL if v.dt == "f" else INT)
            st.vars[v.root] = SVec(w.len, (lambda F: lambda i: F(*[Z(x) for x in (i if isinstance(i, tuple) else (i,))]))(F), (), None, w.rank)
        else: raise Unsupported("advect changes attribute %s" % k)
def call_advect(U, I, eng, st, g, o, name):
    """one call from the present state with an arbitrary field; the update of every cell"""
    F = arbitrary(st, o); before = st.copy(); n0 = field(st, o).shape[0]; dt = eng.fresh("deltaTime", REAL); hy0 = list(st.hyps)
    I.call_func(st, I.getattr(st, o, "advect"), [dt], {})
    U.discharge(eng); eng.obls.clear()
    f = field(st, o)
    U.goal(eng, st.hyps, name + "number of values unchanged", eq(f.shape[0], n0))
    args_unchanged(U, eng, st.hyps, st, g)
    ii, rng = g.cell(); old = lambda a: F(g.flat(a))
    U.equal(eng, hy0 + rng, name + "one call advances every cell by the upwind scheme", I.getter(st, f)((g.flat(ii),)), g.step(old, ii, dt), g.splits(ii), g.hints(ii))
    return before, hy0
def advect_unit(nd):
    def run(U):
        _, I0, st, g, o = construct(U, nd)
        eng = U.engine("upwind.py: Upwind.advect (%d dimensions)" % nd); I = PInterp(eng, I0.mod, [DIR]); I.frames.append(PFrame("top.", I0.mod))
        U.vacuity(eng, st.hyps, "Upwind.advect")
        before, hy0 = call_advect(U, I, eng, st, g, o, "")
        ch = changes(eng, hy0, before, st, o, g, field(before, o).root)
        U.fact("class invariant: state other than the field found as after construction, or whatever it is (%s)" % (", ".join(ch) or "nothing else changes"), True)
        if not ch: return
        from vcg.frame import UnitCtx
        T = UnitCtx(U.name, U.kinds, U.tmul); s2 = st.copy(); ok = False
        try:
            havoc(I, s2, o, ch); call_advect(T, I, eng, s2, g, o, "after any earlier calls: ")
            ok = all(x["status"] == "proved" for x in T.obls)
        except Unsupported: pass
        if ok: U.obls += T.obls; return
        eng.obls.clear(); call_advect(U, I, eng, st.copy(), g, o, "second call: ")
        raise Unsupported("a call changes %s: histories longer than two calls are not covered" % ", ".join(ch))
    return run
def same_array(eng, hy, x, y, g):
    """a scratch array: the same contents afterwards"""
    from vcg.lemma import Tactic
    ix = tuple(z3.Int("q%d" % j) for j in range(x.rank)); i = ix if x.rank > 1 else ix[0]
    if x.rank != y.rank: return False
    rng = [q >= 0 for q in ix] + [Z(lt(q, n)) for q, n in zip(ix, x.len if x.rank > 1 else (x.len,))]
    try: return Tactic(eng, list(hy) + rng, 4000).equal(x.get(i), y.get(i), []) is None
    except Exception: return False
def checksum_unit(nd):
    def run(U):
        _, I0, st, g, o = construct(U, nd)
        eng = U.engine("upwind.py: Upwind.checksum (%d dimensions)" % nd); I = PInterp(eng, I0.mod, [DIR]); I.frames.append(PFrame("top.", I0.mod))
        F = arbitrary(st, o); before = st.copy(); hy0 = list(st.hyps)
        r = I.call_func(st, I.getattr(st, o, "checksum"), [], {})
        U.vacuity(eng, hy0, "Upwind.checksum"); U.discharge(eng)
        f0, f1 = field(before, o), field(st, o)
        U.fact("the field is not modified", f0.root == f1.root and not changed(State({"f": before.vars[f0.root]}), State({"f": st.vars[f1.root]})))
        sum_goal(U, eng, hy0, "result is the sum of the values of all cells", r, g.ntot, F)
    return run
def save_unit(nd):
    """the VTK file written for an arbitrary field (class invariant: everything else is as constructed)"""
    def run(U):
        from . import vtkfile as V
        _, I0, st, g, o = construct(U, nd)
        eng = U.engine("upwind.py: Upwind.saveVTK (%d dimensions)" % nd); I = PInterp(eng, I0.mod, [DIR]); I.frames.append(PFrame("top.", I0.mod))
        F = arbitrary(st, o); before = st.copy(); hy0 = list(st.hyps); name = Opaque("the file name")
        I.call_func(st, I.getattr(st, o, "saveVTK"), [name], {})
        U.vacuity(eng, hy0, "Upwind.saveVTK"); U.discharge(eng)
        U.fact("the field is not modified", field(before, o).root == field(st, o).root and not changed(State({"f": before.vars[field(before, o).root]}), State({"f": st.vars[field(st, o).root]})))
        args_unchanged(U, eng, hy0, st, g)
        if len(I.files) != 1: U.fact("one file is written", False, detail=str(I.files)); return
        it = st.vars[I.files[0]].items; op = [x for x in it if isinstance(x, tuple) and x[0] == "open"]; cl = [x for x in it if isinstance(x, tuple) and x[0] == "close"]
        U.fact("the file named by the argument is opened once, before anything is written", len(op) == 1 and op[0][1] is name and it[0] is op[0], detail=str(op))
        if cl: U.fact("nothing is written to the file after it is closed", len(cl) == 1 and it[-1] is cl[0], detail=str(it[-3:]))
        D = V.doc(U, st, [x for x in it if x not in cl], hy0, "Upwind.saveVTK")
        if D is None: return
        V.separation(U, eng, D)
        # axes of a single node are left out; the others are the problem's axes, last one first
        live = [a for a in range(3) if is_z(unz(D.dims[a])) or unz(D.dims[a]) != 1] if D.kind == "RECTILINEAR_GRID" else []
        if D.kind == "RECTILINEAR_GRID" and len(live) != nd: U.fact("as many axes with several nodes as dimensions", False, detail=str(D.dims)); return
        sizes, lens = [None] * 3, [None] * 3
        for a, j in zip(live, reversed(range(nd))): sizes[a], lens[a] = g.n[j], g.L[j]
        c = z3.Int("c")
        V.rectilinear(U, eng, hy0, D, sizes, lens, g.ntot, F(c), None, [c >= 0, Z(lt(c, g.ntot))], c)
    return run
