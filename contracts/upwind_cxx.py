"""Contracts of the C++ upwind programs (upwind/cxx/*.cxx): class Upwind and main."""
from vcg.core import *
from vcg.cppfe import TU, Interp, default_value, SQRT, REPO, strip_ref, ctype
from vcg.lemma import Tactic
from vcg.loops import changed, pname, leaves
import os, tempfile

from vcg.directives import translate
PROGRAMS = {"upwind": "upwind.cxx", "upwindOMPTasks": "upwindOMPTasks.cxx", "upwindAcc": "upwindAcc.cxx", "upwindAcc2": "upwindAcc2.cxx", "upwindOMP5": "upwindOMP5.cxx"}
IMAX = 2**31 - 1

def source(prog): return os.path.join(REPO, "upwind/cxx", PROGRAMS[prog])

def load(prog, nd=3, extra=("main",), data=None):
    """the translation unit, instantiated in nd dimensions; accelerator directives become OpenMP ones"""
    d = tempfile.mkdtemp(prefix="verif-tu-")
    p = os.path.join(d, "tu.cxx")
    try:
        with open(source(prog)) as f: text = translate(f.read(), data)
        with open(p, "w") as f: f.write(text + '\ntemplate class Upwind<%d>;\n' % nd)
        return TU(p, ["Upwind"] + list(extra), ["-fopenmp", "-DHAVE_OPENMP"])
    finally:
        os.unlink(p); os.rmdir(d)

class Grid:
    """symbolic problem: velocity, lengths, cell counts (any values that the contract admits)"""
    def __init__(self, nd):
        self.nd = nd
        self.v = [z3.Real("v%d" % j) for j in range(nd)]
        self.L = [z3.Real("L%d" % j) for j in range(nd)]
        self.n = [z3.Int("n%d" % j) for j in range(nd)]
        self.ntot = self.prod(self.n)
        # precondition of the class: positive lengths, at least one cell per axis, the number of cells fits
        # the integer type used for it, and twice a size fits in int (the periodic wrap adds the size once)
        self.pre = [l > 0 for l in self.L] + [n >= 1 for n in self.n] + [self.ntot <= IMAX] + [n <= 2**30 - 1 for n in self.n]
        # consequences (proved by lemmas())
        self.lem = []
        for j in range(nd):
            for k in range(j + 1, nd + 1):
                if k - j < nd and k - j >= 1: self.lem.append(self.prod(self.n[j:k]) <= self.ntot); self.lem.append(self.prod(self.n[j:k]) >= 1)
        self.lem.append(self.ntot >= 1)
    def prod(self, xs):
        r = xs[0]
        for x in xs[1:]: r = r * x
        return r
    def flat(self, ii):
        r = ii[0]
        for j in range(1, self.nd): r = r * self.n[j] + ii[j]
        return r
    def cell(self, name="i"):
        ii = [z3.Int("%s%d" % (name, j)) for j in range(self.nd)]
        rng = [i >= 0 for i in ii] + [i < n for i, n in zip(ii, self.n)]
        return ii, rng
    def hints(self, ii):
        """products of non-negative factors (instances of multiplication monotonicity)"""
        out = []
        for j in range(self.nd):
            for k in range(j + 1, self.nd):
                out.append((self.n[j] - 1 - ii[j]) * self.prod(self.n[j + 1:k + 1]) >= 0)
                out.append(ii[j] * self.prod(self.n[j + 1:k + 1]) >= 0)
        return out
    def up(self, ii, j):
        u = list(ii)
        u[j] = z3.If(self.v[j] < 0, z3.If(ii[j] == self.n[j] - 1, 0, ii[j] + 1), z3.If(ii[j] == 0, self.n[j] - 1, ii[j] - 1))
        return u
    def splits(self, ii):
        out = []
        for j in range(self.nd): out += [self.v[j] < 0, ii[j] == self.n[j] - 1, ii[j] == 0]
        return out
    def delta(self, j): return self.L[j] / z3.ToReal(self.n[j])
    def courant(self, j, dt): return z3.If(self.v[j] < 0, -self.v[j], self.v[j]) * dt / self.delta(j)
    def step(self, old, ii, dt):
        """the first-order upwind update of cell ii; old maps an index set to a value"""
        r = old(ii)
        for j in range(self.nd): r = r - self.courant(j, dt) * (old(ii) - old(self.up(ii, j)))
        return r

def lemmas(U, nd):
    g = Grid(nd)
    e = U.engine("lemma: partial products of the cell counts are bounded by their product")
    for f in g.lem: U.goal(e, [z for z in g.pre if True], "partial product bound: %s" % f, f, kind="lemma")
    ii, rng = g.cell()
    hyp = g.pre + g.lem + rng
    for h in g.hints(ii): U.goal(e, rng + [n >= 1 for n in g.n], "monotonicity instance: %s" % h, h, kind="lemma")
    U.goal(e, hyp + g.hints(ii), "flat index of a cell is in range", z3.And(g.flat(ii) >= 0, g.flat(ii) < g.ntot), kind="lemma")
    # the flat index is onto: every position is the flat index of its digits
    i = z3.Int("i")
    q = i; digs = []
    for j in reversed(range(1, nd)):
        digs.insert(0, IMOD(q, g.n[j])); q = IDIV(q, g.n[j])
    digs.insert(0, q)
    U.goal(e, g.pre + [i >= 0, i < g.ntot], "every position is the flat index of its digits", eq(g.flat(digs), i), kind="lemma")
    for j in range(1, nd): U.goal(e, g.pre + [i >= 0, i < g.ntot], "digit %d in range" % j, band(ge(digs[j], 0), lt(digs[j], g.n[j])), kind="lemma")

def construct(U, prog, nd, tu=None):
    """run the constructor on an arbitrary problem: returns (engine, interp, state, grid, class name)"""
    tu = tu or load(prog, nd)
    cls = "Upwind<%d>" % nd
    g = Grid(nd)
    if cls not in tu.fields: raise Unsupported("class %s not found" % cls)
    eng = U.engine("%s: %s::Upwind" % (PROGRAMS[prog], cls)); I = Interp(eng, tu)
    st = State()
    for f in g.pre + g.lem: st.assume(f)
    ct = [f for f in tu.funcs if f.cls == cls and f.node["kind"] == "CXXConstructorDecl" and len(f.params) == 3]
    if not ct: raise Unsupported("constructor not found")
    f = ct[0]
    st.vars.update(velocity=CVec(g.v), lengths=CVec(g.L), numCells=CVec(g.n))
    st.vars["self"] = default_value(I, cls, False)
    frame = {}
    for p, nm in zip(f.params, ("velocity", "lengths", "numCells")):
        frame[p["id"]] = (nm,)
    I.run_body(st, f, ("self",), frame)
    return eng, I, st, g, cls, tu

def arbitrary_fields(obj):
    """the same object with arbitrary contents in its arrays (class invariant: everything else is as constructed)"""
    out = obj
    for k, v in obj.fields.items():
        if isinstance(v, SVec):
            F = z3.Function("F_" + k, INT, REAL)
            out = out.with_(k, SVec(v.len, (lambda F: lambda i: F(Z(i)))(F)))
    return out

def method(tu, cls, name):
    fs = [f for f in tu.funcs if f.cls == cls and f.name == name]
    if not fs: raise Unsupported("method %s not found" % name)
    return fs[0]

def field(obj, name="f"):
    if name not in obj.fields or not isinstance(obj.fields[name], SVec): raise Unsupported("field array %s not found" % name)
    return obj.fields[name]

def ctor_unit(prog, nd):
    def run(U):
        eng, I, st, g, cls, tu = construct(U, prog, nd)
        U.vacuity(eng, g.pre, "Upwind::Upwind")
        U.discharge(eng)
        f = field(st.vars["self"])
        ii, rng = g.cell()
        hy = st.hyps + rng
        U.goal(eng, hy, "the field has one value per cell", eq(f.len, g.ntot), kind="post")
        zero = band(*[eq(i, 0) for i in ii])
        U.equal(eng, hy, "the field is one in the low corner cell and zero elsewhere", f.get(g.flat(ii)), ite(zero, Fraction(1), Fraction(0)), splits=[i == 0 for i in ii], hints=g.hints(ii))
    return run

def advect_unit(prog, nd):
    def run(U):
        eng0, I0, st, g, cls, tu = construct(U, prog, nd)
        f = method(tu, cls, "advect")
        eng = U.engine("%s: %s::advect" % (PROGRAMS[prog], cls)); I = Interp(eng, tu)
        st.vars["self"] = arbitrary_fields(st.vars["self"])
        obj0 = st.vars["self"]
        N, dt = z3.Int("numTimeSteps"), z3.Real("deltaTime")
        st.assume(z3.And(N >= 0, N <= IMAX))
        multi = len(f.params) == 2
        frame = {}
        for p in f.params:
            t = strip_ref(ctype(p["type"]))
            nm = "N" if t == "int" else "dt"
            frame[p["id"]] = (nm,); st.vars[nm] = N if nm == "N" else dt
        hy0 = list(st.hyps)
        I.run_body(st, f, ("self",), frame)
        U.vacuity(eng, hy0, "Upwind::advect")
        U.discharge(eng, extra=())
        obj = st.vars["self"]
        for k, v in obj0.fields.items():
            if isinstance(v, SVec): U.goal(eng, st.hyps, "frame: length of %s unchanged" % k, eq(obj.fields[k].len, v.len), kind="post"); continue
            for (p, a) in leaves(v, (("f", k),)):
                b = obj.fields[k]
                from vcg.loops import lget
                b = lget(obj, p)
                if is_z(a) or isinstance(a, (int, Fraction)): U.goal(eng, st.hyps, "frame: %s unchanged" % k, eq(a, b), kind="post")
        ii, rng = g.cell()
        fin = field(obj)
        hints = g.hints(ii)
        if not multi:
            old = lambda a: field(obj0).get(g.flat(a))
            U.equal(eng, hy0 + rng, "one call advances every cell by the upwind scheme", fin.get(g.flat(ii)), g.step(old, ii, dt), g.splits(ii), hints)
            return
        m = fin.meta
        if m is None or getattr(m, "kind", "") != "array": raise Unsupported("the time step loop has no recursion for the field")
        k = z3.Int("step")
        U.goal(eng, hy0, "the number of steps performed is the number requested", eq(m.N, N))
        U.equal(eng, hy0 + rng, "before the first step the field is the one at entry", m.init.get(g.flat(ii)), field(obj0).get(g.flat(ii)), (), hints)
        t = subst(m.step.get(g.flat(ii)), [(m.kap, k)])
        old = lambda a: m.fn(k, g.flat(a))
        U.equal(eng, hy0 + rng + [k >= 0, k < N], "every step advances every cell by the upwind scheme", t, g.step(old, ii, dt), g.splits(ii), hints)
    return run

# ----------------------------------------------------------------------------- sums
from .sums import rec_of, sum_goal
def diag_unit(prog, nd, what):
    def run(U):
        eng0, I0, st, g, cls, tu = construct(U, prog, nd)
        if what == "std" and not [f for f in tu.funcs if f.cls == cls and f.name == "std"]: return
        f = method(tu, cls, what)
        eng = U.engine("%s: %s::%s" % (PROGRAMS[prog], cls, what)); I = Interp(eng, tu)
        st.vars["self"] = obj0 = arbitrary_fields(st.vars["self"])
        hy0 = list(st.hyps)
        r = I.run_body(st, f, ("self",), {})
        U.vacuity(eng, hy0, what)
        U.discharge(eng)
        U.fact("the object is not modified", not changed(State({"self": obj0}), State({"self": st.vars["self"]})))
        F = lambda k: field(obj0).get(k)
        if what == "checksum":
            sum_goal(U, eng, hy0, "result is the sum of the values of all cells", r, g.ntot, F); return
        # sqrt( sum (f - mean)^2 / ntot ), mean = sum / ntot
        if not (is_z(r) and z3.is_app(r) and r.decl().eq(SQRT)): raise Unsupported("std does not return a square root")
        x = r.arg(0)
        cands = [q for L in eng.loops for q in getattr(L, "recs", {}).values() if q.kind == "scalar"]
        done = False
        main_rec = None
        for q in cands:
            at = q.fn(q.N)
            A = Tactic(eng, st.hyps)
            if A.equal(x, rdiv(at, g.ntot)) is None: main_rec = q
        U.fact("result is the square root of a loop's sum divided by the number of cells", main_rec is not None)
        if main_rec is None: return
        sums = [q for q in cands if q is not main_rec]
        if not sums: raise Unsupported("std: no loop for the mean")
        m = sums[-1]
        S = m.fn(m.N)
        sum_goal(U, eng, hy0, "the mean uses the sum over all cells", S, g.ntot, F)
        mean = rdiv(S, g.ntot)
        sum_goal(U, eng, hy0, "sum of squared deviations", main_rec.fn(main_rec.N), g.ntot, lambda k: mul(sub(F(k), mean), sub(F(k), mean)))
    return run
def print_unit(prog, nd):
    def run(U):
        eng0, I0, st, g, cls, tu = construct(U, prog, nd)
        if not [f for f in tu.funcs if f.cls == cls and f.name == "print"]: return
        eng = U.engine("%s: %s::print" % (PROGRAMS[prog], cls)); I = Interp(eng, tu)
        st.vars["self"] = arbitrary_fields(st.vars["self"]); st.vars["g:cout"] = Stream(); st.vars["g:cerr"] = Stream()
        I.run_body(st, method(tu, cls, "print"), ("self",), {})
        U.discharge(eng)
    return run
