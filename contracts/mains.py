"""Contracts of the MPI drivers (upwind/cxx/upwindMpi.cxx, laplacian/cxx/laplacian.cxx).  The parser and the filter are
used through their contracts (proved for C12 and C05-C07): parse gives an option the value from the command line or its
default; the filter applies the stencil it was built with.  The filter's contract carries ghost state: how many times
the stencil has been applied to the initial data in the input (a) and in the output (b)."""
from .cxx_lib import *
from vcg.core import *
from vcg.cppfe import Ref, SIN, FuncPtr
from vcg.lemma import Tactic
import math

KINDS_ = {"double": "double", "int": "int", "bool": "bool", "std::basic_string<char>": "string"}
class Args:
    """contract of CmdLineArgParser"""
    def __init__(self, fixed=None): self.reg = {}; self.fixed = fixed or {}; self.vals = {}
    def value(self, nm, kind):
        if nm in self.fixed: return self.fixed[nm]
        if nm not in self.vals: self.vals[nm] = {"int": z3.Int, "bool": z3.Bool, "double": z3.Real}[kind]("opt" + nm)
        return self.vals[nm]
    def method(self, I, st, base, v, nm, args, n, want_ref):
        I.eng.called.add("CmdLineArgParser::" + nm)
        if nm in ("setPurpose", "setFooter", "help"): return None
        if nm == "set":
            k = I.rv(st, args[0]); d = I.rv(st, args[1])
            if not isinstance(k, str): raise Unsupported("option name is not a constant")
            t = strip_ref(ctype(args[1]["type"])); kind = "bool" if isinstance(d, bool) or t == "bool" else "double" if t == "double" else "int" if t == "int" else "string"
            self.reg[k] = (kind, d); return None
        if nm == "parse": return z3.Bool("parsed")
        if nm == "get":
            k = I.rv(st, args[0]); kind = KINDS_.get(canon_s(ctype(n["type"])))
            if not isinstance(k, str) or kind is None: raise Unsupported("option name is not a constant")
            if k == "-h": return z3.Bool("opt-h")
            I.eng.oblige(st, "option %s is registered with the type it is read as" % k, "post", k in self.reg and self.reg[k][0] == kind, I.loc(n))
            r = self.value(k, kind)
            if kind == "int" and is_z(r): st.assume(z3.And(r >= -2**31, r <= 2**31 - 1))
            return r
        raise Unsupported("CmdLineArgParser::" + nm)
def canon_s(t):
    t = strip_ref(t)
    return {"std::string": "std::basic_string<char>", "string": "std::basic_string<char>"}.get(t, t)

GHOST = ("ghost:filter",)
TOTAL = z3.Function("sum_over_cells_after", INT, REAL)     # of the field after so many applications of the stencil
def mentions(t, v):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(v): return True
        st.extend(x.children())
    return False
def local(I, nm):
    """a value that may differ from process to process"""
    return z3.Function("%s!%d" % (nm, next(I.eng.names)), INT, REAL)(z3.Int("rank"))
def collective(I, st, what, loc):
    """every process gets here: what is known at this point does not depend on the rank"""
    rk, other = z3.Int("rank"), z3.Int("other rank")
    hs = [h for h in st.hyps if z3.is_expr(h) and mentions(h, rk)]
    I.eng.oblige(st, "%s is called by every process" % what, "post", band(*[z3.substitute(h, (rk, other)) for h in hs]) if hs else True, loc)
class Flt:
    """contract of Filter, with its ghost state"""
    def __init__(self, C): self.C = C; self.built = 0
    def ctor(self, I, st, args, n):
        I.eng.called.add("Filter::Filter")
        v = [I.rv(st, a) for a in args]
        if len(v) != 4: raise Unsupported("Filter's constructor arguments")
        self.built += 1
        collective(I, st, "the filter's constructor", I.loc(n))
        self.C.at_ctor(I, st, v, n)
        st.write(GHOST, Obj("G", {"a": -1, "b": -1, "made": add(st.read(GHOST).fields["made"], 1)}))
        return Obj("FLT", {})
    def method(self, I, st, base, v, nm, args, n, want_ref):
        I.eng.called.add("Filter::" + nm); C = self.C; g = st.read(GHOST).fields; loc = I.loc(n)
        ob = lambda what, c: I.eng.oblige(st, what, "post", c, loc)
        put = lambda **k: [st.write(GHOST + (("f", x),), y) for x, y in k.items()]
        if nm in ("applyFilter", "computeCheckSum", "saveVTK"): collective(I, st, nm, loc)
        if nm == "getRank": return z3.Int("rank")
        if nm == "getNumProcs": return z3.Int("procs")
        if nm == "isDecompValid": return z3.Bool("valid")
        if nm in ("setInData", "setInDataByIndices"):
            f = I.rv(st, args[0])
            if not isinstance(f, FuncPtr): raise Unsupported("function given to " + nm)
            C.at_init(I, st, nm, f, n); put(a=0); return None
        if nm == "applyFilter": ob("the filter is applied to data that have been set", ge(g["a"], 0)); put(b=add(g["a"], 1)); return None
        if nm == "copyOutToIn": ob("what is copied to the input is a computed output", ge(g["b"], 0)); put(a=g["b"]); return None
        if nm == "computeCheckSum":
            w = I.rv(st, args[0]) if args else "?"
            def pick(w):       # anything but "input" stands for the output
                if isinstance(w, CondStr): return ite(w.c, pick(w.a), pick(w.b))
                if not isinstance(w, str): raise Unsupported("field to sum")
                return g["a" if w == "input" else "b"]
            try: k = pick(w)
            except Unsupported: return I.eng.fresh("checksum", REAL)
            return ite(z3.Int("rank") == 0, TOTAL(Z(k)), local(I, "checksum"))      # on the root: the sum over all the cells
        if nm == "saveVTK":
            ob("what is saved is the output of the last step", C.at_save(g)); return None
        if nm.startswith("print"): return None
        raise Unsupported("Filter::" + nm)
class DMpi:
    def call(self, I, st, nm, args, n):
        I.eng.called.add(nm)
        if nm in ("MPI_Reduce", "MPI_Barrier", "MPI_Finalize"): collective(I, st, nm, I.loc(n))
        if nm == "MPI_Wtime": return local(I, "wtime")
        if nm in ("MPI_Init", "MPI_Init_thread", "MPI_Finalize", "MPI_Barrier"):
            if nm == "MPI_Init_thread": self.put(I, st, args[3], I.eng.fresh("provided", INT), n)
            return 0
        if nm == "MPI_Comm_rank": self.put(I, st, args[1], z3.Int("rank"), n); return 0
        if nm == "MPI_Comm_size": self.put(I, st, args[1], z3.Int("procs"), n); return 0
        if nm == "MPI_Reduce": self.put(I, st, args[1], local(I, "reduced"), n); return 0
        raise Unsupported("call of " + nm)
    def put(self, I, st, a, v, n):
        p = I.rv(st, a)
        if not isinstance(p, Ptr) or p.path is None: raise Unsupported("pointer argument of an MPI call")
        I.write(st, p.path if getattr(p, "scalar", False) else p.path + (("i", p.off),), v, n)

def main_tu(src): return load('#include "%s"\n' % os.path.join(REPO, src), ["main", "initialCondition", "func"])
def run_main(U, src, C, fixed=None):
    tu = main_tu(src)
    ms = [f for f in tu.funcs if f.cls is None and f.name == "main"]
    if not ms: raise Unsupported("main not found")
    eng = U.engine("%s: main" % os.path.basename(src)); I = Interp(eng, tu)
    A = Args(fixed); F = Flt(C); C.args = A
    I.mpi = DMpi()
    I.models["CmdLineArgParser"] = lambda I, st, args, n: Obj("ARGS", {})
    I.models["Filter"] = F.ctor
    I.objmodels["ARGS"] = A.method; I.objmodels["FLT"] = F.method
    st = State(); st.vars["g:cout"] = Stream(); st.vars["g:cerr"] = Stream()
    st.write(GHOST, Obj("G", {"a": -1, "b": -1, "made": 0}))
    for f in C.pre() + [z3.Int("procs") >= 1]: st.assume(f)
    st.vars["argvec"] = SVec(z3.Int("argc"), lambda i: z3.IntVal(0)); argc = z3.Int("argc"); st.assume(z3.And(argc >= 1, argc <= 2**31 - 1))
    U.vacuity(eng, st.hyps, "main")
    hy = list(st.hyps)
    invoke(I, st, ms[0], None, *([argc, Ptr(("argvec",), 0)] if len(ms[0].params) == 2 else []))
    U.discharge(eng)
    return tu, eng, I, st, A, F, hy

class UpwindC:
    nd = 3
    def pre(self): self.n, self.steps = z3.Int("opt-numCells"), z3.Int("opt-numSteps"); return [self.n >= 1, self.n <= 2**31 - 1, self.steps >= 0, self.steps <= 2**31 - 1]
    def at_ctor(self, I, st, v, n):
        dims, xm, xx, sten = v; loc = I.loc(n); ob = lambda what, c: I.eng.oblige(st, what, "post", c, loc)
        nd = dims.len
        if not isint(nd): raise Unsupported("number of axes is not a constant")
        ob("the grid has three axes, each with the requested number of cells", band(nd == 3, *[eq(dims.get(j), self.n) for j in range(nd)]))
        ob("the domain is the unit cube", band(xm.len == nd, xx.len == nd, *[band(eq(xm.get(j), 0), eq(xx.get(j), 1)) for j in range(nd)]))
        E = stencil_of(sten)
        zero = (0,) * nd; e = [tuple(-1 if k == j else 0 for k in range(nd)) for j in range(nd)]
        ob("the stencil has the centre and the upwind neighbour of each axis, and nothing else", set(E) == set([zero] + e))
        if set(E) != set([zero] + e): return
        c = [E[k] for k in e]
        self.C = c
        ob("the centre weight is one minus the sum of the Courant numbers", eq(E[zero], sub(1, sum_(c))))
        ob("Courant numbers are positive and their sum is at most one", band(*[lt(0, x) for x in c], le(sum_(c), 1)))
        # Courant number of axis j: |v_j| dt / delta_j with one time step: equal speeds and cell sizes give equal numbers
        for j in range(1, nd): ob("equal speeds and cell sizes have equal Courant numbers (axis %d)" % j, eq(c[j], c[0]))
    def at_init(self, I, st, nm, f, n):
        loc = I.loc(n); ob = lambda what, c, s=st: I.eng.oblige(s, what, "post", c, loc)
        ob("the initial data are given by index set", nm == "setInDataByIndices")
        if nm != "setInDataByIndices": return
        s = st.copy(); x = [z3.Int("x%d" % j) for j in range(3)]
        for a in x: s.assume(z3.And(a >= 0, a < self.n))
        # the sum of three indices fits in int for grids that fit in memory (n <= 2^29)
        s.assume(self.n <= 2**29)
        r = apply(I, s, f, CVec(x), n)
        ob("the initial data are one in the cell with all-zero indices and zero elsewhere", eq(r, ite(band(*[eq(a, 0) for a in x]), Fraction(1), Fraction(0))), s)
    def at_save(self, g): return bor(eq(self.steps, 0), eq(g["b"], self.steps))
    def post(self, g, run): return [("the stencil is applied once per requested step, each time to the previous result", implies(run, eq(g["a"], self.steps))),
                                    ("the final output is that of the last step", implies(band(run, gt_(self.steps, 0)), eq(g["b"], self.steps)))]
def gt_(a, b): return lt(b, a)
def sum_(xs):
    r = 0
    for x in xs: r = add(r, x)
    return r
def stencil_of(m):
    if not isinstance(m, CMap): raise Unsupported("the stencil is not a map with constant keys")
    out = {}
    for k, (p, v) in m.entries.items():
        if p is False: continue
        if p is not True: raise Unsupported("a stencil branch is inserted conditionally")
        out[tuple(k)] = v
    return out
def apply(I, st, f, v, n):
    r = I.fresh_root("fnarg"); st.vars[r] = v
    fs = I.tu.find(None, f.name)
    if not fs: raise Unsupported("function %s not found" % f.name)
    return invoke(I, st, fs[0], None, v)
PI = Fraction("3.14159265358979323846")
def snap_pi(t):
    """constants within rounding of pi or 2 pi are read as such"""
    if z3.is_rational_value(t):
        q = t.as_fraction()
        for k in (1, 2):
            if abs(q - k * PI) < Fraction(1, 10**14): return z3.RealVal(k * PI)
        return t
    if not z3.is_app(t) or t.num_args() == 0: return t
    return z3.simplify(t.decl()(*[snap_pi(c) for c in t.children()]))
class LaplC:
    def __init__(self, nd): self.nd = nd
    def pre(self): self.n = z3.Int("opt-numCells"); return [self.n >= 1, self.n <= 2**31 - 1]
    def at_ctor(self, I, st, v, n):
        dims, xm, xx, sten = v; loc = I.loc(n); ob = lambda what, c: I.eng.oblige(st, what, "post", c, loc); nd = self.nd
        ob("the grid has the requested number of axes, each with the requested number of cells", band(eq(dims.len, nd), *[eq(dims.get(j), self.n) for j in range(nd)]))
        ob("the domain is the unit cube", band(eq(xm.len, nd), eq(xx.len, nd), *[band(eq(xm.get(j), 0), eq(xx.get(j), 1)) for j in range(nd)]))
        E = stencil_of(sten)
        zero = (0,) * nd; e = [tuple(s if k == j else 0 for k in range(nd)) for j in range(nd) for s in (1, -1)]
        ob("the stencil has the centre and both neighbours along each axis, and nothing else", set(E) == set([zero] + e))
        if set(E) != set([zero] + e): return
        ob("the centre weight is minus two per axis", eq(E[zero], -2 * nd))
        for k in e: ob("the weight of the neighbour %s is one" % (k,), eq(E[k], 1))
    def at_init(self, I, st, nm, f, n):
        loc = I.loc(n); ob = lambda what, c, s=st: I.eng.oblige(s, what, "post", c, loc)
        ob("the initial data are given by position", nm == "setInData")
        if nm != "setInData": return
        s = st.copy(); x = [z3.Real("x%d" % j) for j in range(self.nd)]
        r = apply(I, s, f, CVec(x), n)
        w = Fraction(1)
        for a in x: w = mul(w, SIN(Z(mul(2 * PI, a))))
        ob("the initial data are the product of sin(2 pi x) over the axes", eq(snap_pi(Z(r)), w), s)
    def at_save(self, g): return ge(g["b"], 1)
    def post(self, g, run): return [("the stencil is applied to the initial data", implies(run, ge(g["b"], 1)))]
def unit(src, C, fixed=None):
    def run(U):
        tu, eng, I, st, A, F, hy = run_main(U, src, C, fixed)
        g = st.read(GHOST).fields
        runs = band(z3.Bool("parsed"), bnot(z3.Bool("opt-h")), z3.Bool("valid"))
        U.goal(eng, hy, "one filter is built whenever the command line is parsed and no help is asked for", implies(band(z3.Bool("parsed"), bnot(z3.Bool("opt-h"))), eq(g["made"], 1)))
        for nm, c in C.post(g, runs): U.goal(eng, st.hyps, nm, c)
        for k in C.options: U.fact("option %s is an integer option with a default of at least one" % k, k in A.reg and A.reg[k][0] == "int" and isint(A.reg[k][1]) and A.reg[k][1] >= 1)
    return run
UpwindC.options = ("-numCells", "-numSteps"); LaplC.options = ("-numCells", "-numDims")
DIMS = (1, 2, 3, 4)
def report_unit(src, C, fixed=None):
    """C20: the check sums the root prints at the end are those of the input and output fields"""
    def run(U):
        from .drivers import scan, R, isnum
        tu, eng, I, st, A, F, hy = run_main(U, src, C, fixed); g = st.read(GHOST).fields
        runs = band(z3.Bool("parsed"), bnot(z3.Bool("opt-h")), z3.Bool("valid"), z3.Int("rank") == 0, ge(g["b"], 0))
        _, toks, blur = scan(st.vars["g:cout"].items, True)
        S = [(c, v, l.lower()) for c, v, l in toks if "sum" in l.lower()]
        if not S and blur: raise Unsupported("the output printed is not text and numbers")
        is_ = lambda v, k: eq(R(v), TOTAL(Z(g[k]))) if is_z(v) or isnum(v) else False
        out = [(c, v) for c, v, l in S if l.rfind("input") <= l.rfind("output")]; inp = [(c, v) for c, v, l in S if l.rfind("input") > l.rfind("output")]
        U.goal(eng, st.hyps, "the root prints the check sum of the final output", implies(runs, bor(*[band(c, is_(v, "b")) for c, v in out])))
        for nm, L, k in (("output", out, "b"), ("input", inp, "a")):
            U.goal(eng, st.hyps, "what is printed last as the check sum of the %s is that" % nm, implies(runs, band(*[implies(c, is_(v, k)) for c, v in L])))
    return run
def report_units(): return [("upwindMpi.cxx: main, report", report_unit("upwind/cxx/upwindMpi.cxx", UpwindC()))] + [("laplacian.cxx: main, report, %d-d" % d, report_unit("laplacian/cxx/laplacian.cxx", LaplC(d), {"-numDims": d})) for d in (1, 2, 3)]
def units(): return [("upwindMpi.cxx: main", unit("upwind/cxx/upwindMpi.cxx", UpwindC()))] + [("laplacian.cxx: main, %d-d" % d, unit("laplacian/cxx/laplacian.cxx", LaplC(d), {"-numDims": d})) for d in DIMS]
