"""C22: the main programs of the upwind codes run the problem asked for on the command line.  Class Upwind is used through
its contract (C08, C13, C14, C19): the constructor makes the initial field of the problem given, advect makes steps of the
scheme.  Ghost state: objects made, steps done, the step count when the check sum was last taken and a file last written."""
from .cxx_lib import *
from .cxx_lib import invoke
from vcg.core import *
from vcg.cppfe import Interp, strip_ref, ctype
from . import upwind_cxx as W, mains as M, fort as F, pymain as PM
from vcg.fortfe import FInterp, Frame
from vcg.loops import Outcome
G = ("ghost:up",)
COURANT = Fraction(1, 10)
def ghost(): return Obj("G", {"made": 0, "steps": 0, "summed": -1, "saved": -1})
class Ghost:
    """what every program's object does to the ghost state; ob(st, name, goal) registers an obligation"""
    def __init__(self, n, ob, what=("run", "cfl")): self.n, self.ob, self.what = n, ob, what
    def put(self, st, **k):
        for x, y in k.items(): st.write(G + (("f", x),), y)
    def get(self, st, k): return st.read(G).fields[k]
    def made(self, st, v, L, n):
        if not len(v) == len(L) == len(n): self.ob(st, "as many lengths and cell counts as velocity components", False); raise Unsupported("arguments of the constructor")
        self.v, self.L, self.nc = v, L, n
        if "run" in self.what:
            self.ob(st, "the grid has three axes, each with the requested number of cells", band(len(n) == 3, *[eq(x, self.n) for x in n]))
            self.ob(st, "the domain is the unit cube and the velocity is one along every axis", band(*[eq(x, 1) for x in v], *[eq(x, 1) for x in L]))
        elif "cfl" in self.what: self.ob(st, "domain lengths are positive, at least one cell per axis", band(*[lt(0, x) for x in L], *[ge(x, 1) for x in n]))
        self.put(st, made=add(self.get(st, "made"), 1), steps=0)
    def advect(self, st, dt, k=1):
        if not hasattr(self, "v"): raise Unsupported("advect before the constructor")
        if "run" in self.what:
            x = sub(mul(dt, R(self.n)), COURANT)
            self.ob(st, "the time step is a tenth of the time to cross a cell", band(le(x, Fraction(1, 10**9)), ge(x, Fraction(-1, 10**9))))
        if "cfl" in self.what:
            s = 0
            for x, l, c in zip(self.v, self.L, self.nc): s = add(s, mul(ite(lt(x, 0), sub(0, x), x), rdiv(mul(dt, R(c)), l)))
            self.ob(st, "the time step is not negative", ge(dt, 0))
            self.ob(st, "the Courant numbers of the axes add up to at most one", le(s, 1))
        self.put(st, steps=add(self.get(st, "steps"), k))
    def summed(self, st):
        """the check sum of the field after the steps done so far"""
        self.put(st, summed=self.get(st, "steps")); return CHK(Z(self.get(st, "steps")))
    def report(self, U, eng, hy, st, root, steps, run=True, spread=None):
        """what the program prints: the check sum of the final field and, where asked for, its standard deviation"""
        found, toks, blur = scan(st.vars[root].items if root in st.vars else (), True)
        chk = lambda v: eq(v.steps, steps) if isinstance(v, Opaque) and hasattr(v, "steps") else eq(R(v), CHK(Z(steps))) if is_z(v) or isnum(v) else False
        dev = lambda v: eq(R(v), DEV(Z(steps))) if is_z(v) or isnum(v) else False
        sums = [(c, v) for c, v, lab in toks if "sum" in lab.lower()]
        if not sums and blur: raise Unsupported("the output printed is not text and numbers")
        U.goal(eng, hy, "the check sum of the final field is printed", implies(run, bor(*[band(c, chk(v)) for c, v in sums])))
        U.goal(eng, hy, "no other number is printed as the check sum", implies(run, band(*[implies(c, chk(v)) for c, v in sums])))
        if spread is None: return
        devs = [(c, v) for c, v, lab in toks if "sum" not in lab.lower() and (chk(v) is not False or dev(v) is not False) and ("std" in lab.lower() or "spread" in lab.lower() or "deviation" in lab.lower())]
        U.goal(eng, hy, "the standard deviation of the final field is printed when asked for", implies(band(run, spread), bor(*[band(c, dev(v)) for c, v in devs])))
        U.goal(eng, hy, "no other number is printed as the standard deviation", implies(run, band(*[implies(c, dev(v)) for c, v in devs])))
    def saved(self, st): self.put(st, saved=self.get(st, "steps"))
    def post(self, U, eng, hy, st, steps, vtk, run=True):
        if "run" not in self.what:
            return
        g = st.read(G).fields
        U.goal(eng, hy, "one problem is set up", implies(run, eq(g["made"], 1)))
        U.goal(eng, hy, "the field is advanced by the requested number of steps", implies(run, eq(g["steps"], steps)))
        U.goal(eng, hy, "the check sum is taken of the final field", implies(run, eq(g["summed"], steps)))
        U.goal(eng, hy, "the file asked for holds the final field", implies(band(run, vtk), eq(g["saved"], steps)))
        U.goal(eng, hy, "no file is written unless asked for", implies(band(run, bnot(vtk)), eq(g["saved"], -1)))
CHK = z3.Function("check_sum_after", INT, REAL); DEV = z3.Function("standard_deviation_after", INT, REAL)
def isnum(v): return isinstance(v, (int, Fraction)) and not isinstance(v, bool)
def scan(items, cond, label=""):
    """numbers of an output: [(condition, value, text before it)]; whether parts of the output are not known"""
    toks, blur = [], False
    for x in items:
        if isinstance(x, str):
            label = (label if "\n" not in x else "") + x[x.rfind("\n", 0, len(x.rstrip("\n"))) + 1:] if x.strip("\n") else ""
            if x.endswith("\n"): label = ""
        elif isinstance(x, Tok): toks.append((cond, x.v, label))
        elif isinstance(x, Opt):
            la = lb = label
            for part, c in ((x.a, x.c), (x.b, bnot(x.c))):
                l, t, b = scan(part, band(cond, c), label); toks += t; blur |= b
                if part is x.a: la = l
                else: lb = l
            label = la if la == lb else la + lb
        elif isinstance(x, Rep): blur |= any(not isinstance(y, (str, Tok)) for y in x.items); label = ""
        else: blur = True
    return label, toks, blur
def R(x): return z3.ToReal(Z(x)) if is_z(x) and x.sort() == INT else Fraction(x) if isint(x) else x
def vec(x, I, st):
    if isinstance(x, CVec): return list(x.items)
    if isint(x.len): return [x.get(j) for j in range(x.len)]
    raise Unsupported("vector of unknown length")
# ---------------------------------------------------------------- C++
def cxx_unit(prog, what):
    def go(U):
        tu = W.load(prog, 3); ms = [f for f in tu.funcs if f.cls is None and f.name == "main"]
        if not ms: raise Unsupported("main not found")
        eng = U.engine("%s: main" % W.PROGRAMS[prog]); I = Interp(eng, tu); A = M.Args()
        nc, ns = z3.Int("opt-numCells"), z3.Int("opt-numSteps")
        P = Ghost(nc, lambda st, nm, c: eng.oblige(st, nm, "post", c), what)
        I.models["CmdLineArgParser"] = lambda I, st, args, n: Obj("ARGS", {})
        def ctor(I, st, args, n):
            eng.called.add("Upwind::Upwind"); P.made(st, *[vec(I.rv(st, a), I, st) for a in args]); return Obj("UPW", {})
        def method(I, st, base, v, nm, args, n, want_ref):
            eng.called.add("Upwind::" + nm)
            if nm == "advect":
                dt = [I.rv(st, a) for a in args if strip_ref(ctype(a["type"])) in ("double", "float")]
                k = [I.rv(st, a) for a in args if strip_ref(ctype(a["type"])) not in ("double", "float")]
                if len(dt) != 1 or len(k) > 1: raise Unsupported("arguments of advect")
                P.advect(st, dt[0], k[0] if k else 1); return None
            if nm == "checksum": return P.summed(st)
            if nm == "std": return DEV(Z(P.get(st, "steps")))
            if nm == "saveVTK": P.saved(st); return None
            if nm == "print": return None
            raise Unsupported("Upwind::" + nm)
        for nd in (1, 2, 3, 4): I.models["Upwind<%d>" % nd] = ctor
        I.objmodels["ARGS"] = A.method; I.objmodels["UPW"] = method
        st = State(); st.vars["g:cout"] = Stream(); st.vars["g:cerr"] = Stream(); st.write(G, ghost())
        st.assume(z3.And(nc >= 1, nc * nc * nc <= 2**31 - 1)); st.assume(z3.And(ns >= 0, ns <= 2**31 - 1))
        argc = z3.Int("argc"); st.vars["argvec"] = SVec(argc, lambda i: z3.IntVal(0)); st.assume(z3.And(argc >= 1, argc <= 2**31 - 1))
        U.vacuity(eng, st.hyps, "main"); hy = list(st.hyps)
        invoke(I, st, ms[0], None, *([argc, Ptr(("argvec",), 0)] if len(ms[0].params) == 2 else []))
        U.discharge(eng)
        run = band(z3.Bool("parsed"), bnot(z3.Bool("opt-h")))
        P.post(U, eng, hy, st, ns, A.value("-vtk", "bool"), run)
        if "run" in what or "report" in what: P.report(U, eng, hy, st, "g:cout", ns, run, A.value("-std", "bool") if "report" in what and "-std" in A.reg else None)
        if "run" in what:
            for k, t in (("-numCells", "int"), ("-numSteps", "int"), ("-vtk", "bool")):
                U.fact("option %s is registered with a usable default" % k, k in A.reg and A.reg[k][0] == t and (t == "bool" and A.reg[k][1] is False or t == "int" and isint(A.reg[k][1]) and A.reg[k][1] >= 1))
        elif "cfl" in what and not hasattr(P, "v"): U.fact("main advances an Upwind object", False)
    return go
# ---------------------------------------------------------------- Fortran
class FMain(FInterp):
    """the command line has N words after the program's name; the third is 'vtk' or not"""
    def __init__(self, eng, u, N, vtk):
        super().__init__(eng, u); self.N, self.vtk = N, vtk
        self.words = ["prog" if k == 0 else Opaque("word %d" % k) for k in range(N + 1)]
        if N >= 3: self.words[3] = "vtk" if vtk else "no"
    def c_get_command_argument(self, st, a):
        k = self.eval(st, a[0])
        if not isint(k): raise Unsupported("number of the command argument")
        w = self.words[k] if 0 <= k <= self.N else " "
        if len(a) > 1 and a[1] is not None: self.assign(st, a[1], w)
        for x in a[2:]:
            if x is not None: self.assign(st, x, self.eng.fresh("len", INT))
    def i_command_argument_count(self, st, a): return self.N
    i_iargc = i_command_argument_count
    def i_len_trim(self, st, a):
        v = self.eval_any(st, a[0])
        if isinstance(v, Opaque) and v.name.startswith("word"): r = self.eng.fresh("len_trim", INT); st.assume(r >= 1); return r
        return super().i_len_trim(st, a)
    def string_cmp(self, op, vs):
        return super().string_cmp(op, vs)
    def arg_loop(self, st, s):
        """one turn per word of the command line"""
        cur = st
        for _ in range(self.N + 3):
            c = self.cond(cur, s[1])
            if c is False: return Outcome(cur)
            if c is not True: raise Unsupported("loop over the command line")
            o = self.body_fn(s[2], None, 1)(cur)
            if o.normal is None and len(o.exits) == 1 and o.exits[0][0] == "break": return Outcome(o.exits[0][2])
            if o.normal is not None and len(o.exits) == 1 and o.exits[0][0] == "break":
                g = o.exits[0][1]
                if g is False or is_z(g) and self.eng.entails(cur, bnot(g), 2000): o.exits.clear()
                elif self.eng.entails(cur, g, 2000): return Outcome(o.exits[0][2])
            if o.exits or o.normal is None: raise Unsupported("loop over the command line")
            cur = o.normal
        raise Unsupported("loop over the command line")
    def s_read(self, st, s):
        u = s[1].get("UNIT"); v = None
        if u is not None and u[0] == "var":
            try: v = self.eval_any(st, u)
            except Unsupported: v = None
        if isinstance(v, Opaque) and v.name.startswith("word") and len(s[2]) == 1:
            if "IOSTAT" in s[1]: self.assign(st, s[1]["IOSTAT"], 0)
            self.assign(st, s[2][0][1], z3.Int("int(%s)" % v.name)); return Outcome(st)
        return super().s_read(st, s)
    def read(self, st, path):
        if path and path[-1] == ("f", "f") and isinstance(st.vars.get(G[0]), Obj) and path[0] == getattr(self, "objroot", None):
            k = st.read(G).fields["steps"]; fld = z3.Function("field", INT, INT, REAL)
            n = z3.Int("ncells")
            self.sums = True
            return SVec(n, lambda i, k=k: fld(Z(k), Z(i)))
        return super().read(st, path)
    def fold(self, st, v, init, f, name):
        if getattr(self, "sums", False) and isinstance(v, SVec) and z3.is_const(Z(v.len)) and str(v.len) == "ncells":
            return self.P.summed(st)
        return super().fold(st, v, init, f, name)
def fort_unit(p, what, N, vtk=False):
    def go(U):
        u = F.load(p)
        if "main" not in u.procs: raise Unsupported("main program not found")
        eng = U.engine("%s.F90: main program, %d arguments%s" % (p, N, ", vtk" if vtk else "")); I = FMain(eng, u, N, vtk)
        n, s = z3.Int("int(word 1)"), z3.Int("int(word 2)")
        P = I.P = Ghost(n, lambda st, nm, c: eng.oblige(st, nm, "post", c), what)
        def new(I, st, a):
            path, sec, t = I.place(st, a[0]); I.objroot = path[0]
            P.made(st, *[vec(I.eval(st, x), I, st) for x in a[1:4]])
        def advect(I, st, a):
            if len(a) != 2: raise Unsupported("arguments of advect")
            P.advect(st, I.eval(st, a[1]))
        for nm, fn in (("new", new), ("advect", advect), ("saveVTK", lambda I, st, a: P.saved(st)), ("del", lambda I, st, a: None), ("print", lambda I, st, a: None)):
            try: I.contracts[F.proc(u, nm, nm.lower())] = fn
            except Unsupported:
                if nm != "print": raise
        st = State(); st.vars["stdout"] = Stream(()); st.write(G, ghost()); st.assume(n >= 1); st.assume(n <= 1290); st.assume(s >= 0)
        U.vacuity(eng, st.hyps, "main"); hy = list(st.hyps)
        F.call(I, st, "main")
        U.discharge(eng)
        P.post(U, eng, hy, st, s if N >= 2 else 100, vtk)
        if "run" in what: P.report(U, eng, hy, st, "stdout", s if N >= 2 else 100)
        if "cfl" in what and "run" not in what and not hasattr(P, "v"): U.fact("main advances the field", False)
    return go
# ---------------------------------------------------------------- Python
def py_unit(prog, what):
    def go(U):
        eng, I, st, P, hy, argc, n, s = PM.run(U, prog, "main", what=what)
        vtk = band(argc > 3, bor(*[getattr(I, "strb", {}).get(("streq",) + k, False) for k in (("argv[3]", "vtk"), ("vtk", "argv[3]"))]))
        root = P.rk == 0 if P.mpi else True
        P = P.g; P.post(U, eng, hy, st, ite(argc > 2, s, 100), vtk, argc > 1)
        if "run" in what: P.report(U, eng, hy, st, "stdout", ite(argc > 2, s, 100), band(argc > 1, root))
        if "cfl" in what and "run" not in what and not hasattr(P, "v"): U.fact("main advances the field", False)
    return go
def units(what):
    u = [("%s main" % W.PROGRAMS[p], cxx_unit(p, what)) for p in W.PROGRAMS]
    for p in F.PROGRAMS: u += [("%s.F90 main, %d words%s" % (p, N, v and " vtk" or ""), fort_unit(p, what, N, v)) for N, v in ((1, False), (2, False), (3, True), (3, False))]
    return u + [(p + " main", py_unit(p, what)) for p in ("upwind.py", "upwindMPI.py")]
