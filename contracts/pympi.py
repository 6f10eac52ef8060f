"""Contracts of the distributed Python upwind program (upwind/python/upwindMPI.py): class Upwind.

The communication library and mpinum are dependencies: their contracts are assumed.  Processes are the cells of a
P0 x P1 x P2 grid; a process with indices q owns the cells q*m .. q*m + m - 1 of every axis, n = P*m.  All processes
run the same code, so the contents of an array on another process are the local term with that process's indices."""
from vcg.core import *
from vcg.pyfe import PyModule, PInterp, PFrame, Func, Arr, PList, PTuple, Inst, Handle, ModAttr, Slc, NONE, scal, tup, one
from vcg.cppfe import REPO
from vcg.loops import changed
from vcg.frame import UnitCtx
from .upwind_cxx import Grid
from .sums import rec_of
import os

DIR = os.path.join(REPO, "upwind/python")
def source(): return os.path.join(DIR, "upwindMPI.py")
def load(): return PyModule(source())

class World:
    """process grid of a run in nd dimensions"""
    def __init__(self, nd=3):
        self.nd = nd
        self.P = [z3.Int("P%d" % j) for j in range(nd)]; self.m = [z3.Int("m%d" % j) for j in range(nd)]; self.q = [z3.Int("q%d" % j) for j in range(nd)]
        self.rk = z3.Int("rk"); self.sz = z3.Int("sz")
        self.RANK = z3.Function("RANK", *([INT] * (nd + 1)))
        self.IDX = [z3.Function("IDX%d" % j, INT, INT) for j in range(nd)]
        self.v = [z3.Real("v%d" % j) for j in range(nd)]; self.L = [z3.Real("L%d" % j) for j in range(nd)]
        self.n = [p * k for p, k in zip(self.P, self.m)]
        g = self.grid = Grid(nd); g.v, g.L, g.n = self.v, self.L, self.n
        # admissible problem: a decomposition exists; the velocities the program is for are not negative
        self.pre = [x >= 1 for x in self.P + self.m] + [l > 0 for l in self.L] + [x >= 0 for x in self.v] + [x <= 2**30 - 1 for x in self.P + self.m]
        self.pre += [n <= 2**30 - 1 for n in self.n] + [self.rk >= 0, self.rk < self.sz, self.sz >= 1]
        self.pre += self.facts(self.q) + [(self.rk == 0) == z3.And(*[x == 0 for x in self.q])] + [n >= 1 for n in self.n]
    def facts(self, q):
        """q are indices of a process (range; consequences used as hints, proved by lemmas())"""
        return [z3.And(x >= 0, x < p) for x, p in zip(q, self.P)] + [z3.And(Z(mul(x, k)) >= 0, Z(mul(x, k)) + k <= p * k) for x, p, k in zip(q, self.P, self.m)]
    def indices(self, r):
        """indices of the process of rank r"""
        r = unz(r)
        if isint(r) and r == 0: return [0] * self.nd
        if is_z(r) and r.eq(self.rk): return list(self.q)
        if is_z(r) and z3.is_app(r) and r.decl().eq(self.RANK): return [r.arg(j) for j in range(self.nd)]
        return [f(Z(r)) for f in self.IDX]
    def other(self, t, q):
        """a term of this process as the process with indices q has it"""
        return subst(t, [(a, Z(b)) for a, b in zip(self.q, q)] + [(self.rk, self.RANK(*[Z(x) for x in q]))]) if is_z(t) else t

def lemmas(U):
    W = World(); e = U.engine("lemma: sub-domains of a process grid")
    for j in range(W.nd):
        x, p, m = z3.Int("x"), W.P[j], W.m[j]
        U.goal(e, [p >= 1, m >= 1, x >= 0, x < p], "a sub-domain lies inside the grid (axis %d)" % j, z3.And(x * m >= 0, x * m + m <= p * m), kind="lemma")
        U.goal(e, [p >= 1, m >= 1], "the grid has a cell (axis %d)" % j, p * m >= 1, kind="lemma")
        i = z3.Int("i"); o = IDIV(i, m)
        U.goal(e, [p >= 1, m >= 1, i >= 0, i < p * m], "every cell lies in the sub-domain of one process (axis %d)" % j, z3.And(o >= 0, o < p, o * m <= i, i < o * m + m), kind="lemma")
        U.goal(e, [p >= 1, m >= 1, i >= 0, i < p * m, x >= 0, x < p, x * m <= i, i < x * m + m], "and of no other (axis %d)" % j, x == o, kind="lemma")

class MPInterp(PInterp):
    def __init__(self, eng, mod, W):
        super().__init__(eng, mod, [DIR]); self.W = W; self.trusted = {id(x) for x in W.pre}; self.gathered = []
        C = self.contracts
        C["mpi4py.MPI.COMM_WORLD.Get_rank"] = lambda I, st, a, k: W.rk
        C["mpi4py.MPI.COMM_WORLD.Get_size"] = lambda I, st, a, k: W.sz
        C["mpi4py.MPI.COMM_WORLD.rank"] = None
        C["mpi4py.MPI.Wtime"] = lambda I, st, a, k: I.eng.fresh("time", REAL)
        C["mpi4py.MPI.COMM_WORLD.Barrier"] = lambda I, st, a, k: NONE
        C["mpi4py.MPI.COMM_WORLD.gather"] = MPInterp.gather
        C["mpinum.CubeDecomp"] = MPInterp.new_decomp
        for nm, x in (("gdaZeros", 0), ("gdaOnes", 1)): C["mpinum." + nm] = (lambda x: lambda I, st, a, k: I.new_array(st, a, k, x))(x)
        self.objmodels["CubeDecomp"] = MPInterp.decomp
    def assume(self, st, fs):
        for f in fs:
            if f is True: continue
            self.trusted.add(id(f)); self.keep = getattr(self, "keep", []) + [f]; st.assume(f)
    def collective(self, st, what):
        """every process reaches the call: no branch on the process is open"""
        W = self.W; names = {str(x) for x in W.q + [W.rk]}; self.steps = getattr(self, "steps", []) + [what]
        for h in st.hyps:
            if id(h) in self.trusted or not is_z(h): continue
            seen, todo = set(), [h]
            while todo:
                x = todo.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.num_args() == 0 and str(x) in names: raise Unsupported("%s in a branch that depends on the process" % what)
                    todo += x.children()
    def new_decomp(self, st, a, kw):
        """CubeDecomp(nprocs, dims): the process grid for sz processes and the grid's cell counts"""
        W = self.W; a = list(a) + [kw[k] for k in ("nprocs", "dims")[len(a):] if k in kw]
        if len(a) != 2 or set(kw) - {"nprocs", "dims"}: raise Unsupported("CubeDecomp arguments")
        self.eng.oblige(st, "CubeDecomp: number of processes", "pre", eq(a[0], W.sz))
        it = self.items(st, a[1])
        if it is None or len(it) != W.nd: raise Unsupported("CubeDecomp dimensions")
        for x, n in zip(it, W.n): self.eng.oblige(st, "CubeDecomp: the grid's cell counts", "pre", eq(x, n))
        root = self.fresh_root("obj"); st.vars[root] = Obj("CubeDecomp", {}); return Inst(root, None)
    def decomp(self, st, o, name, a, kw):
        W = self.W
        if name == "getDecomp": return self.newlist(st, list(W.P))
        if name == "isValid": return True
        if name == "getNumDims": return W.nd
        if name == "getSlab":
            r = a[0]; self.eng.oblige(st, "getSlab: a rank of the run", "pre", band(ge(r, 0), lt(r, W.sz)))
            q = W.indices(r); self.assume(st, W.facts(q))
            return PTuple([Slc(mul(x, m), add(mul(x, m), m)) for x, m in zip(q, W.m)])
        if name == "getNeighborProc":
            a = list(a) + [kw[k] for k in ("proc", "offset", "periodic")[len(a):] if k in kw]
            off = self.items(st, a[1]); per = self.items(st, a[2]) if len(a) > 2 and a[2] is not NONE else [False] * W.nd
            if off is None or per is None or len(off) != W.nd or len(per) != W.nd: raise Unsupported("getNeighborProc arguments")
            self.eng.oblige(st, "getNeighborProc: a rank of the run", "pre", band(ge(a[0], 0), lt(a[0], W.sz)))
            q = W.indices(a[0]); out = []
            for x, d, p, P in zip(q, off, per, W.P):
                p = self.truth(st, p)
                if p is not True:
                    self.eng.oblige(st, "getNeighborProc: there is a neighbour", "pre", band(ge(add(x, d), 0), lt(add(x, d), P))); out.append(Z(add(x, d))); continue
                out.append(Z(self.wrap(st, x, d, P)))
            self.assume(st, W.facts(out) + [W.RANK(*out) >= 0, W.RANK(*out) < W.sz])
            return W.RANK(*out)
        raise Unsupported("CubeDecomp.%s" % name)
    def wrap(self, st, x, d, P):
        """(x + d) mod P for a step of at most one"""
        if isint(d) and d == 0: return x
        if not self.eng.entails(st, band(ge(d, -1), le(d, 1)), 1500): return fmod(add(x, d), P)
        for k in (-1, 0, 1):
            if self.eng.entails(st, eq(d, k), 1500): d = k; break
        y = add(x, d)
        if isint(d): return x if d == 0 else ite(eq(x, 0), sub(P, 1), y) if d < 0 else ite(eq(x, sub(P, 1)), 0, y)
        return ite(lt(y, 0), add(y, P), ite(ge(y, P), sub(y, P), y))
    def new_array(self, st, a, kw, v):
        """gdaZeros(shape, dtype, numGhosts): a local array whose outermost layers other processes can read"""
        kw = dict(kw); g = a[2] if len(a) > 2 else kw.pop("numGhosts", 1); d = self.dtype(a[1] if len(a) > 1 else kw.pop("dtype", None), "f")
        if kw or not isint(g): raise Unsupported("arguments of a distributed array")
        self.collective(st, "creation of a distributed array")
        b = self.filled(st, self.shape_arg(st, a[0]), d, Fraction(v) if d == "f" else v)
        self.ghosts = {**getattr(self, "ghosts", {}), b.root: g}
        return b
    def a_getData(self, st, o, a, kw):
        W = self.W; a = list(a) + [kw[k] for k in ("pe", "winID")[len(a):] if k in kw]
        g = getattr(self, "ghosts", {}).get(o.root)
        if g is None or o.imap is not None: raise Unsupported("getData of an array that exposes no windows")
        self.collective(st, "getData"); self.eng.called.add("GhostedDistArray.getData")
        side = self.items(st, a[1])
        if not isinstance(a[1], PTuple) or side is None or len(side) != o.rank: raise Unsupported("window name")
        s = []
        for x in side:
            k = next((k for k in (0, 1, -1) if not is_z(x) and x == k or is_z(x) and self.eng.entails(st, eq(x, k), 2000)), None)
            if k is None: raise Unsupported("window name")
            s.append(k)
        self.bound(st, "the window exists", sum(abs(k) for k in s) == 1)
        if sum(abs(k) for k in s) != 1: raise Unsupported("window name")
        ax = next(j for j, k in enumerate(s) if k)
        r = unz(a[0])
        if not (is_z(r) and z3.is_app(r) and (r.decl().eq(W.RANK) or r.eq(W.rk)) or isint(r) and r == 0): raise Unsupported("rank of another process")
        q = W.indices(r); mine = self.getter(st, o); shape = list(o.shape); n = shape[ax]; shape[ax] = g
        lo = 0 if s[ax] < 0 else sub(n, g)
        # uniform sub-domains: the other process's array has this one's shape
        def get(i):
            k = list(i); k[ax] = add(lo, i[ax]); ph = [z3.Int("ph!g%d" % j) for j in range(o.rank)]
            t = W.other(mine(tuple(ph)), q)
            return subst(t, [(p, Z(x)) for p, x in zip(ph, k)]) if is_z(t) else t
        return self.alloc(st, shape, o.dt, get)
    def a_free(self, st, o, a, kw): return NONE
    def a_reduce(self, st, o, a, kw):
        """collective: op over all the elements of all processes, on rootPe; None elsewhere"""
        self.collective(st, "reduce"); self.eng.called.add("DistArray.reduce")
        if not isinstance(a[0], ModAttr) or a[0].name != "operator.add": raise Unsupported("reduction operator")
        root = kw.get("rootPe", a[2] if len(a) > 2 else 0)
        self.reduced = getattr(self, "reduced", []) + [(o, root, self.getter(st, o))]
        r = Opaque("reduced#%d" % len(self.reduced)); return r
    def gather(self, st, a, kw):
        """COMM_WORLD.gather: on the root, the list of what every process passed, by rank; None elsewhere"""
        W = self.W; self.collective(st, "gather"); x = a[0]; root = kw.get("root", a[1] if len(a) > 1 else 0)
        if not isinstance(x, Arr) or not (isint(root) and root == 0): raise Unsupported("gather")
        if getattr(self, "ghosts", {}).get(x.root) is not None: self.eng.oblige(st, "gather: the object can be serialised (distributed arrays cannot)", "pre", False)
        g = self.getter(st, x); rk = x.rank; ph = tuple(z3.Int("ph!t%d" % j) for j in range(rk)); t = g(ph)
        def get(i):
            u = W.other(t, W.indices(i[0])); return subst(u, [(p, Z(y)) for p, y in zip(ph, i[1:])]) if is_z(u) else u
        r4 = self.fresh_root("nd"); st.vars[r4] = SVec((W.sz,) + tuple(x.shape), lambda i: get(tup(i)), (), None, rk + 1)
        el = lambda k: Arr(r4, x.shape, x.dt, lambda i: (k,) + tuple(i), None, "gathered[%s]" % k, None, None, True)
        l = self.newlist(st, SVec(W.sz, el))
        self.gathered.append((x, l))
        # elsewhere the result is None: using it there is an error
        c = eq(W.rk, root); self.assume_root = c
        return RootOnly(l, c)
    def getitem(self, st, o, ix):
        if isinstance(o, RootOnly): self.bound(st, "the gathered list is used on the root only", o.cond); o = o.val
        return super().getitem(st, o, ix)
    def getattr(self, st, o, name):
        if isinstance(o, RootOnly): self.bound(st, "the gathered data are used on the root only", o.cond); o = o.val
        return super().getattr(st, o, name)
    def length(self, st, x):
        if isinstance(x, RootOnly): self.bound(st, "the gathered list is used on the root only", x.cond); x = x.val
        return super().length(st, x)
    def seq(self, st, x):
        if isinstance(x, RootOnly): self.bound(st, "the gathered list is used on the root only", x.cond); x = x.val
        return super().seq(st, x)
    def items(self, st, x):
        if isinstance(x, RootOnly): return None
        return super().items(st, x)
    def iterate(self, st, it, bind, body, what):
        if isinstance(it, RootOnly): self.bound(st, "the gathered list is used on the root only", it.cond); it = it.val
        return super().iterate(st, it, bind, body, what)
    def compare(self, st, op, a, b):
        if op in ("Is", "IsNot", "Eq", "NotEq") and isinstance(a, RootOnly) and b is NONE: return a.cond if op in ("IsNot", "NotEq") else bnot(a.cond)
        return super().compare(st, op, a, b)
    def truth(self, st, v):
        if isinstance(v, RootOnly): return v.cond
        return super().truth(st, v)
class RootOnly(Handle):
    def __init__(self, val, cond): self.val, self.cond = val, cond

def construct(U, title="Upwind.__init__"):
    mod = load(); cls = mod.cls("advect"); W = World()
    eng = U.engine("upwindMPI.py: " + title); I = MPInterp(eng, mod, W); st = State()
    for f in W.pre: st.assume(f)
    st.vars["nd#velocity"] = CVec(W.v); st.vars["nd#lengths"] = CVec(W.L); st.vars["list#numCells"] = CVec(W.n)
    I.frames.append(PFrame("top.", mod))
    o = I.instantiate(st, cls, [Arr("nd#velocity", (3,), "f"), Arr("nd#lengths", (3,), "f"), PList("list#numCells")], {})
    return eng, I, st, W, o
def again(U, I0, W, title):
    eng = U.engine("upwindMPI.py: " + title); I = MPInterp(eng, I0.mod, W); I.ghosts = dict(getattr(I0, "ghosts", {})); I.trusted |= I0.trusted; I.keep = getattr(I0, "keep", [])
    I.frames.append(PFrame("top.", I0.mod)); return eng, I
def field(st, o, name="f"):
    v = st.vars[o.root].fields.get(name)
    if not isinstance(v, Arr) or v.dt != "f" or v.rank != 3 or v.imap is not None: raise Unsupported("attribute %s is not a three-dimensional real array" % name)
    return v
def cell(W):
    a = [z3.Int("a%d" % j) for j in range(3)]
    return a, [x >= 0 for x in a] + [x < m for x, m in zip(a, W.m)]
def glob(W, a): return [W.q[j] * W.m[j] + a[j] for j in range(3)]
def ctor_unit(U):
    eng, I, st, W, o = construct(U)
    U.vacuity(eng, W.pre, "Upwind.__init__"); U.discharge(eng)
    f = field(st, o); a, rng = cell(W); hy = st.hyps + rng
    for n, m in zip(f.shape, W.m): U.goal(eng, st.hyps, "the local field has the sub-domain's shape", eq(n, m))
    first = band(*[eq(x, 0) for x in glob(W, a)])
    t = I.getter(st, f)(tuple(a))
    U.goal(eng, hy, "the cell at the low corner of the grid is one", implies(first, eq(t, 1)))
    U.goal(eng, hy, "every other cell is zero", implies(bnot(first), eq(t, 0)))
def arbitrary(st, o, W):
    """the local part of an arbitrary global field; scratch arrays arbitrary too"""
    f = field(st, o); G = z3.Function("G", INT, INT, INT, REAL); base = st.vars[f.root]
    st.vars[f.root] = SVec(base.len, lambda i: G(*[Z(add(mul(W.q[j], W.m[j]), i[j])) for j in range(3)]), (), None, 3)
    for k, v in st.vars[o.root].fields.items():
        if k != "f" and isinstance(v, Arr) and v.dt == "f" and v.rank == 3 and v.root != f.root:
            w = st.vars[v.root]; S = z3.Function("old_" + k, *([INT] * 3), REAL)
            st.vars[v.root] = SVec(w.len, (lambda S: lambda i: S(*[Z(x) for x in i]))(S), (), None, 3)
    return G
def state_changes(eng, hy, before, st, o):
    from .pyup import changes
    return [k for k in changes(eng, hy, before, st, o, None, field(before, o).root) if not isinstance(st.vars[o.root].fields.get(k), Arr) or st.vars[o.root].fields[k].rank != 3]
def call_advect(U, I, eng, st, W, o, name):
    """one call from the present state with an arbitrary global field; the update of every local cell"""
    G = arbitrary(st, o, W); before = st.copy(); dt = eng.fresh("deltaTime", REAL); hy0 = list(st.hyps)
    I.call_func(st, I.getattr(st, o, "advect"), [dt], {})
    U.discharge(eng); eng.obls.clear()
    f = field(st, o); a, rng = cell(W)
    for n, m in zip(f.shape, W.m): U.goal(eng, st.hyps, name + "frame: shape of the local field unchanged", eq(n, m))
    old = lambda i: G(*[Z(x) for x in i])
    splits = []
    for j in range(3): splits += [a[j] == 0, W.q[j] == 0]
    hints = [z3.Or(W.q[j] == 0, W.q[j] * W.m[j] >= W.m[j]) for j in range(3)]
    U.equal(eng, st.hyps + rng, name + "every local cell is what the serial upwind scheme gives for it", I.getter(st, f)(tuple(a)), step_pos(W, old, glob(W, a), dt), splits, hints)
    return before, hy0
def advect_unit(U):
    _, I0, st, W, o = construct(U)
    E = U.engine("lemma: multiples")
    for j in range(3): U.goal(E, [W.q[j] >= 0, W.m[j] >= 1], "a multiple of a positive number is zero or no smaller", z3.Or(W.q[j] == 0, W.q[j] * W.m[j] >= W.m[j]), kind="lemma")
    eng, I = again(U, I0, W, "Upwind.advect")
    U.vacuity(eng, list(st.hyps), "Upwind.advect")
    before, hy0 = call_advect(U, I, eng, st, W, o, "")
    ch = state_changes(eng, hy0, before, st, o)
    U.fact("class invariant: state other than the field and scratch arrays found as after construction, or whatever it is (%s)" % (", ".join(ch) or "nothing else changes"), True)
    if not ch: return
    from .pyup import havoc
    T = UnitCtx(U.name, U.kinds, U.tmul); s2 = st.copy(); ok = False
    try:
        havoc(I, s2, o, ch); call_advect(T, I, eng, s2, W, o, "after any earlier calls: ")
        ok = all(x["status"] == "proved" for x in T.obls)
    except Unsupported: pass
    if ok: U.obls += T.obls; return
    eng.obls.clear(); call_advect(U, I, eng, st.copy(), W, o, "second call: ")
    raise Unsupported("a call changes %s: histories longer than two calls are not covered" % ", ".join(ch))
def step_pos(W, old, i, dt):
    """the upwind update for velocities that are not negative"""
    r = old(i)
    for j in range(3):
        u = list(i); u[j] = z3.If(i[j] == 0, W.n[j] - 1, i[j] - 1)
        r = r - W.v[j] * dt / (W.L[j] / z3.ToReal(W.n[j])) * (old(i) - old(u))
    return r
def gather_unit(U):
    _, I0, st, W, o = construct(U)
    eng, I = again(U, I0, W, "Upwind.gatherRoot")
    G = arbitrary(st, o, W); before = st.copy(); hy0 = list(st.hyps)
    s0 = st.copy(); s0.assume(W.rk == 0); I.trusted.add(id(s0.hyps[-1]))
    for x in W.q: s0.assume(x == 0); I.trusted.add(id(s0.hyps[-1]))
    r = I.call_func(s0, I.getattr(s0, o, "gatherRoot"), [], {})
    U.vacuity(eng, hy0, "Upwind.gatherRoot"); U.discharge(eng)
    if not isinstance(r, Arr): raise Unsupported("result of gatherRoot")
    for n, m in zip(r.shape, W.n): U.goal(eng, s0.hyps, "on the root: the result has the grid's shape", eq(n, m))
    i = [z3.Int("i%d" % j) for j in range(3)]; rng = [x >= 0 for x in i] + [x < n for x, n in zip(i, W.n)]
    t = I.getter(s0, r)(tuple(i)); own = [IDIV(x, m) for x, m in zip(i, W.m)]
    hy = list(s0.hyps) + rng + W.facts(own) + [x * m <= y for x, m, y in zip(own, W.m, i)] + [y < x * m + m for x, m, y in zip(own, W.m, i)]
    # the process that owns the cell (assumed numbering of the processes: a bijection between ranks and indices)
    R = z3.Int("owner"); hy += [R >= 0, R < W.sz] + [f(R) == x for f, x in zip(W.IDX, own)]
    rec, cnt = rec_of(eng, t)
    if rec is None: raise Unsupported("the gathered slabs are not copied by a loop over the processes")
    U.goal(eng, hy, "the copy runs over every process", eq(cnt, W.sz))
    k = z3.Int("k"); at = lambda x: subst(x, [(rec.kap, k)]) if is_z(x) else x
    kk = [k >= 0, k < W.sz] + W.facts([f(k) for f in W.IDX]) + [(k == R) == z3.And(*[f(k) == x for f, x in zip(W.IDX, own)])]
    # two sub-domains that share a cell are the same (lemma "and of no other")
    kk += [z3.Implies(z3.And(f(k) * m <= y, y < f(k) * m + m), f(k) == x) for f, m, y, x in zip(W.IDX, W.m, i, own)]
    now, nxt = rec.fn(k), at(rec.step)
    want = lambda c: ite(c, G(*i), Fraction(0))
    U.goal(eng, hy, "before the copy every cell is zero", eq(rec.init, 0))
    U.goal(eng, hy + kk + [Z(eq(now, want(R < k)))], "the slab of each process goes to its place and to no other", eq(nxt, want(R < k + 1)), rounds=2)
    U.fact("hence every cell of the result is the owner's value (induction over the processes)", True)
    U.fact("the field is not modified", not changed(State({"f": before.vars[field(before, o).root]}), State({"f": s0.vars[field(s0, o).root]})))
    # other processes take part and return nothing
    s1 = before.copy(); s1.assume(W.rk != 0); I.trusted.add(id(s1.hyps[-1]))
    eng.obls.clear(); root = list(getattr(I, "steps", [])); I.steps = []; r1 = I.call_func(s1, I.getattr(s1, o, "gatherRoot"), [], {})
    U.discharge(eng); U.fact("no result on the other processes", r1 is NONE)
    U.fact("the root and the other processes take part in the same collective calls", root == I.steps)
def checksum_unit(U):
    _, I0, st, W, o = construct(U)
    eng, I = again(U, I0, W, "Upwind.checksum")
    G = arbitrary(st, o, W); hy0 = list(st.hyps); before = st.copy()
    r = I.call_func(st, I.getattr(st, o, "checksum"), [], {})
    U.vacuity(eng, hy0, "Upwind.checksum"); U.discharge(eng)
    red = getattr(I, "reduced", [])
    if len(red) != 1 or not (isinstance(r, Opaque) and r.name == "reduced#1"): raise Unsupported("checksum is not one reduction")
    a, rng = cell(W); arr, root, get = red[0]
    U.fact("the reduction runs over the whole local field", all(same(x, y) for x, y in zip(arr.shape, field(before, o).shape)) and arr.rank == 3)
    U.equal(eng, hy0 + rng, "the values summed are the field's", get(tuple(a)), G(*[Z(x) for x in glob(W, a)]))
    U.goal(eng, hy0, "the result is for the root", eq(root, 0))
def units(): return [("lemmas", lemmas), ("constructor", ctor_unit), ("advect", advect_unit), ("gatherRoot", gather_unit), ("checksum", checksum_unit)]
