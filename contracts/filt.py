"""Contracts of Filter (cxx/Filter.cpp).  The array iterator and the decomposition are used through their
contracts (proved for C01-C03); communication is used through the contract of the MPI calls."""
from .cxx_lib import *
from vcg.core import *
from vcg.cppfe import Ref
from vcg.loops import simp, Outcome
import time
from .upwind_cxx import rec_of
from vcg.lemma import OutOfTime, Tactic, poly, Atoms, to_term, NotRing, congruent

IMAX = 2**31 - 1
def filter_tu(): return load('#include "Filter.cpp"\n', ["Filter"])

# ----------------------------------------------------------------------------- boxes: contract of MultiArrayIter
class Boxes:
    """flat position, digits and number of cells of an index box with given extents (properties proved by radix lemmas)"""
    def __init__(self, nd):
        self.nd = nd; self.fn = {}
        for row in (False, True):
            t = "rc"[not row]
            self.fn[row] = (z3.Function("flat_%s%d" % (t, nd), *([INT] * (2 * nd + 1))), [z3.Function("dig_%s%d_%d" % (t, nd, j), *([INT] * (nd + 2))) for j in range(nd)])
        self.NT_ = z3.Function("cells_%d" % nd, *([INT] * (nd + 1)))
    def flat(self, row, e, c): return self.fn[row][0](*[Z(x) for x in list(e) + list(c)])
    def dig(self, row, e, p): return [f(*[Z(x) for x in list(e) + [p]]) for f in self.fn[row][1]]
    def NT(self, e): return self.NT_(*[Z(x) for x in e])
    def facts(self, small, lim=IMAX, big=None):
        """small: extents up to which the number of cells is known to be at most lim"""
        nd = self.nd; out = []
        e = [z3.Int("be%d" % j) for j in range(nd)]; c = [z3.Int("bc%d" % j) for j in range(nd)]; p = z3.Int("bp")
        for row in (False, True):
            F = self.flat(row, e, c); D = self.dig(row, e, F)
            out.append(QFact(e + c, implies(band(*[band(ge(a, 0), lt(a, b)) for a, b in zip(c, e)]), band(ge(F, 0), lt(F, self.NT(e)), *[eq(d, a) for d, a in zip(D, c)])), [F], "flat"))
            d = self.dig(row, e, p)
            out.append(QFact(e + [p], implies(band(ge(p, 0), lt(p, self.NT(e))), band(eq(self.flat(row, e, d), p), *[band(ge(a, 0), lt(a, b)) for a, b in zip(d, e)])), d, "digits"))
        out.append(QFact(e, implies(band(*[band(ge(a, 0), le(a, b)) for a, b in zip(e, small)]), band(ge(self.NT(e), 0), le(self.NT(e), lim))), [self.NT(e)], "cells"))
        out.append(QFact(e, implies(band(*[ge(a, 1) for a in e]), ge(self.NT(e), 1)), [self.NT(e)], "cells"))
        return out
def radix_lemmas(U, nd):
    """the axioms of Boxes, for the mixed radix representation"""
    for row in (False, True):
        B = Box(nd, row); e = U.engine("lemma: mixed radix representation (%d-d)" % nd)
        x, rng = B.cell(); b = z3.Int("b"); inb = [b >= 0, Z(lt(b, B.ntot))]
        for h in B.hints(x): U.goal(e, rng + [n >= 1 for n in B.n], "monotonicity instance", h, kind="lemma")
        base = [n >= 1 for n in B.n]
        U.goal(e, base + rng + B.hints(x), "the position of a cell is in range", band(ge(B.flat(x), 0), lt(B.flat(x), B.ntot)), kind="lemma")
        d = B.digits(b)
        U.goal(e, base + inb, "every position is the position of its digits", eq(B.flat(d), b), kind="lemma")
        for j in range(nd):
            U.goal(e, base + inb, "digit in range", band(ge(d[j], 0), lt(d[j], B.n[j])), kind="lemma")
            U.equal(e, base + rng + [Z(ge(B.ntot, 1))], "digits of a cell's position", B.digits(B.flat(x))[j], x[j], hints=B.hints(x), kind="lemma")
    L = [z3.Int("L%d" % j) for j in range(nd)]; E = [z3.Int("E%d" % j) for j in range(nd)]
    p, q = E[0], L[0]
    for j in range(1, nd):        # product monotone, one factor at a time
        U.goal(e, [z3.And(p >= 0, p <= q, E[j] >= 0, E[j] <= L[j])], "a smaller box has at most as many cells", z3.And(p * E[j] >= 0, p * E[j] <= q * L[j]), kind="lemma", extra=[Z(ge(mul(sub(q, p), L[j]), 0)), Z(ge(mul(p, sub(L[j], E[j])), 0))])
        p, q = z3.Int("p%d" % j), z3.Int("q%d" % j)

class Mai:
    """contract of MultiArrayIter used at the calls"""
    def __init__(self, B): self.B = B; self.last = None
    def new(self, I, st, lo, hi, row, n=None):
        if not isinstance(row, bool): raise Unsupported("iterator order is not a constant")
        I.eng.oblige(st, "%s: an iterator's box has high corner >= low corner" % I.fname, "pre", band(*[le(a, b) for a, b in zip(lo.items, hi.items)]), I.loc(n) if n else None)
        if lo.len != self.B.nd or hi.len != self.B.nd: raise Unsupported("iterator of another dimension")
        return Obj("MAI", {"lo": lo, "hi": hi, "row": row, "pos": 0})
    def ctor(self, I, st, args, n):
        I.eng.called.add("MultiArrayIter::MultiArrayIter")
        if not args: return UNDEF_MAI
        v = [I.rv(st, a) for a in args]
        if len(v) == 1: return v[0]
        return self.new(I, st, v[0], v[1], v[2], n)
    def ext(self, v): return [simp(sub(h, l)) for l, h in zip(v.fields["lo"].items, v.fields["hi"].items)]
    def method(self, I, st, base, v, nm, args, n, want_ref):
        I.eng.called.add("MultiArrayIter::" + nm); B = self.B; loc = I.loc(n)
        if nm == "build":
            a = [I.rv(st, x) for x in args]; st.write(base, self.new(I, st, a[0], a[1], a[2], n)); return None
        if v.fields["lo"] is UNDEF: raise Unsupported("iterator used before it is built")
        lo, row, pos, e = v.fields["lo"].items, v.fields["row"], v.fields["pos"], self.ext(v)
        if nm == "getNumberOfTerms": return B.NT(e)
        if nm == "begin": st.write(base + (("f", "pos"),), 0); return None
        if nm == "next": st.write(base + (("f", "pos"),), add(pos, 1)); return None
        if nm == "move": st.write(base + (("f", "pos"),), I.norm(st, I.rv(st, args[0]), strip_ref(ctype(args[0]["type"])))); return None
        if nm == "getIndices":
            g = band(ge(pos, 0), lt(pos, B.NT(e)))
            I.eng.oblige(st, "%s: getIndices is called at a position of the box" % I.fname, "pre", g, loc); st.assume(g)
            d = B.dig(row, e, pos)
            for x, y in zip(d, e): st.assume(band(ge(x, 0), lt(x, y)))
            return CVec([add(l, x) for l, x in zip(lo, d)])
        if nm == "computeBigIndex":
            x = I.rv(st, args[0])
            if x.len != B.nd: raise Unsupported("index set of another dimension")
            c = [simp(sub(a, l)) for a, l in zip(x.items, lo)]
            g = band(*[band(ge(a, 0), lt(a, b)) for a, b in zip(c, e)])
            I.eng.oblige(st, "%s: the index set given to computeBigIndex is in the box" % I.fname, "pre", g, loc)
            t = B.flat(row, e, c); st.assume(g); st.assume(band(ge(t, 0), lt(t, B.NT(e))))
            return t
        if nm in ("getLBegIndices", "getBegIndices"): return v.fields["lo"]
        if nm == "getEndIndices": return v.fields["hi"]
        raise Unsupported("MultiArrayIter::" + nm)
UNDEF_MAI = Obj("MAI", {"lo": UNDEF, "hi": UNDEF, "row": False, "pos": 0})

# ----------------------------------------------------------------------------- the decomposition: contract of CubeDecomp
class Dcmp:
    """ranks and corners: every rank owns the box [lo, lo+l); see C02, C03"""
    def __init__(self, C): self.C = C
    def lo_of(self, I, st, r, n):
        C = self.C
        r = unz(r)
        if same(r, C.rk): return C.lo
        for d, t in C.nbrs.items():
            if same(t, r): return C.nbr_lo(d)
        I.eng.oblige(st, "%s: the rank asked for is valid" % I.fname, "pre", band(ge(r, 0), lt(r, C.sz)), I.loc(n))
        st.assume(band(ge(r, 0), lt(r, C.sz)))
        return C.lof(r)
    def method(self, I, st, base, v, nm, args, n, want_ref):
        C = self.C; I.eng.called.add("CubeDecomp::" + nm)
        if nm == "build":
            p, d = I.rv(st, args[0]), I.rv(st, args[1])
            I.eng.oblige(st, "the decomposition is built for the given process count and grid", "pre", band(eq(p, C.sz), eq(d.len, C.nd), *[eq(a, b) for a, b in zip(d.items, C.n)]), I.loc(n))
            return C.ok
        if nm in ("getBegIndices", "getEndIndices"):
            lo = self.lo_of(I, st, I.rv(st, args[0]), n)
            return CVec(lo if nm == "getBegIndices" else [add(a, b) for a, b in zip(lo, C.l)])
        if nm == "getNeighborRank":
            r, d = I.rv(st, args[0]), I.rv(st, args[1])
            I.eng.oblige(st, "%s: the neighbour asked for is this rank's" % I.fname, "post", eq(r, C.rk), I.loc(n))
            k = I.key_of(st, d)
            if len(k) != C.nd: raise Unsupported("direction")
            if not any(k): return C.rk
            t = C.nbr(k); st.assume(band(ge(t, 0), lt(t, C.sz)))
            return t
        if nm == "getDecomp": return CVec(C.d)
        if nm == "getNumDims": return C.nd
        raise Unsupported("CubeDecomp::" + nm)

# ----------------------------------------------------------------------------- the problem
class Ctx:
    def __init__(self, nd):
        self.nd = nd; self.B = Boxes(nd)
        self.n = [z3.Int("n%d" % j) for j in range(nd)]; self.l = [z3.Int("l%d" % j) for j in range(nd)]
        self.lo = [z3.Int("lo%d" % j) for j in range(nd)]; self.d = [z3.Int("d%d" % j) for j in range(nd)]
        self.rk, self.sz = z3.Int("rank"), z3.Int("nprocs")
        self.xmin = [z3.Real("xmin%d" % j) for j in range(nd)]; self.xmax = [z3.Real("xmax%d" % j) for j in range(nd)]
        self.ok = True; self.nbrs = {}
        self.sides = [tuple((s if i == a else 0) for i in range(nd)) for a in range(nd) for s in (-1, 1)]
        self.PG = {s: z3.Bool("present_%s" % self.sname(s)) for s in self.sides}; self.G = {s: z3.Int("ghosts_%s" % self.sname(s)) for s in self.sides}
        R = [INT] * nd + [REAL]
        self.IN, self.OUT = z3.Function("IN", *R), z3.Function("OUT", *R)
        self.LOF = [z3.Function("lo_of_%d" % j, INT, INT) for j in range(nd)]
        self.ns = z3.Int("nstencil"); self.CS = z3.Function("stencil_case", INT, INT); self.M = z3.Function("stencil_reach", INT, INT); self.W = z3.Function("stencil_weight", INT, REAL)
        self.NLOC = self.B.NT(self.l)
    def sname(self, s): a = self.axis(s); return "%s%d" % ("m" if s[a] < 0 else "p", a)
    def axis(self, s): return next(i for i in range(self.nd) if s[i])
    def pre(self):
        """facts on the sub-domain (C02): l divides n, the low corner is a multiple of l"""
        out = [z3.And(self.rk >= 0, self.rk < self.sz, self.sz <= IMAX), self.ns >= 0, self.ns <= IMAX]
        for n, l, lo, d in zip(self.n, self.l, self.lo, self.d):
            out += [l >= 1, l <= n, lo >= 0, lo + l <= n, n <= 2**30, z3.Implies(lo + l < n, lo + 2 * l <= n), z3.Implies(lo > 0, lo - l >= 0), d >= 1, d <= n]
        return out + self.B.facts(self.l)
    def lemmas(self, U):
        e = U.engine("lemma: corners of the sub-domains")
        x, d, l = z3.Ints("x d l"); n, lo = d * l, x * l
        h = [l >= 1, x >= 0, x < d]; hint = [(d - 1 - x) * l >= 0, x * l >= 0]
        for t in hint: U.goal(e, h, "monotonicity instance", t, kind="lemma")
        h2 = h + hint
        U.goal(e, h2, "corner in the grid", z3.And(l <= n, lo >= 0, lo + l <= n), kind="lemma")
        U.goal(e, h2 + [z3.Or(x == d - 1, (d - 2 - x) * l >= 0)], "room for the next sub-domain", z3.Implies(lo + l < n, lo + 2 * l <= n), kind="lemma")
        U.goal(e, h, "monotonicity instance", z3.Or(x == d - 1, (d - 2 - x) * l >= 0), kind="lemma")
        U.goal(e, h, "monotonicity instance", z3.Or(x == 0, (x - 1) * l >= 0), kind="lemma")
        U.goal(e, h2 + [z3.Or(x == 0, (x - 1) * l >= 0)], "room for the previous sub-domain", z3.Implies(lo > 0, lo - l >= 0), kind="lemma")
        U.goal(e, h2 + [z3.Or(x == d - 1, (d - 2 - x) * l >= 0)], "low corner of the next sub-domain, with wrap-around", z3.If(x + 1 >= d, 0, (x + 1) * l) == z3.If(lo + l == n, 0, lo + l), kind="lemma")
        U.goal(e, h2 + [z3.Or(x == 0, (x - 1) * l >= 0)], "low corner of the previous sub-domain, with wrap-around", z3.If(x - 1 < 0, (d - 1) * l, (x - 1) * l) == z3.If(lo == 0, n - l, lo - l), kind="lemma")
    def nbr(self, d):
        t = z3.Function("neighbor_" + "".join("m0p"[x + 1] for x in d), INT, INT)(self.rk); self.nbrs[d] = t
        return t
    def nbr_lo(self, d):
        out = []
        for s, lo, l, n in zip(d, self.lo, self.l, self.n):
            out.append(lo if s == 0 else z3.If(lo + l == n, 0, lo + l) if s > 0 else z3.If(lo == 0, n - l, lo - l))
        return out
    def lof(self, r): return [f(Z(r)) for f in self.LOF]
    def lof_facts(self):
        r = z3.Int("qr")
        return [QFact((r,), implies(band(ge(r, 0), lt(r, self.sz)), band(ge(f(r), 0), le(f(r) + l, n))), [f(r)], "corner") for f, l, n in zip(self.LOF, self.l, self.n)]
    # --- stencil
    def offset(self, s, m): return CVec([0 if x == 0 else neg(m) if x > 0 else m for x in s])     # the branch that reaches across side s (from the source rank's view)
    def stencil(self, known=True):
        """symbolic stencil: every branch is zero or along one axis, with reach at most the sub-domain"""
        C = self
        m = SMap(C.ns, None, lambda p: C.W(Z(p)), tag="stencil")
        def cases(pos):
            out = []
            mk = lambda key: SMap(C.ns, lambda p: key, lambda p: C.W(Z(p)), tag="stencil")
            P = Z(pos)
            for i, s in enumerate(C.sides):
                c = mk(C.offset(s, C.M(P))); c.case = s
                hy = [band(ge(C.M(P), 1), le(C.M(P), C.l[C.axis(s)]))]
                if known: hy += [C.PG[s], le(C.M(P), C.G[s])]
                out.append((eq(C.CS(P), i + 1), hy, c))
            c = mk(CVec([0] * C.nd)); c.case = 0
            # every branch is of one of the shapes
            out.insert(0, (eq(C.CS(P), 0), [], c))
            return out
        m.cases = cases
        return m
    def shape_fact(self):
        p = z3.Int("qp")
        return QFact((p,), z3.And(self.CS(p) >= 0, self.CS(p) <= len(self.sides)), [self.CS(p)], "shape")
    # --- windows
    def wext(self, s): return [self.G[s] if x else l for x, l in zip(s, self.l)]
    def wlo(self, s, lo): return [a if x == 0 or x < 0 else sub(add(a, l), self.G[s]) for x, a, l in zip(s, lo, self.l)]
    def window_facts(self): return [implies(self.PG[s], band(ge(self.G[s], 1), le(self.G[s], self.l[self.axis(s)]))) for s in self.sides]
    def wcontent(self, s, lo, i, F=None):
        """value at position i of the window on side s of the rank with low corner lo: the global field there"""
        d = self.B.dig(False, self.wext(s), i)
        return (self.IN if F is None else F)(*[Z(add(a, x)) for a, x in zip(self.wlo(s, lo), d)])
    def local(self, i, F=None):
        d = self.B.dig(False, self.l, i)
        return (self.IN if F is None else F)(*[Z(add(a, x)) for a, x in zip(self.lo, d)])
    def interp(self, eng, tu):
        I = Interp(eng, tu); M = Mai(self.B); D = Dcmp(self)
        I.models["MultiArrayIter"] = M.ctor; I.objmodels["MAI"] = M.method; I.objmodels["DCMP"] = D.method
        I.defaults["MultiArrayIter"] = lambda I: UNDEF_MAI; I.defaults["CubeDecomp"] = lambda I: Obj("DCMP", {})
        I.mpi = Mpi(self); I.models["CubeDecomp"] = lambda I, st, args, n: Obj("DCMP", {})
        return I
    def mai(self, lo, ext, pos): return Obj("MAI", {"lo": CVec(lo), "hi": CVec([simp(add(a, b)) for a, b in zip(lo, ext)]), "row": False, "pos": pos})
    def object(self, I, st):
        """a Filter between two calls: class invariant"""
        o = default_value(I, "Filter", False)
        NL = self.NLOC
        f = dict(ndims=self.nd, globalDims=CVec(self.n), xmins=CVec(self.xmin), xmaxs=CVec(self.xmax), lo=CVec(self.lo), hi=CVec([add(a, b) for a, b in zip(self.lo, self.l)]),
                 rk=self.rk, sz=self.sz, validDecomp=True, dcmp=Obj("DCMP", {}), mit=self.mai(self.lo, self.l, z3.Int("anypos")),
                 inData=SVec(NL, lambda i: self.local(i)), outData=SVec(NL, lambda i: self.local(i, self.OUT)), stencil=self.stencil(),
                 winNumGhosts=CMap({s: (self.PG[s], self.G[s]) for s in self.sides}),
                 windows=CMap({s: (self.PG[s], Opaque("win:" + self.sname(s))) for s in self.sides}),
                 winIter=CMap({s: (self.PG[s], self.mai(self.wlo(s, self.lo), self.wext(s), z3.Int("anypos_" + self.sname(s)))) for s in self.sides}),
                 winData=CMap({s: (self.PG[s], Obj("pair", {"first": Ptr(("heapS_" + self.sname(s),), 0), "second": Ptr(("heapD_" + self.sname(s),), 0)})) for s in self.sides}))
        for k, v in f.items():
            if k not in o.fields: raise Unsupported("Filter has no member " + k)
            o = o.with_(k, v)
        for s in self.sides:
            e = self.wext(s); nm = self.sname(s)
            st.vars["heapS_" + nm] = SVec(self.B.NT(e), (lambda s: lambda i: self.wcontent(s, self.lo, i))(s))
            g = z3.Function("garbage_" + nm, INT, REAL)
            st.vars["heapD_" + nm] = SVec(self.B.NT(e), (lambda g: lambda i: g(Z(i)))(g))
            st.vars["ep:win:" + nm] = Obj("EP", {"open": 0, "pend": 0})
            for b in ("win:" + nm, "heapS_" + nm, "heapD_" + nm): st.vars["freed:" + b] = 0
        for f in self.pre() + self.window_facts() + [self.shape_fact()]: st.assume(f)
        return o
    def state(self, eng, tu):
        I = self.interp(eng, tu); st = State()
        st.vars["self"] = self.object(I, st)
        return I, st

# ----------------------------------------------------------------------------- MPI calls
def names_in(n):
    out = set(); stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if x.get("kind") == "DeclRefExpr": out.add(x["referencedDecl"]["name"])
            stack.extend(x.get("inner", []))
    return out
NOCHECK, NOPRECEDE, NOPUT, NOSTORE, NOSUCCEED = 1, 2, 4, 8, 16
class Mpi:
    """contracts of the MPI calls, as seen by one rank; the other ranks run the same program and keep the same class invariant"""
    def __init__(self, C): self.C = C; self.pending = {}; self.reduced = []; self.gathered = []; self.created = {}; self.freed = []
    def is_(self, n, nm): return nm in names_in(n)
    def ob(self, I, st, what, g, n, kind="post"): I.eng.oblige(st, "%s: %s" % (I.fname, what), kind, g, I.loc(n))
    def call(self, I, st, nm, args, n):
        I.eng.called.add(nm)
        h = getattr(self, nm, None)
        if h is None: raise Unsupported("call of " + nm)
        r = h(I, st, args, n)
        return 0 if r is None else r
    def ptr(self, I, st, a): 
        v = I.rv(st, a)
        if not isinstance(v, Ptr): raise Unsupported("pointer argument of an MPI call")
        return v
    def put(self, I, st, p, v, n):
        if p.path is None: raise Unsupported("null argument of an MPI call")
        I.write(st, p.path if getattr(p, "scalar", False) else p.path + (("i", p.off),), v, n)
    def world(self, I, st, a, n): self.ob(I, st, "the communicator is the world", self.is_(a, "ompi_mpi_comm_world"), n)
    def MPI_Comm_rank(self, I, st, args, n): self.world(I, st, args[0], n); self.put(I, st, self.ptr(I, st, args[1]), self.C.rk, n)
    def MPI_Comm_size(self, I, st, args, n): self.world(I, st, args[0], n); self.put(I, st, self.ptr(I, st, args[1]), self.C.sz, n)
    def MPI_Barrier(self, I, st, args, n): return 0
    def div8(self, t):
        if isint(t): return t // 8 if t % 8 == 0 else None
        A = Atoms()
        try: p = poly(simp(t), A)
        except NotRing: return None
        if any(c % 8 for c in p.values()): return None
        return to_term({m: c / 8 for m, c in p.items()}, A)
    def MPI_Alloc_mem(self, I, st, args, n):
        size = I.norm(st, I.rv(st, args[0]), "unsigned long"); p = self.ptr(I, st, args[2])
        cnt = self.div8(size)
        if cnt is None: raise Unsupported("allocation of a size that is not a whole number of doubles")
        r = "heap%d" % next(I.eng.names)
        g = I.eng.fresh_fn("mem", 1, REAL)
        st.vars[r] = SVec(cnt, lambda i: g(i))
        st.vars["freed:" + r] = 0
        self.put(I, st, p, Ptr((r,), 0), n)
    def MPI_Free_mem(self, I, st, args, n):
        v = I.rv(st, args[0])
        if isinstance(v, Ptr) and v.path is not None and len(v.path) == 1 and isint(v.off) and v.off == 0:
            k = "freed:" + v.path[0]
            self.ob(I, st, "memory is freed at most once", eq(st.vars.get(k, 0), 0), n, "safety"); st.vars[k] = 1
            b = v.path[0]; w = "win:" + b[6:] if b.startswith("heapS_") else "win:" + b
            if b.startswith("heapS_") or w in self.created: self.ob(I, st, "memory is freed after the window over it", eq(st.vars.get("freed:" + w, 0), 1), n, "safety")
            return
        raise Unsupported("MPI_Free_mem of another pointer")
    def MPI_Win_create(self, I, st, args, n):
        b = self.ptr(I, st, args[0]); size = I.norm(st, I.rv(st, args[1]), strip_ref(ctype(args[1]["type"]))); disp = I.rv(st, args[2])
        self.world(I, st, args[4], n)
        if b.path is None or len(b.path) != 1: raise Unsupported("window over other memory")
        v = st.read(b.path)
        self.ob(I, st, "the window exposes the whole buffer", band(eq(b.off, 0), eq(size, mul(8, v.len))), n)
        self.ob(I, st, "the window's unit is one value", eq(disp, 8), n)
        nm = "win:" + b.path[0]
        self.created[nm] = b.path[0]
        st.vars["ep:" + nm] = Obj("EP", {"open": 0, "pend": 0}); st.vars["freed:" + nm] = 0
        self.put(I, st, self.ptr(I, st, args[5]), Opaque(nm), n)
    def MPI_Win_free(self, I, st, args, n):
        p = self.ptr(I, st, args[0]); w = I.read(st, p.path)
        if not isinstance(w, Opaque): raise Unsupported("window handle")
        k = "freed:" + w.name
        self.ob(I, st, "a window is freed at most once", eq(st.vars.get(k, 0), 0), n, "safety"); st.vars[k] = 1
    def win(self, st, v):
        if not (isinstance(v, Opaque) and v.name.startswith("win:")): raise Unsupported("window handle")
        return v.name
    def MPI_Win_fence(self, I, st, args, n):
        f = I.rv(st, args[0]); w = self.win(st, I.rv(st, args[1]))
        if not isint(f): raise Unsupported("fence assertion is not a constant")
        ep = st.vars["ep:" + w]
        pend = unz(ep.fields["pend"])
        if not isint(pend): raise Unsupported("fence after a conditional transfer")
        self.ob(I, st, "the fence does not claim that no store to the window preceded it", not (f & NOSTORE), n)
        if pend:
            self.ob(I, st, "the fence that completes a transfer does not claim that there is none", not (f & NOPRECEDE), n)
            path, off, cnt, content = self.pending[w]
            v = st.read(path)
            if isint(off) and off == 0 and I.eng.entails(st, eq(cnt, v.len)): st.write(path, SVec(v.len, content))
            else: st.write(path, v.with_layer(Layer(lambda i: band(ge(i, off), lt(i, add(off, cnt))), lambda i: content(sub(i, off)))))
        st.vars["ep:" + w] = Obj("EP", {"open": 0 if f & NOSUCCEED else 1, "pend": 0})
    def MPI_Get(self, I, st, args, n):
        C = self.C
        dst = self.ptr(I, st, args[0]); cnt = I.rv(st, args[1]); rank = I.rv(st, args[3]); disp = I.rv(st, args[4]); tcnt = I.rv(st, args[5]); w = self.win(st, I.rv(st, args[7]))
        ep = st.vars["ep:" + w]
        self.ob(I, st, "the transfer is between two fences of its window", eq(ep.fields["open"], 1), n)
        for a in (args[2], args[6]): self.ob(I, st, "the type transferred is double", self.is_(a, "ompi_mpi_double"), n)
        s = next((q for q in C.sides if C.sname(q) == w[4:]), None)
        if s is None: raise Unsupported("transfer from an unknown window")
        self.ob(I, st, "as many values are received as are sent", eq(cnt, tcnt), n)
        wn = C.B.NT(C.wext(s))
        self.ob(I, st, "the transfer stays within the remote window", band(ge(cnt, 0), ge(disp, 0), le(add(disp, cnt), wn)), n)
        if dst.path is None: raise Unsupported("null receive buffer")
        self.ob(I, st, "the transfer stays within the receive buffer", band(ge(dst.off, 0), le(add(dst.off, cnt), st.read(dst.path).len)), n)
        d = next((q for q, t in C.nbrs.items() if same(t, unz(rank))), None)
        lo = C.lo if same(unz(rank), C.rk) else C.nbr_lo(d) if d is not None else None
        if lo is None: raise Unsupported("transfer from an unknown rank")
        self.pending[w] = (dst.path, dst.off, cnt, lambda i: C.wcontent(s, lo, add(i, disp)))
        st.vars["ep:" + w] = Obj("EP", {"open": ep.fields["open"], "pend": 1})
    def MPI_Reduce(self, I, st, args, n):
        a, b = self.ptr(I, st, args[0]), self.ptr(I, st, args[1]); cnt = I.rv(st, args[2]); root = I.rv(st, args[5])
        self.world(I, st, args[6], n)
        self.ob(I, st, "the reduction is of one double, by sum, to rank 0", band(eq(cnt, 1), self.is_(args[3], "ompi_mpi_double"), self.is_(args[4], "ompi_mpi_op_sum"), eq(root, 0)), n)
        v = I.read(st, a.path if getattr(a, "scalar", False) else a.path + (("i", a.off),))
        self.reduced.append(v)
        old = I.read(st, b.path if getattr(b, "scalar", False) else b.path + (("i", b.off),))
        self.put(I, st, b, ite(eq(self.C.rk, root), SUMRANKS(Z(R(v))), old), n)
    def MPI_Gather(self, I, st, args, n):
        C = self.C
        a = self.ptr(I, st, args[0]); cnt = I.rv(st, args[1]); b = I.rv(st, args[3]); rc = I.rv(st, args[4]); root = I.rv(st, args[6])
        self.world(I, st, args[7], n)
        self.ob(I, st, "doubles are gathered on rank 0", band(self.is_(args[2], "ompi_mpi_double"), self.is_(args[5], "ompi_mpi_double"), eq(root, 0), eq(cnt, rc)), n)
        v = st.read(a.path)
        self.ob(I, st, "every process sends its whole output", band(eq(a.off, 0), eq(cnt, v.len)), n)
        self.gathered.append((v, cnt))
        if not isinstance(b, Ptr) or b.path is None: raise Unsupported("receive buffer of the gather")
        w = st.read(b.path)
        isroot = eq(C.rk, 0)
        self.ob(I, st, "the receive buffer of the root holds the data of all the processes", implies(isroot, band(eq(b.off, 0), ge(w.len, mul(C.sz, cnt)))), n)
        # processes 0..P-1 in order, cnt values each: value i of process r is its output there
        g = lambda i: GATHER(Z(i))
        st.write(b.path, SVec(w.len, lambda i: merge_value(isroot, g(i), safe_get(w, i)) if not (isinstance(w, CVec) and not w.items) else g(i)))
SUMRANKS = z3.Function("sum_over_ranks", REAL, REAL); GATHER = z3.Function("gathered", INT, REAL)

# ----------------------------------------------------------------------------- proving
def conj(c):
    if z3.is_and(c) or z3.is_or(c): return [y for x in c.children() for y in conj(x)]
    if z3.is_not(c): return conj(c.arg(0))
    return [c]
class Red:
    """decides equations between terms over cells, windows and remainders: conditionals, remainders and digits are resolved under
    linear hypotheses (z3), with case splits on what is left open"""
    def __init__(self, C, hyps, extra=()):
        self.C, self.s = C, z3.Solver(); self.s.set("timeout", 3000); self.depth = 0
        for h in list(hyps) + list(extra):
            if is_z(h): self.s.add(h)
        self.memo = [{}]; self.n = 0; self.end = time.time() + 120
        B = C.B
        self.digs = {}
        for row in (False, True):
            for j, f in enumerate(B.fn[row][1]): self.digs[f.name()] = (row, j)
        self.flats = {B.fn[row][0].name(): row for row in (False, True)}
    def ent(self, g):
        g = unz(g)
        if not is_z(g): return bool(g)
        for m in self.memo:
            if m.get(g.get_id(), (False,))[0]: return True
        m = self.memo[-1]
        if g.get_id() in m: return m[g.get_id()][0]
        if time.time() > self.end: raise OutOfTime()
        self.s.push(); self.s.add(z3.Not(g)); r = self.s.check(); self.s.pop(); self.n += 1
        m[g.get_id()] = (r == z3.unsat, g)
        return r == z3.unsat
    def push(self, c): self.s.push(); self.s.add(Z(c)); self.memo.append({})
    def pop(self): self.s.pop(); self.memo.pop()
    def cond(self, c):
        """truth value of a condition, or the condition with its decided parts removed"""
        if not is_z(c): return c
        if z3.is_and(c) or z3.is_or(c):
            f = band if z3.is_and(c) else bor
            return f(*[self.cond(x) for x in c.children()])
        if z3.is_not(c): return bnot(self.cond(c.arg(0)))
        if z3.is_app(c) and c.num_args() == 2 and c.arg(0).sort() != BOOL:
            a, b = self.reduce(c.arg(0)), self.reduce(c.arg(1)); c = unz(c.decl()(Z(a), Z(b)) if c.arg(0).sort() == INT else c)
            if not is_z(c): return c
            c2 = unz(z3.simplify(c))
            if not is_z(c2): return c2
        if self.ent(c): return True
        if self.ent(bnot(c)): return False
        return c
    def reduce(self, t):
        memo = {}
        def go(x):
            if not is_z(x): return x
            i = x.get_id()
            if i not in memo: memo[i] = (step(x), x)
            return memo[i][0]
        def step(x):
            if not z3.is_app(x) or x.num_args() == 0: return unz(x)
            k = x.decl().kind()
            if k == z3.Z3_OP_ITE:
                c = self.cond(x.arg(0))
                if c is True: return go(x.arg(1))
                if c is False: return go(x.arg(2))
                self.open.append(c)
                return ite(c, go(x.arg(1)), go(x.arg(2)))
            nm = x.decl().name()
            ch = [go(y) for y in x.children()]
            if nm == "imod" or k == z3.Z3_OP_MOD or nm == "idiv" or k == z3.Z3_OP_IDIV:
                a, b = simp(Z(ch[0])), ch[1]
                if not has_ite(a):
                    for q in (0, 1, -1, 2):
                        r = simp(Z(sub(a, mul(q, b))))
                        if self.ent(band(ge(r, 0), lt(r, b))): return r if nm == "imod" or k == z3.Z3_OP_MOD else q
                    self.open += [lt(a, 0), ge(a, b)]
                return Z(x.decl()(Z(a), Z(b)))
            if nm in self.digs:
                row, j = self.digs[nm]; nd = self.C.nd
                p = unz(ch[-1])
                if is_z(p) and z3.is_app(p) and self.flats.get(p.decl().name()) is row:
                    e, c = [unz(y) for y in p.children()[:nd]], [unz(y) for y in p.children()[nd:]]
                    if not any(has_ite(Z(y)) for y in c):
                        if all(self.ent(eq(a, b)) for a, b in zip(e, ch[:nd])):
                            r = [band(ge(a, 0), lt(a, b)) for a, b in zip(c, e)]
                            if all(self.ent(q) for q in r): return c[j]
                            self.open += [q for q in r if not self.ent(q)]
            if all(same(a, unz(b)) for a, b in zip(ch, x.children())): return x
            ch = [Z(a) for a in ch]
            if k == z3.Z3_OP_ADD: return simp(Z(reduce_(add, ch)))
            ch = [z3.ToReal(a) if x.arg(i).sort() == REAL and a.sort() == INT else a for i, a in enumerate(ch)]
            if k == z3.Z3_OP_MUL: return simp(Z(reduce_(mul, ch)))
            if k == z3.Z3_OP_SUB: return simp(Z(sub(ch[0], ch[1])))
            return unz(x.decl()(*ch))
        self.open = []
        return go(t)
    def equal(self, a, b, depth=0):
        """None, or the two terms in the case that is not decided"""
        x, o1 = self.reduce(a), None; o1 = self.open
        y = self.reduce(b); op = o1 + self.open
        if same(unz(x), unz(y)) or same(simp(sub(x, y)), 0) or self.ent(eq(x, y)): return None
        if congruent(x, y, self.ent): return None
        if depth > 14: return (x, y)
        for c in op:
            for q in conj(c):
                if not is_z(q) or has_ite(q) or self.ent(q) or self.ent(bnot(q)): continue
                for cc in (q, bnot(q)):
                    self.push(cc)
                    try: 
                        r = None if self.s.check() == z3.unsat else self.equal(x, y, depth + 1)
                    finally: self.pop()
                    if r is not None: return r
                return None
        return (x, y)
    def holds(self, g, depth=0):
        g = self.cond(g); 
        if g is True: return True
        if g is False: return False
        if is_z(g) and z3.is_and(g): return all(self.holds(x, depth) for x in g.children())
        self.reduce(z3.If(Z(g), z3.IntVal(1), z3.IntVal(0))); op = list(self.open)
        self.open = []
        for x in atoms_of(g):
            for y in x.children():
                if y.sort() != BOOL: self.reduce(y); op += self.open
        if depth > 14: return False
        for c in op:
            for q in conj(c):
                if not is_z(q) or has_ite(q) or self.ent(q) or self.ent(bnot(q)): continue
                ok = True
                for cc in (q, bnot(q)):
                    self.push(cc)
                    try: ok = self.s.check() == z3.unsat or self.holds(g, depth + 1)
                    finally: self.pop()
                    if not ok: return False
                return True
        return False
def atoms_of(c): return [c] if not (z3.is_and(c) or z3.is_or(c) or z3.is_not(c)) else [y for x in c.children() for y in atoms_of(x)]
def has_ite(t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_MOD, z3.Z3_OP_IDIV) or x.decl().name() in ("imod", "idiv"): return True
        st.extend(x.children())
    return False
def reduce_(f, xs):
    r = xs[0]
    for x in xs[1:]: r = f(r, x)
    return r
def red_equal(U, C, hyps, nm, a, b, kind="post", extra=()):
    if not U.want(kind): return
    try: r = Red(C, hyps, extra).equal(a, b)
    except OutOfTime: U.add(nm, kind, "unknown", None, "time limit"); return
    U.add(nm, kind, "proved" if r is None else "refuted", "z3 (cases)" if r is None else None, None if r is None else "%s  /  %s" % r)
def discharge(U, eng, C=None, kinds=("pre",)):
    """preconditions of callees, with case splits, and everything else the usual way"""
    pre = [o for o in eng.obls if o.kind in kinds]; eng.obls = [o for o in eng.obls if o.kind not in kinds]
    U.discharge(eng)
    done = set()
    for o in pre:
        if not U.want("pre"): break
        k = (o.goal.get_id(), tuple(h.get_id() if is_z(h) else id(h) for h in o.hyps))
        if k in done: continue
        done.add(k)
        s, be = eng.prover.check(o.hyps, o.goal, 4000)
        if s != "proved":
            try: s, be = ("proved", "z3 (cases)") if C is not None and Red(C, eng.prover.ground(o.hyps, o.goal)).holds(o.goal) else (s, None)
            except OutOfTime: s = "unknown"
        U.add(o.name, "pre", s, be if s == "proved" else None, None if s == "proved" else o.goal, o.loc)
def frame(U, eng, st, obj0, obj1, allowed):
    """members that may change are listed; everything else is as before"""
    bad = []
    for p in changed(State({"o": obj0}), State({"o": obj1})):
        q = [a[1] for a in p[1:]]
        if not any(q[:len(a)] == list(a) for a in allowed):
            a, b = lget(obj0, p[1:]), lget(obj1, p[1:])
            if q[-1:] == ["pos"]: continue            # the position of an iterator is not part of the class invariant
            if (is_z(a) or isinstance(a, (int, Fraction))) and (is_z(b) or isinstance(b, (int, Fraction))) and eng.entails(st, eq(a, b), 2000): continue
            bad.append(".".join(str(x) for x in q))
    U.fact("nothing else of the object changes", not bad, detail=str(bad))
def cell(C, nm="c"):
    c = [z3.Int("%s%d" % (nm, j)) for j in range(C.nd)]
    return c, [z3.And(x >= 0, x < l) for x, l in zip(c, C.l)]
def heap_keep(U, C, st0, st1, which):
    for s in C.sides:
        k = which + C.sname(s)
        U.fact("buffer of side %s is not modified" % C.sname(s), st1.vars[k] is st0.vars[k] or same_arr(st1.vars[k], st0.vars[k]))
def same_arr(a, b): return isinstance(a, SVec) and isinstance(b, SVec) and a.base == b.base and len(a.layers) == len(b.layers)
def epochs(U, C, st):
    for s in C.sides:
        e = st.vars["ep:win:" + C.sname(s)]
        U.fact("no transfer is left pending on side %s" % C.sname(s), same(unz(e.fields["pend"]), 0))

# ----------------------------------------------------------------------------- applyFilter
def apply_unit(nd):
    def run(U):
        tu = filter_tu(); C = Ctx(nd); eng = U.engine("Filter::applyFilter"); I, st = C.state(eng, tu)
        U.vacuity(eng, st.hyps, "Filter::applyFilter")
        s0 = st.copy(); hy0 = list(st.hyps); obj0 = st.vars["self"]
        invoke(I, st, method(tu, "Filter", "applyFilter"), ("self",))
        discharge(U, eng, C)
        obj = st.vars["self"]; out = obj.fields["outData"]
        frame(U, eng, st, obj0, obj, [("outData",)]); heap_keep(U, C, s0, st, "heapS_"); epochs(U, C, st)
        rec = out.meta
        if rec is None or getattr(rec, "kind", "") != "array": raise Unsupported("the output is not accumulated by a loop over the stencil")
        U.goal(eng, hy0, "the output keeps its length", eq(out.len, C.NLOC), kind="invariant")
        U.goal(eng, hy0, "every branch of the stencil is applied", eq(rec.N, C.ns))
        c, rng = cell(C); f = C.B.flat(False, C.l, c)
        base = hy0 + rng
        U.goal(eng, base, "the accumulation starts from zero", eq(rec.init.get(f), 0))
        k = z3.Int("branch")
        t = rec.step.get(f)
        t = subst(t, [(rec.kap, k)])
        hk = base + [k >= 0, Z(lt(k, C.ns))] + [h for h in st.hyps if isinstance(h, QFact)]
        cases = C.stencil().cases(k)
        for cond, hyps, m in cases:
            key = m.key(k)
            g = [add(a, b) for a, b in zip(C.lo, c)]
            tgt = []
            for a, o, n in zip(g, key.items, C.n):
                x = add(a, o); tgt.append(x if isint(o) and o == 0 else ite(lt(x, 0), add(x, n), ite(ge(x, n), sub(x, n), x)))
            goal = add(rec.fn(k, f), mul(C.W(k), C.IN(*[Z(x) for x in tgt])))
            hc = hk + [Z(cond)] + [Z(h) for h in hyps]
            nm = "a branch with offset %s adds weight times the input at the displaced cell of the periodic grid" % (list(m.case) if m.case else "zero")
            red_equal(U, C, hc, nm, t, goal, extra=[Z(ge(f, 0)), Z(lt(f, C.NLOC))])
        # every branch is of one of the cases
        U.goal(eng, hk, "the cases are exhaustive", bor(*[x[0] for x in cases]), kind="lemma", extra=[C.shape_fact().body if False else Z(z3.substitute(C.shape_fact().body, (z3.Int("qp"), k)))])
    return run

# ----------------------------------------------------------------------------- the data members are set
def coherent(U, C, hyps, st, F, what):
    """invariant of the class: inData holds the field on the sub-domain and every window exposes the field next to its side"""
    obj = st.vars["self"]; a = obj.fields["inData"]
    U.goal(U.engines[-1], hyps, "the input keeps its length", eq(a.len, C.NLOC), kind="invariant")
    c, rng = cell(C); f = C.B.flat(False, C.l, c)
    ranges = [Z(ge(f, 0)), Z(lt(f, C.NLOC))]
    red_equal(U, C, hyps + rng + ranges, "the input at every cell of the sub-domain is %s" % what, a.get(f), F([add(x, y) for x, y in zip(C.lo, c)]))
    for s in C.sides:
        v = st.vars["heapS_" + C.sname(s)]; e = C.wext(s); w = [z3.Int("w%d" % j) for j in range(C.nd)]
        f = C.B.flat(False, e, w); h = [C.PG[s]] + [z3.And(x >= 0, Z(lt(x, y))) for x, y in zip(w, e)] + [Z(ge(f, 0)), Z(lt(f, C.B.NT(e)))]
        lf = [add(x, y) for x, y in zip(w, sub_each(C.wlo(s, C.lo), C.lo))]; g = C.B.flat(False, C.l, lf)
        U.goal(U.engines[-1], hyps + h, "the exposed buffer on side %s keeps its length" % C.sname(s), eq(v.len, C.B.NT(e)), kind="invariant")
        red_equal(U, C, hyps + h + [Z(ge(g, 0)), Z(lt(g, C.NLOC))], "the exposed buffer on side %s holds the field next to that side" % C.sname(s), v.get(f), F([add(x, y) for x, y in zip(C.wlo(s, C.lo), w)]))
def sub_each(a, b): return [simp(sub(x, y)) for x, y in zip(a, b)]
def set_unit(nd, which):
    def run(U):
        tu = filter_tu(); C = Ctx(nd); eng = U.engine("Filter::" + which); I, st = C.state(eng, tu)
        U.vacuity(eng, st.hyps, "Filter::" + which)
        s0 = st.copy(); hy0 = list(st.hyps); obj0 = st.vars["self"]
        for s in C.sides: I.eng    # noqa
        args = []
        if which == "setInData":
            FP = z3.Function("value_at_position", *([REAL] * nd + [REAL]))
            args = [FuncPtr("f", lambda I, st, v: FP(*[Z(R(x)) for x in v[0].items]))]
            F = lambda g: FP(*[Z(add(xm, mul(add(R(x), Fraction(1, 2)), div_(sub(xM, xm), R(n))))) for x, xm, xM, n in zip(g, C.xmin, C.xmax, C.n)])
            what = "the function at the cell's centre"
        elif which == "setInDataByIndices":
            FI = z3.Function("value_at_cell", *([INT] * nd + [REAL]))
            args = [FuncPtr("f", lambda I, st, v: FI(*[Z(x) for x in v[0].items]))]
            F = lambda g: FI(*[Z(x) for x in g]); what = "the function of the cell's global indices"
        else: F = lambda g: C.OUT(*[Z(x) for x in g]); what = "the output of that cell"
        invoke(I, st, method(tu, "Filter", which), ("self",), *args)
        discharge(U, eng, C)
        frame(U, eng, st, obj0, st.vars["self"], [("inData",)]); epochs(U, C, st)
        coherent(U, C, hy0, st, F, what)
    return run
def div_(a, b): return Z(a) / Z(b)
def checksum_unit(nd):
    def run(U):
        from .upwind_cxx import sum_goal
        for arg, src in (("input", "inData"), ("output", "outData")):
            tu = filter_tu(); C = Ctx(nd); eng = U.engine("Filter::computeCheckSum(%s)" % arg); I, st = C.state(eng, tu)
            s0 = st.copy(); hy0 = list(st.hyps); obj0 = st.vars["self"]
            r = invoke(I, st, method(tu, "Filter", "computeCheckSum"), ("self",), arg)
            discharge(U, eng, C)
            frame(U, eng, st, obj0, st.vars["self"], []); epochs(U, C, st)
            for s in C.sides: U.fact("the exposed buffers are not modified", st.vars["heapS_" + C.sname(s)] is s0.vars["heapS_" + C.sname(s)])
            v = I.mpi.reduced
            U.fact("one value is reduced over all the processes", len(v) == 1)
            if len(v) != 1: continue
            a = obj0.fields[src]
            sum_goal(U, eng, hy0, "the local sum of the %s" % arg, v[0], C.NLOC, lambda k: a.get(k))
            U.goal(eng, hy0 + [C.rk == 0], "the result on the root is the sum over all the processes", eq(r, SUMRANKS(Z(R(v[0])))))
    return run
UNITS = {"apply": apply_unit, "setInData": lambda nd: set_unit(nd, "setInData"), "setInDataByIndices": lambda nd: set_unit(nd, "setInDataByIndices"), "copyOutToIn": lambda nd: set_unit(nd, "copyOutToIn"), "checksum": checksum_unit}

# ----------------------------------------------------------------------------- destructor
def dtor_unit(nd):
    def run(U):
        tu = filter_tu(); C = Ctx(nd); eng = U.engine("Filter::~Filter"); I, st = C.state(eng, tu)
        U.vacuity(eng, st.hyps, "Filter::~Filter")
        invoke(I, st, method(tu, "Filter", "~Filter"), ("self",))
        discharge(U, eng, C)
        for s in C.sides:
            nm = C.sname(s)
            for b in ("win:" + nm, "heapS_" + nm, "heapD_" + nm):
                U.goal(eng, list(st.hyps), "%s is released exactly when it exists" % b, eq(st.vars.get("freed:" + b, 0), ite(C.PG[s], 1, 0)))
    return run
UNITS["dtor"] = dtor_unit
def print_unit(nd):
    def run(U):
        for w in ("printInData", "printOutData", "printSrcDataWindow", "printDstDataWindow"):
            tu = filter_tu()
            if not [f for f in tu.funcs if f.cls == "Filter" and f.name == w]: continue
            C0 = Ctx(nd)
            for s in C0.sides if "Window" in w else (None,):
                C = Ctx(nd); eng = U.engine("Filter::" + w); I, st = C.state(eng, tu)
                st.vars["g:cout"] = Stream(); st.vars["g:cerr"] = Stream()
                if s is not None: st.assume(C.PG[s])                   # the side has a window
                invoke(I, st, method(tu, "Filter", w), ("self",), *([CVec(list(s))] if s is not None else []))
                discharge(U, eng, C)
    return run
UNITS["print"] = print_unit
# ----------------------------------------------------------------------------- constructor
def ctor_unit(nd, ok=True):
    def run(U):
        tu = filter_tu(); C = Ctx(nd); C.ok = ok; eng = U.engine("Filter::Filter%s" % ("" if ok else " (no decomposition)")); I = C.interp(eng, tu); st = State()
        ft = {nm: strip_ref(t) for nm, t, d in tu.fields["Filter"]}
        if "winNumGhosts" not in ft: raise Unsupported("Filter has no member winNumGhosts")
        I.defaults[ft["winNumGhosts"]] = lambda I: CMap({s: (False, 0) for s in C.sides})
        for f in C.pre() + [C.shape_fact()]: st.assume(f)
        def hints(eng, st0, known, kap, N):
            out = []
            for s in C.sides:
                p, v = known.get(("self", ("f", "winNumGhosts"), ("mp", s))), known.get(("self", ("f", "winNumGhosts"), ("k", s)))
                if p is None or v is None: continue
                out.append(implies(p, band(ge(v, 1), le(v, C.l[C.axis(s)]))))
            return out
        eng.loop_hints = [hints]
        hy0 = list(st.hyps)
        U.vacuity(eng, hy0, "Filter::Filter")
        st.vars["self"] = default_value(I, "Filter", False)
        sten = C.stencil(known=False)
        invoke(I, st, method(tu, "Filter", "Filter", nparams=4), ("self",), CVec(C.n), CVec(C.xmin), CVec(C.xmax), sten)
        discharge(U, eng, C)
        o = st.vars["self"].fields; hy = list(st.hyps)
        U.goal(eng, hy, "the decomposition is reported as valid exactly when there is one", eq(o["validDecomp"], ok))
        U.goal(eng, hy, "rank, number of processes and dimensions", band(eq(o["rk"], C.rk), eq(o["sz"], C.sz), eq(o["ndims"], nd)))
        U.fact("grid and domain are stored", all(isinstance(o[k], CVec) and o[k].len == nd and all(same(unz(a), unz(b)) for a, b in zip(o[k].items, w)) for k, w in (("globalDims", C.n), ("xmins", C.xmin), ("xmaxs", C.xmax))))
        if not ok:
            U.fact("nothing is allocated", not any(k.startswith("heap") for k in st.vars)); return
        for k, w in (("lo", C.lo), ("hi", [add(a, b) for a, b in zip(C.lo, C.l)])):
            U.fact("the corners of the sub-domain are stored (%s)" % k, isinstance(o[k], CVec) and o[k].len == nd)
            U.goal(eng, hy, "the corners of the sub-domain (%s)" % k, band(*[eq(a, b) for a, b in zip(o[k].items, w)]))
        def is_box(nm, v, lo, ext, hyps):
            U.fact(nm + ": is built, in column-major order", isinstance(v, Obj) and v.cls == "MAI" and v.fields["lo"] is not UNDEF and v.fields["row"] is False, kind="invariant")
            U.goal(eng, hyps, nm + ": covers the box", band(*[band(eq(a, l), eq(b, add(l, e))) for a, b, l, e in zip(v.fields["lo"].items, v.fields["hi"].items, lo, ext)]), kind="invariant")
        is_box("iterator over the sub-domain", o["mit"], C.lo, C.l, hy)
        U.goal(eng, hy, "input and output have one value per cell of the sub-domain", band(eq(o["inData"].len, C.NLOC), eq(o["outData"].len, C.NLOC)), kind="invariant")
        m = o["stencil"]; k = z3.Int("k")
        U.fact("the stencil is stored", m is sten or isinstance(m, SMap) and m.tag == sten.tag and same(m.n, sten.n) and m.cases is sten.cases)
        G = o["winNumGhosts"]; bases = []
        cases = sten.cases(k); hk = [h for h in hy if isinstance(h, QFact) or not mentions_z(h, k)] + [k >= 0, Z(lt(k, C.ns))]
        for i, s in enumerate(C.sides):
            sn = C.sname(s); p, g = G.entries.get(s, (False, 0))
            # every branch that reaches across the side is covered
            rp, rg = rec_of(eng, p)[0] if is_z(p) else None, rec_of(eng, g)[0] if is_z(g) else None
            if rp is None or rg is None: raise Unsupported("the widths of the windows are not accumulated by a loop over the stencil")
            cond, ch, mc = cases[1 + i]
            sp, sg = subst(rp.step, [(rp.kap, k)]) if is_z(rp.step) else rp.step, subst(rg.step, [(rg.kap, k)]) if is_z(rg.step) else rg.step
            U.goal(eng, hk, "side %s: every branch of the stencil is considered" % sn, band(eq(rp.N, C.ns), eq(rg.N, C.ns)))
            inv = [implies(rp.fn(k), band(ge(rg.fn(k), 1), le(rg.fn(k), C.l[C.axis(s)])))]
            U.goal(eng, hk + [Z(cond)] + [Z(x) for x in ch] + [Z(x) for x in inv], "side %s: a branch that reaches across it makes the window at least as wide" % sn, band(sp, ge(sg, C.M(k))), kind="invariant")
            U.goal(eng, hk + [Z(x) for x in inv] + [bor(*[Z(c[0]) for c in cases])] + [Z(implies(c[0], band(*c[1]))) for c in cases], "side %s: windows never disappear or become narrower" % sn, implies(rp.fn(k), band(sp, ge(sg, rg.fn(k)))), kind="invariant")
            U.goal(eng, hy, "side %s: the window is at least one cell and at most the sub-domain wide" % sn, implies(p, band(ge(g, 1), le(g, C.l[C.axis(s)]))), kind="invariant")
            # window, buffers and iterator are there exactly for the sides with ghosts
            for nm in ("windows", "winData", "winIter"):
                q = o[nm].entries.get(s, (False, UNDEF))[0]
                U.goal(eng, hy, "side %s: %s has an entry exactly when the stencil reaches across it" % (sn, nm), eq(q, p), kind="invariant")
            hp = hy + [Z(p)]
            w, d, it = (o[nm].entries.get(s, (False, UNDEF))[1] for nm in ("windows", "winData", "winIter"))
            C2 = Ctx(nd); C2.B = C.B; C2.G = dict(C.G); C2.G[s] = g
            e = C2.wext(s)
            if it is UNDEF or d is UNDEF or w is UNDEF: U.fact("side %s: window created" % sn, False, kind="invariant"); continue
            is_box("side %s: iterator over the window" % sn, it, C2.wlo(s, C.lo), e, hp)
            a, b = d.fields["first"], d.fields["second"]
            ok2 = all(isinstance(x, Ptr) and x.path is not None and len(x.path) == 1 and isint(x.off) and x.off == 0 for x in (a, b))
            U.fact("side %s: buffers" % sn, ok2, kind="invariant")
            if not ok2: continue
            U.fact("side %s: the window is over the buffer that is filled" % sn, isinstance(w, Opaque) and I.mpi.created.get(w.name) == a.path[0], kind="invariant")
            bases += [a.path[0], b.path[0]]
            for x in (a, b): U.goal(eng, hp, "side %s: buffers have one value per cell of the window" % sn, eq(st.vars[x.path[0]].len, C.B.NT(e)), kind="invariant", extra=[Z(eq(C.B.NT(e), prod(e)))])
        U.fact("all buffers are distinct", len(set(bases)) == len(bases), kind="invariant")
        U.fact("nothing else is registered", all(set(o[nm].entries) <= set(C.sides) for nm in ("windows", "winData", "winIter", "winNumGhosts")))
    return run
def mentions_z(h, k): return k.decl().name() in apps(Z(h))
UNITS["ctor"] = ctor_unit
UNITS["ctor-none"] = lambda nd: ctor_unit(nd, False)

# ----------------------------------------------------------------------------- saveVTK: re-assembly of the field
class WriteVTK:
    at_call = True
    def __init__(self): self.seen = []
    def call(self, I, st, this, args, n):
        I.eng.called.add("writeVTK")
        vals = [I.rv(st, a) for a in args]
        self.seen.append((st.copy(), vals)); return None
def save_unit(nd, root=True):
    def run(U):
        tu = filter_tu(); C = Ctx(nd); eng = U.engine("Filter::saveVTK (%s)" % ("root" if root else "other processes")); I, st = C.state(eng, tu)
        W = WriteVTK(); I.contracts["writeVTK"] = W
        B = C.B; NG = B.NT(C.n); ntot = prod(C.n)
        st.assume(C.rk == 0 if root else C.rk > 0)
        # contracts of the decomposition and of the iterator over the whole grid
        for f in C.lof_facts(): st.assume(f)
        if root:
            for f, lo in zip(C.LOF, C.lo): st.assume(z3.And(lo == 0, f(z3.IntVal(0)) == 0))
        st.assume(z3.And(NG == Z(ntot), NG <= 2**56, NG == C.sz * C.NLOC, NG >= 1))
        r = z3.Int("qr")
        st.assume(QFact((r,), implies(band(ge(r, 0), lt(r, C.sz)), band(ge(mul(r, C.NLOC), 0), le(add(mul(r, C.NLOC), C.NLOC), mul(C.sz, C.NLOC)))), [C.LOF[0](r)], "position in the receive buffer"))
        for j in range(1, nd + 1): st.assume(z3.And(Z(ge(prod(C.n[:j]), 1)), Z(le(prod(C.n[:j]), 2**56))))
        U.vacuity(eng, st.hyps, "Filter::saveVTK")
        s0 = st.copy(); hy0 = list(st.hyps); obj0 = st.vars["self"]
        invoke(I, st, method(tu, "Filter", "saveVTK"), ("self",), "file")
        discharge(U, eng, C)
        frame(U, eng, st, obj0, st.vars["self"], []); epochs(U, C, st)
        g = I.mpi.gathered
        U.fact("the outputs of all processes are gathered once", len(g) == 1)
        if len(g) == 1:
            a, b = g[0][0], obj0.fields["outData"]; i = z3.Int("i")
            U.goal(eng, hy0 + [i >= 0, i < C.NLOC], "what is sent is the output", band(eq(g[0][1], C.NLOC), eq(a.get(i), b.get(i))))
        if not root: U.fact("only the root writes", not W.seen); return
        U.fact("the root writes one file", len(W.seen) == 1)
        if len(W.seen) != 1: return
        sw, vals = W.seen[0]
        U.fact("grid and domain given to the writer are the filter's", vals[0] == "file" and all(all(same(unz(x), unz(y)) for x, y in zip(v.items, w)) for v, w in zip(vals[1:4], (C.n, C.xmin, C.xmax))))
        F = vals[4]; j = z3.Int("cell"); ro = F.meta
        if ro is None or getattr(ro, "kind", "") != "array": raise Unsupported("the field is not assembled by nested loops over processes and cells")
        inr = [j >= 0, j < NG]
        U.goal(eng, hy0, "the field has one value per cell of the grid", eq(F.len, NG))
        U.goal(eng, hy0, "every process' data is placed", eq(ro.N, C.sz))
        # one process
        kr, ki = z3.Int("process"), z3.Int("k")
        step = unz(ro.step.get(j))
        rin = next((r for L in reversed(eng.loops) for r in getattr(L, "recs", {}).values() if r.kind == "array" and r is not ro and is_z(step) and z3.is_app(step) and Z(r.fn(0, 0)).decl().eq(step.decl())), None)
        if rin is None: raise Unsupported("the inner loop is not a recognised placement")
        hq = [h for h in st.hyps if isinstance(h, QFact)] + [h for h in hy0 if not isinstance(h, QFact)]
        sub_ = lambda t: subst(t, [(ro.kap, kr), (rin.kap, ki)]) if is_z(t) else t
        hr = hq + [kr >= 0, kr < C.sz, Z(eq(mul(kr, C.NLOC), z3.Int("base"))), z3.Int("base") >= 0]
        U.goal(eng, hq, "every value of the process is placed", eq(rin.N, C.NLOC))
        U.goal(eng, hr + inr, "the placement of a process starts from what was placed before", eq(sub_(rin.init.get(j)), sub_(Z(ro.fn(ro.kap, j)))))
        U.goal(eng, hr + inr, "after a process, the field is the result of its placement", eq(sub_(step), sub_(Z(rin.fn(C.NLOC, j)))))
        hc = hr + [ki >= 0, ki < C.NLOC]
        lo = [f(kr) for f in C.LOF]; d = B.dig(False, C.l, ki)
        at = B.flat(False, C.n, [add(a, x) for a, x in zip(lo, d)])
        st_ = sub_(Z(rin.step.get(j)))
        ext = [Z(band(ge(x, 0), lt(x, y))) for x, y in zip(d, C.l)] + [Z(band(ge(a, 0), le(add(a, y), m))) for a, y, m in zip(lo, C.l, C.n)]
        val = GATHER(kr * C.NLOC + ki)
        U.goal(eng, hc + inr + ext, "value k of process r is placed at the cell of the grid it belongs to, and nowhere else", eq(st_, ite(eq(j, at), val, sub_(Z(rin.fn(rin.kap, j))))))
        # every cell of the grid is placed: its owner's k-th value, k its position in the sub-domain
        e2 = U.engine("lemma: every cell of the grid is placed"); gg = [z3.Int("g%d" % i) for i in range(nd)]; own = z3.Int("owner")
        k2 = B.flat(False, C.l, [x - f(own) for x, f in zip(gg, C.LOF)])
        at2 = B.flat(False, C.n, [f(own) + x for f, x in zip(C.LOF, B.dig(False, C.l, k2))])
        U.goal(e2, hy0 + [own >= 0, own < C.sz] + [z3.And(x >= f(own), x < f(own) + l) for x, f, l in zip(gg, C.LOF, C.l)], "the cell is the place of a value of its owner", band(ge(k2, 0), lt(k2, C.NLOC), eq(at2, B.flat(False, C.n, gg))), kind="lemma")
    return run
UNITS["save"] = save_unit
UNITS["save-others"] = lambda nd: save_unit(nd, False)

# ----------------------------------------------------------------------------- units of the checks
KINDS = ("post", "pre", "invariant", "termination", "lemma", "vacuity")
def lemma_unit(nd):
    def run(U): radix_lemmas(U, nd); Ctx(nd).lemmas(U)
    return run
def units(pid, dims=(3, 2, 1)):
    from . import cxx_lib as L, cube as Q
    u = []
    todo = {"C05": ["apply", "ctor", "ctor-none"], "C06": ["apply", "ctor", "setInDataByIndices", "setInData", "copyOutToIn"], "C07": ["save", "save-others", "setInData", "setInDataByIndices", "ctor", "checksum"]}[pid]
    for w in todo:
        for nd in dims: u.append(("%s %d-d" % ("Filter::" + w, nd), UNITS[w](nd)))
    for nd in dims:
        u.append(("lemmas on index boxes and corners %d-d" % nd, lemma_unit(nd)))
        # the contracts used for the callees
        u.append(("MultiArrayIter %d-d" % nd, L.mai_unit(nd, False), tuple(k for k in KINDS if k != "pre")))
        if pid != "C06": u.append(("CubeDecomp::getNeighborRank %d-d" % nd, Q.neighbor_unit(nd), tuple(k for k in KINDS if k != "pre")) if pid == "C05" else ("CubeDecomp corners %d-d" % nd, Q.boxes_unit(nd), tuple(k for k in KINDS if k != "pre")))
    return u
RULE = "all stencils of random axis-aligned branches on small grids in 1 to 3 dimensions with 1..12 processes, on an in-process MPI stand-in whose transfers happen at the earliest, the latest or a random moment the standard allows; against the dense global computation"
FLAGS = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "replay/stub"), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "replay/stub/stub_mpi.cpp"), "-lpthread"]
ASSUME = ["the stencil has branches along one axis at a time (or none), reaching at most one sub-domain; 1 to 3 axes (one instance of the contracts each)",
          "the grid has at most 2^30 cells per axis, at most 2^31-1 on one process and at most 2^56 in total",
          "every rank runs the same calls in the same order (SPMD); MPI calls behave as the standard says: contracts of MPI_Get, MPI_Win_fence, MPI_Reduce, MPI_Gather in contracts/filt.py",
          "floating point sums are treated as exact: the order of the terms is the order of the stencil's branches for every decomposition",
          "the user's function has no side effects"]
