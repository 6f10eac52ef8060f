"""Contracts of CubeDecomp (cxx/CubeDecomp.cpp)."""
from .cxx_lib import *
from vcg.lemma import Tactic

CELLS = 2**56                # precondition: at most this many cells in the grid
class Grid:
    def __init__(self, nd):
        self.nd = nd
        self.n = [z3.Int("n%d" % j) for j in range(nd)]
        self.P = z3.Int("nprocs")
        self.pre = [n >= 1 for n in self.n] + [Z(le(prod(self.n), CELLS)), self.P >= 1, self.P < 2**30] + [n <= CELLS for n in self.n]

def self_obj(I, g): return default_value(I, "CubeDecomp", False).with_("ndims", g.nd).with_("dims", CVec(g.n)).with_("nprocs", g.P)

def subs(U, eng, g):
    """products of some of the sizes are at most the number of cells"""
    out = []
    N = prod(g.n)
    from itertools import combinations
    for k in range(1, g.nd):
        for c in combinations(range(g.nd), k):
            f = Z(band(ge(prod([g.n[j] for j in c]), 1), le(prod([g.n[j] for j in c]), N)))
            U.goal(eng, [n >= 1 for n in g.n], "partial product of the sizes", f, kind="lemma"); out.append(f)
    return out
# ----------------------------------------------------------------------------- getPrimeFactors
class Divisors:
    """contract: the result lists divisors of n, every divisor of n occurs"""
    at_call = True
    def __init__(self, U=None, g=None): self.calls = []; self.U = U; self.g = g
    def call(self, I, st, this, args, n):
        eng = I.eng; eng.called.add("CubeDecomp::getPrimeFactors")
        v = I.norm(st, I.rv(st, args[0]), strip_ref(ctype(args[0]["type"])))
        eng.oblige(st, "getPrimeFactors is called with a positive number", "safety", ge(v, 1))
        F = eng.fresh_fn("divs", 1, INT); POS = eng.fresh_fn("divpos", 1, INT); m = eng.fresh("ndivs")
        for f in divisors_post(v, m, F, POS): st.assume(f)
        # consequence: the product of the lengths stays within size_t
        pm, pn = prod([c[1] for c in self.calls]), prod([c[0] for c in self.calls]); j = len(self.calls)
        if self.calls and self.U is not None:
            h = [Z(band(ge(pm, 1), le(pm, mul(2**j, pn)))), Z(ge(pn, 1)), m >= 1, Z(le(m, add(v, 1))), Z(ge(v, 1))]
            ins = [Z(ge(mul(sub(mul(2**j, pn), pm), m), 0)), Z(ge(mul(pn, sub(mul(2, v), m)), 0)), Z(ge(mul(sub(pm, 1), sub(m, 1)), 0)), Z(ge(mul(sub(pn, 1), sub(v, 1)), 0))]
            for x in ins: self.U.goal(eng, h, "number of candidates: monotonicity instance", x, kind="lemma")
            self.U.goal(eng, h + ins, "number of candidates is bounded", band(ge(mul(pm, m), 1), le(mul(pm, m), mul(2**(j + 1), mul(pn, v)))), kind="lemma")
        self.calls.append((v, m, F, POS))
        st.assume(band(ge(mul(pm, m), 1), le(mul(pm, m), mul(2**(j + 1), mul(pn, v)))))
        self.bound(eng, st)
        return SVec(m, lambda i: F(i))
    def bound(self, eng, st):
        """numeric bounds of the products of the lengths (any of them)"""
        if self.U is None: return
        ms, ns = [c[1] for c in self.calls], [c[0] for c in self.calls]
        k = len(ms)
        if any(not any(same(v, n) for n in self.g.n) for v in ns): return
        from itertools import combinations
        for r in range(1, k + 1):
            for c in combinations(range(k), r):
                if (k - 1) not in c: continue
                p, q = prod([ms[i] for i in c]), prod([ns[i] for i in c])
                f1 = Z(band(ge(p, 1), le(p, mul(2**r, q))))
                if c != tuple(range(k)) and r > 1:
                    p0, q0 = prod([ms[i] for i in c[:-1]]), prod([ns[i] for i in c[:-1]]); m, n = ms[c[-1]], ns[c[-1]]
                    h = [Z(band(ge(p0, 1), le(p0, mul(2**(r - 1), q0)))), Z(ge(q0, 1)), m >= 1, Z(le(m, add(n, 1))), Z(ge(n, 1))]
                    ins = [Z(ge(mul(sub(mul(2**(r - 1), q0), p0), m), 0)), Z(ge(mul(q0, sub(mul(2, n), m)), 0)), Z(ge(mul(sub(p0, 1), sub(m, 1)), 0)), Z(ge(mul(sub(q0, 1), sub(n, 1)), 0))]
                    for x in ins: self.U.goal(eng, h, "number of candidates: monotonicity instance", x, kind="lemma")
                    self.U.goal(eng, h + ins, "number of candidates is bounded", f1, kind="lemma"); st.assume(f1)
                elif r == 1:
                    self.U.goal(eng, [m_ >= 1 for m_ in [ms[c[0]]]] + [Z(le(ms[c[0]], add(ns[c[0]], 1))), Z(ge(ns[c[0]], 1))], "number of divisors is bounded", f1, kind="lemma"); st.assume(f1)
                f2 = Z(le(p, 2**r * CELLS))
                self.U.goal(eng, [f1] + self.g.pre + self.g.subs, "number of candidates is bounded by the number of cells", f2, kind="lemma"); st.assume(f2)
def divisors_post(n, m, F, POS):
    i, d = z3.Int("di"), z3.Int("dd")
    return [m >= 1, Z(le(m, add(n, 1))),
            QFact((i,), z3.Implies(z3.And(i >= 0, i < m), z3.And(F(i) >= 1, F(i) <= Z(n), Z(eq(fmod(n, F(i)), 0)))), [F(i)], "divisor"),
            QFact((d,), z3.Implies(z3.And(d >= 1, Z(eq(fmod(n, d), 0))), z3.And(POS(d) >= 0, POS(d) < m, F(POS(d)) == d)), [POS(d)], "every divisor occurs")]

def readable(v, i):
    try: v.get(i); return True
    except Unsupported: return False
def divisors_unit(U):
    tu = lib_tu(); g = Grid(1); n = g.n[0]
    eng = U.engine("CubeDecomp::getPrimeFactors"); I = Interp(eng, tu); st = State()
    st.assume(n >= 1); st.assume(n <= CELLS)
    st.vars["self"] = self_obj(I, g); before = st.vars["self"]
    U.vacuity(eng, st.hyps, "getPrimeFactors")
    R = invoke(I, st, method(tu, "CubeDecomp", "getPrimeFactors"), ("self",), n)
    U.discharge(eng)
    same_object(U, "getPrimeFactors does not modify the object", before, st.vars["self"])
    if isinstance(R, CVec): raise Unsupported("getPrimeFactors: list of constant length")
    recs = [r for L in eng.loops for r in getattr(L, "recs", {}).values() if r.kind == "collect"]
    i, d = z3.Int("i"), z3.Int("d")
    hy = st.hyps
    U.goal(eng, hy, "the list is not empty and no longer than n+1", band(ge(R.len, 1), le(R.len, add(n, 1))))
    U.goal(eng, hy + [i >= 0, Z(lt(i, R.len))], "every element is a divisor of n", band(ge(R.get(i), 1), le(R.get(i), n), eq(fmod(n, R.get(i)), 0)))
    # every divisor occurs: at one of the ends, or where the loop pushed it
    cands = [0, sub(R.len, 1), sub(R.len, 2), 1]
    ext = []
    for r in recs:
        from vcg.loops import lin_coeff
        lc = lin_coeff(Z(r.val), r.kap0) if is_z(r.val) else None
        if lc is not None and lc[1] in (1, -1):
            k = sub(d, lc[0]) if lc[1] == 1 else sub(lc[0], d)
            ext.append(r.forward(k)); cands.append(r.L(k))
    ext = [e for e in ext if is_z(e)]
    for nm, c in (("one", eq(d, 1)), ("n itself", eq(d, n)), ("proper divisors", band(gt(d, 1), lt(d, n)))):
        h = hy + [d >= 1, Z(eq(fmod(n, d), 0)), Z(c)]
        if nm == "proper divisors":
            # a proper divisor is at most half of n
            q = fdiv(n, d)
            U.goal(eng, h, "the cofactor of a proper divisor is at least two", ge(q, 2), kind="lemma")
            U.goal(eng, h + [Z(ge(q, 2)), Z((q - 2) * d >= 0)], "a proper divisor is at most half of n", le(mul(2, d), n), kind="lemma")
            h = h + [Z(le(mul(2, d), n))]
        U.goal(eng, h + ext, "every divisor occurs (%s)" % nm, bor(*[band(ge(p, 0), lt(p, R.len), eq(R.get(p), d)) for p in cands if readable(R, p)]))

# ----------------------------------------------------------------------------- computeCost
def cost_spec(n, d):
    """surface of the sub-domain over its volume"""
    l = [fdiv(a, b) for a, b in zip(n, d)]
    vol = prod(l); s = 0
    for i in range(len(n)): s = add(s, prod([l[j] for j in range(len(n)) if j != i]))
    return rdiv(R(s), R(vol))
def valid(g, d):
    """d is an admissible factorisation of the process count"""
    return band(*[band(ge(x, 1), le(x, n), eq(fmod(n, x), 0)) for x, n in zip(d, g.n)], eq(prod(d), g.P))
def local_facts(g, d):
    """consequences of divisibility: l*d = n, 1 <= l <= n, products of them fit"""
    l = [fdiv(n, x) for n, x in zip(g.n, d)]
    out = [Z(band(eq(mul(a, x), n), ge(a, 1), le(a, n))) for a, x, n in zip(l, d, g.n)]
    return l, out
def sub_products(xs, N):
    """all products of sub-sequences are between 1 and the product of all"""
    out = []
    from itertools import combinations
    for k in range(1, len(xs) + 1):
        for c in combinations(range(len(xs)), k): out.append(Z(band(ge(prod([xs[j] for j in c]), 1), le(prod([xs[j] for j in c]), N))))
    return out
def product_lemma(U, eng, hyps, xs, ns, what):
    """1 <= x_j <= n_j and prod n <= CELLS imply prod of any sub-sequence of x between 1 and prod n"""
    out = []
    for f in sub_products(xs, prod(ns)): pass
    from itertools import combinations
    base = [Z(band(ge(x, 1), le(x, n))) for x, n in zip(xs, ns)]
    known = {}
    for k in range(1, len(xs) + 1):
        for c in combinations(range(len(xs)), k):
            p, q = prod([xs[j] for j in c]), prod([ns[j] for j in c])
            if k == 1: continue
            p0, q0 = prod([xs[j] for j in c[:-1]]), prod([ns[j] for j in c[:-1]])
            x, n = xs[c[-1]], ns[c[-1]]
            h = base + ([known[c[:-1]]] if c[:-1] in known else []) + [Z((q0 - p0) * n >= 0), Z(p0 * (n - x) >= 0), Z((p0 - 1) * (x - 1) >= 0)]
            # the three products used are monotonicity instances, proved first
            b2 = base + ([known[c[:-1]]] if c[:-1] in known else [])
            for z in h[len(b2):]: U.goal(eng, b2, "%s: monotonicity instance" % what, z, kind="lemma")
            f = Z(band(ge(p, 1), le(p, q))); U.goal(eng, h, "%s: product of %d factors" % (what, k), f, kind="lemma"); known[c] = f
    out = list(known.values())
    N = prod(ns)
    # sub-products of n are at most the full product
    res = []
    for c, f in known.items():
        rest = [j for j in range(len(ns)) if j not in c]
        q = prod([ns[j] for j in c])
        if rest:
            U.goal(eng, [Z(ge(n, 1)) for n in ns], "%s: the remaining factors" % what, Z(le(q, N)), kind="lemma"); res.append(Z(le(q, N)))
    for j in range(len(ns)):
        if len(ns) > 1: U.goal(eng, [Z(ge(n, 1)) for n in ns], "%s: the remaining factors" % what, Z(le(ns[j], N)), kind="lemma"); res.append(Z(le(ns[j], N)))
    return base + out + res

class Cost:
    at_call = True
    def __init__(self, g): self.g = g
    def call(self, I, st, this, args, n):
        eng = I.eng; eng.called.add("CubeDecomp::computeCost")
        v = I.rv(st, args[0])
        d = [v.get(j) for j in range(self.g.nd)]
        eng.oblige(st, "computeCost is called with as many factors as axes", "safety", eq(v.len, self.g.nd))
        eng.oblige(st, "computeCost is called with an admissible factorisation", "post", valid(self.g, d))
        return COST(self.g, d)
def COST(g, d):
    return z3.Function("cost", *([INT] * g.nd + [REAL]))(*[Z(x) for x in d])
def cost_unit(nd):
    def run(U):
        tu = lib_tu(); g = Grid(nd); d = [z3.Int("d%d" % j) for j in range(nd)]
        eng = U.engine("CubeDecomp::computeCost"); I = Interp(eng, tu); st = State()
        for f in g.pre: st.assume(f)
        st.assume(valid(g, d))
        l = [fdiv(n, x) for n, x in zip(g.n, d)]
        for a, x, n in zip(l, d, g.n):
            f = Z(band(ge(a, 1), le(a, n), eq(mul(a, x), n)))
            q = z3.Int("q")
            U.goal(eng, [n >= 1, x >= 1, x <= n, Z(eq(fmod(n, x), 0))], "sub-domain size", f, kind="lemma"); st.assume(f)
        for f in product_lemma(U, eng, [], l, g.n, "volume"): st.assume(f)
        st.vars["self"] = self_obj(I, g); before = st.vars["self"]
        U.vacuity(eng, g.pre + [Z(valid(g, d))], "computeCost")
        r = invoke(I, st, method(tu, "CubeDecomp", "computeCost"), ("self",), CVec(d))
        U.discharge(eng)
        same_object(U, "computeCost does not modify the object", before, st.vars["self"])
        U.equal(eng, st.hyps, "the cost is the surface to volume ratio of the sub-domain", r, cost_spec(g.n, d))
        # used below: costs are below the largest double
        xs = [z3.Real("x%d" % j) for j in range(nd)]
        U.goal(eng, st.hyps, "the volume is positive", ge(prod(l), 1), kind="lemma")
        sfc = z3.Real("sfc"); vol = z3.Real("vol")
        s = 0
        for i in range(nd): s = add(s, prod([l[j] for j in range(nd) if j != i]))
        U.goal(eng, st.hyps, "the surface is bounded", band(ge(s, 0), le(s, nd * CELLS)), kind="lemma")
        U.goal(eng, [sfc >= 0, sfc <= nd * CELLS, vol >= 1, sfc / vol * vol == sfc], "the ratio is bounded", band(ge(sfc / vol, 0), le(sfc / vol, nd * CELLS)), kind="lemma")
    return run

# ----------------------------------------------------------------------------- computeOptimalDecomp
def optimal_run(U, nd):
    tu = lib_tu(); g = Grid(nd)
    eng = U.engine("CubeDecomp::computeOptimalDecomp"); I = Interp(eng, tu); st = State()
    for f in g.pre: st.assume(f)
    g.subs = subs(U, eng, g)
    for f in g.subs: st.assume(f)
    D = Divisors(U, g); I.contracts = {"CubeDecomp::getPrimeFactors": D, "CubeDecomp::computeCost": Cost(g)}
    ds = [z3.Int("cd%d" % j) for j in range(nd)]
    # contract of computeCost: a number between 0 and nd*CELLS
    st.assume(QFact(ds, z3.Implies(Z(valid(g, ds)), z3.And(COST(g, ds) >= 0, COST(g, ds) <= nd * CELLS)), [COST(g, ds)], "cost"))
    st.vars["self"] = self_obj(I, g)
    def hints(eng_, st0, known, kap, N):
        out = []
        # the number of candidates and the divisors found bound the products the loops compute
        rec_r = [v for p, v in known.items() if is_z(v) and v.sort() == REAL]
        vecs = {}
        for p, v in known.items():
            if is_z(v) and v.sort() == INT and p[-1][0] == "i": vecs.setdefault(p[:-1], {})[p[-1][1]] = v
        for pre_, comp in vecs.items():
            if sorted(comp) == list(range(nd)):
                d = [comp[j] for j in range(nd)]
                out += [valid(g, d)] + [z3.Or(kap == 0, m == COST(g, d)) for m in rec_r] + [m == COST(g, d) for m in rec_r]
        # already unchanged from the start value when not modified
        return out
    eng.loop_hints = [hints]
    f = method(tu, "CubeDecomp", "computeOptimalDecomp")
    r = invoke(I, st, f, ("self",))
    return tu, g, eng, I, st, D, r

def rec_by_term(eng, t):
    """(loop record, recursion) whose value at some count is t"""
    for L in eng.loops:
        for p, r in getattr(L, "recs", {}).items():
            if r.kind == "scalar" and is_z(t) and z3.is_app(t) and Z(r.fn(0)).decl().eq(t.decl()): return L, r
    return None, None
def branch_of(t, k):
    return t
def optimal_unit(nd, what):
    def run(U):
        tu, g, eng, I, st, D, r = optimal_run(U, nd)
        U.vacuity(eng, g.pre, "computeOptimalDecomp")
        if what == "body": U.discharge(eng)
        if isinstance(r, CVec) and r.len == nd: raise Unsupported("computeOptimalDecomp never fails")
        found = eq(r.len, nd)
        hy = st.hyps
        if what == "body": U.goal(eng, hy, "the result is empty or has one factor per axis", bor(eq(r.len, 0), found))
        s1 = st.copy(); s1.assume(ne(r.len, 0))
        T = Tactic(eng, s1.hyps)
        res = [T.rewrite(r.get(j)) for j in range(nd)]
        if what == "valid":
            U.goal(eng, s1.hyps, "a non-empty result is an admissible factorisation", valid(g, res))
            # the block iterator is built over the result in row-major order
            mit = st.vars["self"].fields["mit"]
            e2 = U.engine("CubeDecomp::computeOptimalDecomp (block iterator)"); I2 = Interp(e2, tu); s2 = s1.copy()
            s2.vars["m2"] = default_value(I2, "MultiArrayIter", False)
            dd = [z3.Int("rd%d" % j) for j in range(nd)]
            for x in dd: s2.assume(x >= 1)
            for f in sub_products(dd, CELLS): s2.assume(f)
            invoke(I2, s2, method(tu, "MultiArrayIter", "build"), ("m2",), CVec([0] * nd), CVec(dd), True)
            for (p, a) in leaves(s2.vars["m2"], ()):
                b = lget(mit, p)
                a = map_value(a, lambda t: z3.substitute(t, *[(x, Z(y)) for x, y in zip(dd, res)]))
                if is_z(a) or isinstance(a, (int, bool)):
                    U.goal(eng, s1.hyps, "the block iterator runs over the blocks in row-major order (%s)" % pname_(p), eq(unz(T.rewrite(b)) if is_z(b) else b, a))
            return
        if what != "complete": return
        # completeness and optimality with respect to an arbitrary admissible factorisation
        d = [z3.Int("d%d" % j) for j in range(nd)]
        cols = [R_ for L in eng.loops for R_ in getattr(L, "recs", {}).values() if R_.kind == "collect" and isinstance(R_.val, CVec)]
        if len(cols) != 1: raise Unsupported("candidates are not collected by one loop")
        C = cols[0]
        if len(D.calls) != nd: raise Unsupported("getPrimeFactors is not called once per axis")
        pos = [c[3](x) for c, x in zip(D.calls, d)]
        m = [c[1] for c in D.calls]
        base = hy + [Z(valid(g, d))]
        for j in range(nd):
            U.goal(eng, base, "candidate %d is in the list of its axis" % j, band(ge(pos[j], 0), lt(pos[j], m[j]), eq(D.calls[j][2](pos[j]), d[j])), kind="lemma")
        facts = [Z(band(ge(p, 0), lt(p, x))) for p, x in zip(pos, m)] + [Z(eq(c[2](p), x)) for c, p, x in zip(D.calls, pos, d)]
        ok = None
        for row in (False, True):
            B = Box(nd, row); B.n = m
            hint = B.hints(pos)
            p = B.flat(pos)
            Tc = Tactic(eng, base + facts + [x >= 1 for x in m], hints=hint)
            vals = [Tc.rewrite(subst(x, [(C.kap0, p)])) for x in C.val.items]
            if all(Tc.ent(eq(a, b)) for a, b in zip(vals, d)): ok = (B, p, hint, vals); break
        if ok is None:
            U.fact("every combination of divisors is tried", False, detail="no position of the enumeration yields the combination"); return
        B, p, hint, vals = ok
        h = base + facts + [x >= 1 for x in m]
        for x in hint: U.goal(eng, h, "monotonicity instance", x, kind="lemma")
        U.goal(eng, h, "the combination is tried by an iteration of the loop", band(ge(p, 0), lt(p, C.N)), extra=hint)
        condp = Tc.rewrite(subst(Z(C.cond), [(C.kap0, p)]))
        U.goal(eng, h, "the combination is kept", condp, extra=hint)
        L = C.L
        el = [C.RES(L(p)).items[j] for j in range(nd)]
        kept = [Z(band(ge(L(p), 0), lt(L(p), L(C.N))))] + [Z(eq(a, b)) for a, b in zip(el, d)]
        # instance of the collect loop's forward fact, with its premises proved above
        U.goal(eng, h + [Z(implies(True, C.forward(p)))] + [Z(eq(a, b)) for a, b in zip([subst(x, [(C.kap0, p)]) for x in C.val.items], d)] + [Z(band(ge(p, 0), lt(p, C.N), subst(Z(C.cond), [(C.kap0, p)])))], "the combination is in the list", band(*kept), kind="lemma")
        for a, b in zip([subst(x, [(C.kap0, p)]) for x in C.val.items], d): U.equal(eng, h, "the kept value is the combination", a, b, hints=hint, kind="lemma")
        U.goal(eng, h + kept, "the construction succeeds when an admissible factorisation exists", ne(r.len, 0))
        # optimality
        Lp, rb = rec_by_term(eng, unz(res[0]))
        if rb is None: Lp, rb = rec_by_term(eng, unz(r.get(0)))
        if rb is None and nd == 1:                 # one axis: the factorisation is unique
            U.goal(eng, s1.hyps + [Z(valid(g, d))], "no admissible factorisation has a smaller ratio", le(COST(g, res), COST(g, d)), kind="optimal", extra=[Z(valid(g, res))]); return
        if rb is None: raise Unsupported("the result is not selected by a loop: %s" % str(unz(r.get(0)))[:300])
        k = z3.Int("k"); i = z3.Int("i")
        reals = [q for q in Lp.recs.values() if q.kind == "scalar" and is_z(Z(q.fn(0))) and Z(q.fn(0)).sort() == REAL]
        if not reals: raise Unsupported("no running minimum")
        mn = reals[0]
        vd = lambda q: [C.RES(q).items[j] for j in range(nd)]
        costi = lambda q: COST(g, vd(q))
        NN = mn.N
        ch = [0, 1]
        for sft in ch:
            hk = s1.hyps + [k >= 0, Z(lt(k, NN))]
            stp = subst(mn.step, [(mn.kap, k)])
            good = Tactic(eng, hk).ent(le(stp, costi(add(k, sft)))) and Tactic(eng, s1.hyps).ent(eq(add(NN, sft), L(C.N)))
            if good: break
        U.goal(eng, s1.hyps, "every candidate is examined", eq(add(NN, sft), L(C.N)))
        U.goal(eng, hk, "the running minimum never increases", le(stp, mn.fn(k)))
        U.goal(eng, hk, "the running minimum is at most the cost of the candidate examined", le(stp, costi(add(k, sft))))
        if sft: U.goal(eng, s1.hyps, "the running minimum starts at the first candidate", le(mn.fn(0), costi(0)))
        U.goal(eng, s1.hyps, "the running minimum is the cost of the decomposition kept", eq(mn.fn(NN), COST(g, res)))
        # by induction over the iterations: minimum(N) <= cost(candidate i) for every i
        q = QFact((i,), z3.Implies(z3.And(i >= 0, Z(lt(i, L(C.N)))), Z(le(mn.fn(NN), costi(i)))), [Z(vd(i)[0])], "running minimum")
        U.goal(eng, s1.hyps + [Z(valid(g, d))] + facts + kept + [q], "no admissible factorisation has a smaller ratio", le(COST(g, res), COST(g, d)), kind="optimal")
    return run
def pname_(p): return ".".join(str(a[1]) for a in p)

# ----------------------------------------------------------------------------- build and the queries
class Optimal:
    """contract of computeOptimalDecomp: empty, or an admissible factorisation and the block iterator over it (proved by the optimal units)"""
    at_call = True
    def __init__(self, g, d, ok, tu): self.g, self.d, self.ok, self.tu = g, d, ok, tu; self.n = 0
    def call(self, I, st, this, args, n):
        eng = I.eng; eng.called.add("CubeDecomp::computeOptimalDecomp"); self.n += 1
        obj = st.read(this)
        eng.oblige(st, "computeOptimalDecomp is called with the process count and sizes given", "safety", band(eq(obj.fields["nprocs"], self.g.P), eq(obj.fields["ndims"], self.g.nd), same_vec(obj.fields["dims"], self.g.n)))
        if not self.ok: return CVec([])
        for f in [Z(valid(self.g, self.d))]: st.assume(f)
        st.write(this, obj.with_("mit", built_iter(eng, self.tu, st, self.d)))
        return CVec(self.d)
def same_vec(v, xs): return band(eq(v.len, len(xs)), *[eq(v.get(j), x) for j, x in enumerate(xs)])
def built_iter(eng, tu, st, d):
    I2 = Interp(eng, tu); s = st.copy(); s.vars["mm"] = default_value(I2, "MultiArrayIter", False)
    rec, eng.record = eng.record, 0
    try: invoke(I2, s, method(tu, "MultiArrayIter", "build"), ("mm",), CVec([0] * len(d)), CVec(d), True)
    finally: eng.record = rec
    return s.vars["mm"]

class Built:
    """the object after a successful build, with the block iterator left anywhere by earlier queries"""
    def __init__(self, U, nd, ok=True, ctor=True):
        self.U, self.nd = U, nd; self.tu = tu = lib_tu(); self.g = g = Grid(nd); self.d = d = [z3.Int("d%d" % j) for j in range(nd)]
        self.l = [fdiv(n, x) for n, x in zip(g.n, d)]
        eng = self.eng = U.engine("CubeDecomp::build"); I = Interp(eng, tu); st = State()
        for f in g.pre: st.assume(f)
        if ok:
            for f in self.facts(eng): st.assume(f)
        st.vars["self"] = default_value(I, "CubeDecomp", False)
        self.C = Optimal(g, d, ok, tu); I.contracts = {"CubeDecomp::computeOptimalDecomp": self.C}
        self.r = invoke(I, st, method(tu, "CubeDecomp", "build"), ("self",), g.P, CVec(g.n))
        self.st = st
    def facts(self, eng):
        """1 <= d_j <= n_j, l_j d_j = n_j, products bounded, product of d is the process count"""
        U, g, d, l = self.U, self.g, self.d, self.l
        out = [Z(valid(g, d))]
        for a, x, n in zip(l, d, g.n):
            f = Z(band(ge(a, 1), le(a, n), eq(mul(a, x), n)))
            U.goal(eng, [n >= 1, x >= 1, x <= n, Z(eq(fmod(n, x), 0))], "sub-domain size", f, kind="lemma"); out.append(f)
        B = Box(self.nd, True); B.n = d
        for j in range(self.nd):
            for k in range(j + 1, self.nd + 1):
                f = Z(band(ge(prod(d[j:k]), 1), le(prod(d[j:k]), g.P)))
                U.goal(eng, [x >= 1 for x in d] + [Z(eq(prod(d), g.P))], "partial products of the factors", f, kind="lemma"); out.append(f)
        return out
    def box(self):
        B = Box(self.nd, True); B.n = self.d; return B
    def anywhere(self, s):
        """iterator position arbitrary (what MultiArrayIter::move may change)"""
        m0 = State({"o": s.vars["self"].fields["mit"]}); m1 = s.copy(); m1.vars["o"] = m0.vars["o"]
        I = Interp(self.eng, self.tu); rec, self.eng.record = self.eng.record, 0
        invoke(I, m1, method(self.tu, "MultiArrayIter", "move"), ("o",), z3.Int("anypos")); self.eng.record = rec
        self.moved = [p[1:] for p in changed(m0, m1)]
        from vcg.loops import lset
        mit = s.vars["self"].fields["mit"]
        for k, p in enumerate(self.moved): mit = lset(mit, p, z3.Int("anypos%d" % k))
        s.vars["self"] = s.vars["self"].with_("mit", mit)
    def query(self, name, *vals, hyps=(), hints=()):
        s = self.st.copy(); self.anywhere(s)
        for h in hyps: s.assume(h)
        for h in hints: s.assume(h)
        before = s.vars["self"]
        e = self.U.engine("CubeDecomp::" + name); I = Interp(e, self.tu)
        r = invoke(I, s, method(self.tu, "CubeDecomp", name), ("self",), *vals)
        self.U.discharge(e)
        ch = [p for p in changed(State({"o": before}), State({"o": s.vars["self"]})) if not (p[1] == ("f", "mit") and p[2:] in self.moved)]
        self.U.fact("%s changes nothing but the iterator's position" % name, not ch, detail=str(ch))
        return e, s, r
def mono(B, x, U, eng):
    hs = B.hints(x)
    for h in hs: U.goal(eng, [z3.And(a >= 0, a < n) for a, n in zip(x, B.n)] + [n >= 1 for n in B.n], "monotonicity instance", h, kind="lemma")
    return hs
def build_unit(nd):
    def run(U):
        for ok in (True, False):
            b = Built(U, nd, ok); U.vacuity(b.eng, b.g.pre, "CubeDecomp::build")
            U.discharge(b.eng)
            U.fact("build asks for the optimal decomposition", b.C.n >= 1)
            U.goal(b.eng, b.st.hyps, "build returns %s when %s admissible factorisation exists" % (ok, "an" if ok else "no"), eq(b.r, ok))
            if not ok: continue
            dec = b.query("getDecomp")[2]
            U.goal(b.eng, b.st.hyps, "the decomposition reported is the factorisation found", same_vec(dec, b.d))
    return run
def boxes_unit(nd):
    def run(U):
        b = Built(U, nd); B = b.box(); d, l, n = b.d, b.l, b.g.n
        x, rng = B.cell(); hs = mono(B, x, U, b.eng)
        rk = B.flat(x)
        e, s, beg = b.query("getBegIndices", rk, hyps=rng, hints=hs)
        e2, s2, end = b.query("getEndIndices", rk, hyps=rng, hints=hs)
        # instances of x*l <= d*l
        ins = []
        for j in range(nd):
            for f in (Z(ge(mul(x[j], l[j]), 0)), Z(ge(mul(sub(sub(d[j], 1), x[j]), l[j]), 0))):
                U.goal(e, rng + [Z(ge(l[j], 1)), d[j] >= 1], "monotonicity instance", f, kind="lemma"); ins.append(f)
        for j in range(nd):
            U.equal(e, s.hyps + ins, "low corner of the sub-domain (axis %d)" % j, beg.get(j), mul(x[j], l[j]), hints=hs + ins)
            U.equal(e2, s2.hyps + ins, "high corner of the sub-domain (axis %d)" % j, end.get(j), mul(add(x[j], 1), l[j]), hints=hs + ins)
        U.goal(e, s.hyps, "one index per axis", band(eq(beg.len, nd), eq(end.len, nd)))
        # tiling: over the contracts of the two queries
        c = [z3.Int("c%d" % j) for j in range(nd)]; own = [fdiv(c[j], l[j]) for j in range(nd)]
        hc = b.facts(b.eng) + b.g.pre + [z3.And(c[j] >= 0, c[j] < n[j]) for j in range(nd)]
        for j in range(nd):
            U.goal(b.eng, hc, "owner block is in range (axis %d)" % j, band(ge(own[j], 0), lt(own[j], d[j])))
            U.goal(b.eng, hc, "the owner's sub-domain contains the cell (axis %d)" % j, band(le(mul(own[j], l[j]), c[j]), lt(c[j], mul(add(own[j], 1), l[j]))))
            U.goal(b.eng, hc + [z3.And(x[j] >= 0, x[j] < d[j]), Z(band(le(mul(x[j], l[j]), c[j]), lt(c[j], mul(add(x[j], 1), l[j]))))], "no other sub-domain contains the cell (axis %d)" % j, eq(x[j], own[j]))
            U.goal(b.eng, hc + rng + ins, "the sub-domain lies in the grid and has the common size (axis %d)" % j, band(ge(mul(x[j], l[j]), 0), le(mul(add(x[j], 1), l[j]), n[j]), eq(sub(mul(add(x[j], 1), l[j]), mul(x[j], l[j])), l[j])))
        U.goal(b.eng, b.facts(b.eng) + rng + hs, "ranks are the blocks: 0 <= rank < process count", band(ge(rk, 0), lt(rk, b.g.P)))
        p = z3.Int("p"); dg = B.digits(p)
        U.goal(b.eng, b.facts(b.eng) + [p >= 0, p < b.g.P], "every rank owns a block", band(eq(B.flat(dg), p), *[band(ge(dg[j], 0), lt(dg[j], d[j])) for j in range(nd)]))
    return run
def wrap(v, d): return ite(lt(v, 0), add(v, d), ite(ge(v, d), sub(v, d), v))
def neighbor_unit(nd):
    def run(U):
        b = Built(U, nd); B = b.box(); d, l, n = b.d, b.l, b.g.n
        x, rng = B.cell(); hs = mono(B, x, U, b.eng); rk = B.flat(x)
        dr = [z3.Int("dir%d" % j) for j in range(nd)]; hd = [z3.And(a >= -1, a <= 1) for a in dr]
        y = [wrap(add(x[j], dr[j]), d[j]) for j in range(nd)]
        for j in range(nd): U.goal(b.eng, rng + hd + [d[j] >= 1], "the neighbouring block exists (axis %d)" % j, band(ge(y[j], 0), lt(y[j], d[j])), kind="lemma")
        # the block reached, named, with its range (lemma above)
        yv = [z3.Int("y%d" % j) for j in range(nd)]; rng2 = [z3.And(a >= 0, a < q) for a, q in zip(yv, d)]; hy = mono(B, yv, U, b.eng)
        df = [Z(eq(a, q)) for a, q in zip(yv, y)]
        e, s, r = b.query("getNeighborRank", rk, CVec(dr), hyps=rng + hd + rng2 + df + [Z(band(ge(B.flat(yv), 0), lt(B.flat(yv), b.g.P)))], hints=hs + hy)
        U.goal(b.eng, b.facts(b.eng) + rng2 + hy, "position of the neighbouring block is a valid rank", band(ge(B.flat(yv), 0), lt(B.flat(yv), b.g.P)))
        T = Tactic(e, s.hyps, hints=hs + hy)
        U.equal(e, s.hyps, "the neighbour is the rank of the adjacent block, with wrap-around", r, B.flat(y), hints=hs + hy, splits=[Z(lt(add(x[j], dr[j]), 0)) for j in range(nd)] + [Z(ge(add(x[j], dr[j]), d[j])) for j in range(nd)])
        for j in range(nd):
            U.goal(b.eng, rng + hd + [d[j] >= 1], "stepping back returns (axis %d)" % j, eq(wrap(sub(y[j], dr[j]), d[j]), x[j]))
            # adjacency: the block's low corner is one sub-domain away, modulo the grid size
            q = z3.Int("q")
            h = b.facts(b.eng) + rng + hd
            low = lambda v: mul(v, l[j])
            U.goal(b.eng, h, "the neighbour's sub-domain is adjacent, modulo the grid size (axis %d)" % j,
                   bor(*[eq(low(y[j]), add(add(low(x[j]), mul(dr[j], l[j])), k)) for k in (0, n[j], neg(n[j]))]))
        t, rng3 = B.cell("t")
        U.vacuity(b.eng, b.g.pre + [Z(valid(b.g, d))] + rng + hd, "getNeighborRank")
    return run
