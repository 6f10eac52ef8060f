"""Contracts of the C++ library: MultiArrayIter and CubeDecomp (cxx/)."""
from vcg.core import *
from vcg.cppfe import TU, Interp, default_value, REPO, strip_ref, ctype, INTS
from vcg.loops import changed, leaves, lget
import os, tempfile

SMAX = 2**64 - 1
def load(text, filters, flags=()):
    d = tempfile.mkdtemp(prefix="verif-tu-"); p = os.path.join(d, "tu.cxx")
    try:
        with open(p, "w") as f: f.write(text)
        return TU(p, filters, list(flags))
    finally: os.unlink(p); os.rmdir(d)
def lib_tu():
    return load('#include "MultiArrayIter.cpp"\n#include "CubeDecomp.cpp"\ntemplate int MultiArrayIter::computeBigIndex<int>(const std::vector<int>&) const;\n'
                'template size_t MultiArrayIter::computeBigIndex<size_t>(const std::vector<size_t>&) const;\n', ["MultiArrayIter", "CubeDecomp"])
def prod(xs):
    r = 1
    for x in xs: r = mul(r, x)
    return r
def method(tu, cls, name, ret=None, nparams=None):
    fs = [f for f in tu.funcs if f.cls == cls and f.name == name and not f.node.get("isImplicit")]
    if ret is not None: fs = [f for f in fs if f.type.split("(")[0].strip() in ((ret,) if ret != "size_t" else ("size_t", "unsigned long"))]
    if nparams is not None: fs = [f for f in fs if len(f.params) == nparams]
    if not fs: raise Unsupported("%s::%s not found" % (cls, name))
    return fs[0]
def invoke(I, st, f, this, *vals):
    """run a function on values; returns its value"""
    frame = {}
    for k, (p, v) in enumerate(zip(f.params, vals)):
        r = "arg%d#%d" % (k, next(I.eng.names)); st.vars[r] = v; frame[p["id"]] = (r,)
    if len(vals) < len(f.params): raise Unsupported("%s has more parameters than its contract" % f.qname)
    from vcg.cppfe import Ref
    r = I.run_body(st, f, this, frame)
    return I.read(st, r.path) if isinstance(r, Ref) else r

class Box:
    """index box [lo,hi) in nd dimensions"""
    def __init__(self, nd, row, nonempty=True):
        self.nd, self.row = nd, row
        self.lo = [z3.Int("lo%d" % j) for j in range(nd)]
        self.n = [z3.Int("n%d" % j) for j in range(nd)]
        self.hi = [add(l, n) for l, n in zip(self.lo, self.n)]
        self.ntot = prod(self.n)
        # precondition: hi >= lo, everything representable (the sizes in size_t)
        self.pre = [z3.And(l >= 0, n >= (1 if nonempty else 0), l + n <= SMAX) for l, n in zip(self.lo, self.n)] + [Z(le(self.ntot, SMAX))]
        self.lem = []
        if nonempty:
            for j in range(nd):
                for k in range(j + 1, nd + 1):
                    if k - j < nd: self.lem += [Z(le(prod(self.n[j:k]), self.ntot)), Z(ge(prod(self.n[j:k]), 1))]
            self.lem.append(Z(ge(self.ntot, 1)))
    def flat(self, x):
        """position of the cell at offset x from the low corner: mixed radix, last (first) index fastest"""
        o = list(range(self.nd)) if self.row else list(reversed(range(self.nd)))
        r = x[o[0]]
        for j in o[1:]: r = add(mul(r, self.n[j]), x[j])
        return r
    def cell(self, name="x"):
        x = [z3.Int("%s%d" % (name, j)) for j in range(self.nd)]
        return x, [z3.And(a >= 0, a < n) for a, n in zip(x, self.n)]
    def digits(self, b):
        o = list(range(self.nd)) if self.row else list(reversed(range(self.nd)))
        q = b; d = {}
        for j in reversed(o[1:]): d[j] = fmod(q, self.n[j]); q = fdiv(q, self.n[j])
        d[o[0]] = q
        return [d[j] for j in range(self.nd)]
    def hints(self, x):
        out = []
        for j in range(self.nd):
            for k in range(self.nd):
                for m in range(k, self.nd):
                    if k <= j <= m: continue
                    out += [Z(ge(mul(x[j], prod(self.n[k:m + 1])), 0)), Z(ge(mul(self.n[j] - 1 - x[j], prod(self.n[k:m + 1])), 0))]
        return out

def build_iter(U, nd, row, nonempty=True, via="build", tu=None):
    tu = tu or lib_tu()
    B = Box(nd, row, nonempty)
    eng = U.engine("MultiArrayIter::%s" % via); I = Interp(eng, tu)
    st = State()
    for f in B.pre + B.lem: st.assume(f)
    st.vars["it"] = default_value(I, "MultiArrayIter", False)
    f = method(tu, "MultiArrayIter", via, nparams=3)
    invoke(I, st, f, ("it",), CVec(B.lo), CVec(B.hi), row)
    return eng, I, st, B, tu
def fresh_call(U, name, tu, st): 
    eng = U.engine(name); return eng, Interp(eng, tu), st.copy()
def same_object(U, what, a, b, except_=()):
    ch = [p for p in changed(State({"o": a}), State({"o": b})) if not any(p[1] == ("f", e) for e in except_)]
    U.fact(what, not ch, detail=str(ch))

def mai_unit(nd, row):
    def run(U):
        # lemmas: partial products, and the flat index is a bijection between the box and [0, ntot)
        B = Box(nd, row)
        e = U.engine("lemma: mixed radix representation")
        for f in B.lem: U.goal(e, B.pre, "partial product bound: %s" % f, f, kind="lemma")
        x, rng = B.cell(); b = z3.Int("b"); inb = [b >= 0, Z(lt(b, B.ntot))]
        for h in B.hints(x): U.goal(e, rng + [n >= 1 for n in B.n], "monotonicity instance", h, kind="lemma")
        hy = B.pre + B.lem + rng
        U.goal(e, hy + B.hints(x), "the position of a cell of the box is in range", band(ge(B.flat(x), 0), lt(B.flat(x), B.ntot)), kind="lemma")
        d = B.digits(b)
        U.goal(e, B.pre + inb, "every position is the position of its digits", eq(B.flat(d), b), kind="lemma")
        for j in range(nd): U.goal(e, B.pre + inb, "digit %d is in range" % j, band(ge(d[j], 0), lt(d[j], B.n[j])), kind="lemma")
        y, rng2 = B.cell("y")
        for j in range(nd): U.equal(e, B.pre + B.lem + rng, "digit %d of a cell's position is its offset" % j, B.digits(B.flat(x))[j], x[j], hints=B.hints(x), kind="lemma")
        # build / constructor
        for via in ("build", "MultiArrayIter"):
            eng, I, st, B, tu = build_iter(U, nd, row, via=via)
            U.vacuity(eng, B.pre, "MultiArrayIter::" + via)
            U.discharge(eng)
            eng2, I2, s2 = fresh_call(U, "MultiArrayIter::getNumberOfTerms", tu, st)
            r = invoke(I2, s2, method(tu, "MultiArrayIter", "getNumberOfTerms"), ("it",))
            U.equal(eng2, s2.hyps, "%s: as many terms as the box has cells" % via, r, B.ntot)
            same_object(U, "getNumberOfTerms does not modify the iterator", st.vars["it"], s2.vars["it"])
            # position p: built, moved
            eng2, I2, s2 = fresh_call(U, "MultiArrayIter::getIndices (after %s)" % via, tu, st)
            r = invoke(I2, s2, method(tu, "MultiArrayIter", "getIndices"), ("it",)); U.discharge(eng2)
            for j in range(nd): U.equal(eng2, s2.hyps, "%s: starts at the low corner (index %d)" % (via, j), r.get(j), B.lo[j])
        # move(b); getIndices
        pos = z3.Int("p")
        def at(st, p, extra):
            s = st.copy()
            for f in extra: s.assume(f)
            e_, I_ = U.engine("MultiArrayIter::move"), None
            I_ = Interp(e_, tu); invoke(I_, s, method(tu, "MultiArrayIter", "move"), ("it",), p); U.discharge(e_)
            return s
        s1 = at(st, B.flat(x), rng)
        eng2, I2, s2 = fresh_call(U, "MultiArrayIter::getIndices", tu, s1)
        r = invoke(I2, s2, method(tu, "MultiArrayIter", "getIndices"), ("it",))
        U.discharge(eng2, extra=B.hints(x))
        U.goal(eng2, s2.hyps, "one index per axis", eq(r.len, nd))
        for j in range(nd): U.equal(eng2, s2.hyps, "at the position of a cell, index %d is the cell's" % j, r.get(j), add(B.lo[j], x[j]), hints=B.hints(x))
        same_object(U, "getIndices does not move the iterator", s1.vars["it"], s2.vars["it"])
        # next at an arbitrary position of the box, then getIndices
        eng3, I3, s3 = fresh_call(U, "MultiArrayIter::next", tu, s1)
        invoke(I3, s3, method(tu, "MultiArrayIter", "next"), ("it",)); U.discharge(eng3, extra=B.hints(x))
        y, rng2 = B.cell("y")
        for f in rng2: s3.assume(f)
        s3.assume(eq(B.flat(y), add(B.flat(x), 1)))
        invoke_r = invoke(Interp(eng3, tu), s3, method(tu, "MultiArrayIter", "getIndices"), ("it",))
        for j in range(nd):
            # next moves to the cell whose position is one more: replace the term of the position
            t = z3.substitute(Z(invoke_r.get(j)), (Z(add(B.flat(x), 1)), Z(B.flat(y))))
            U.equal(eng3, s3.hyps, "next steps to the following position (index %d)" % j, t, add(B.lo[j], y[j]), hints=B.hints(y) + B.hints(x))
        # begin
        eng4, I4, s4 = fresh_call(U, "MultiArrayIter::begin", tu, s1)
        invoke(I4, s4, method(tu, "MultiArrayIter", "begin"), ("it",)); U.discharge(eng4)
        r = invoke(Interp(eng4, tu), s4, method(tu, "MultiArrayIter", "getIndices"), ("it",))
        for j in range(nd): U.equal(eng4, s4.hyps, "begin goes back to the low corner (index %d)" % j, r.get(j), B.lo[j])
        # flattening
        for T, lim in (("size_t", SMAX), ("int", 2**31 - 1)):
            eng5, I5, s5 = fresh_call(U, "MultiArrayIter::computeBigIndex<%s>" % T, tu, st)
            for f in rng: s5.assume(f)
            for j in range(nd): s5.assume(le(B.hi[j], lim))
            s5.assume(le(B.ntot, lim))
            f = method(tu, "MultiArrayIter", "computeBigIndex", ret=T)
            for h in B.hints(x): s5.assume(h)        # proved above as lemmas
            r = invoke(I5, s5, f, ("it",), CVec([add(l, a) for l, a in zip(B.lo, x)]))
            U.discharge(eng5)
            U.equal(eng5, s5.hyps, "computeBigIndex<%s> of a cell of the box is its position" % T, I5.norm(s5, r, "unsigned long" if T == "size_t" else "int"), B.flat(x), hints=B.hints(x))
            same_object(U, "computeBigIndex does not modify the iterator", st.vars["it"], s5.vars["it"])
        eng6, I6, s6 = fresh_call(U, "MultiArrayIter::getLBegIndices", tu, st)
        r = invoke(I6, s6, method(tu, "MultiArrayIter", "getLBegIndices"), ("it",))
        q = invoke(I6, s6, method(tu, "MultiArrayIter", "getEndIndices"), ("it",))
        for j in range(nd):
            U.goal(eng6, s6.hyps, "low corner is reported (index %d)" % j, eq(r.get(j), B.lo[j]))
            U.goal(eng6, s6.hyps, "high corner is reported (index %d)" % j, eq(q.get(j), B.hi[j]))
    return run
def empty_unit(nd, row):
    def run(U):
        eng, I, st, B, tu = build_iter(U, nd, row, nonempty=False)
        # with an empty axis the products are still at most SIZE_MAX in the code's modular arithmetic
        st.assume(bor(*[eq(n, 0) for n in B.n]))
        eng2, I2, s2 = fresh_call(U, "MultiArrayIter::getNumberOfTerms (empty box)", tu, st)
        r = invoke(I2, s2, method(tu, "MultiArrayIter", "getNumberOfTerms"), ("it",))
        for k in range(nd):
            s = s2.copy(); s.assume(eq(B.n[k], 0))
            t = z3.substitute(Z(r), (B.n[k], z3.IntVal(0)))
            U.goal(eng2, s.hyps, "an empty box has no term (axis %d empty)" % k, eq(unz(z3.simplify(t)), 0))
    return run
