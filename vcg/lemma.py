"""Equational reasoning for the nonlinear goals: exact rational-function normal forms, elimination of
div/mod by exhibiting quotient and remainder, and case splits.  Every step either is an exact ring
identity (decided here, with rational coefficients) or an obligation given to the SMT prover."""
from .core import *

# ----------------------------------------------------------------------------- polynomials: {monomial: coeff}, monomial = sorted tuple of (atom id, power)
class Atoms:
    def __init__(self): self.ids = {}; self.terms = []
    def of(self, t):
        k = t.get_id()
        if k not in self.ids:
            self.ids[k] = len(self.terms); self.terms.append(t)
        return self.ids[k]
def pconst(c): return {(): Fraction(c)} if c != 0 else {}
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x == 0: r.pop(m, None)
        else: r[m] = x
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, p in n: d[a] = d.get(a, 0) + p
    return tuple(sorted(d.items()))
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = mmul(m, n); x = r.get(k, 0) + c * e
            if x == 0: r.pop(k, None)
            else: r[k] = x
    return r
class NotRing(Exception): pass
class OutOfTime(Exception): pass

def poly(t, A):
    """polynomial of an integer or real term without division by non-constants"""
    n, d = ratio(t, A)
    if list(d.keys()) != [()]: raise NotRing()
    c = d[()]
    return {m: x / c for m, x in n.items()}
def ratio(t, A, dens=None):
    """(numerator, denominator) polynomials; denominators encountered are appended to dens"""
    if not is_z(t): return pconst(t), pconst(1)
    k = t.decl().kind() if z3.is_app(t) else None
    if z3.is_int_value(t) or z3.is_rational_value(t): return pconst(unz(t)), pconst(1)
    ch = t.children()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        n, d = ratio(ch[0], A, dens)
        for c in ch[1:]:
            n2, d2 = ratio(c, A, dens)
            s = 1 if k == z3.Z3_OP_ADD else -1
            if d == d2: n = padd(n, n2, s)
            else: n, d = padd(pmul(n, d2), pmul(n2, d), s), pmul(d, d2)
        return n, d
    if k == z3.Z3_OP_UMINUS:
        n, d = ratio(ch[0], A, dens); return {m: -c for m, c in n.items()}, d
    if k == z3.Z3_OP_MUL:
        n, d = pconst(1), pconst(1)
        for c in ch:
            n2, d2 = ratio(c, A, dens); n, d = pmul(n, n2), pmul(d, d2)
        return n, d
    if k == z3.Z3_OP_DIV:
        n, d = ratio(ch[0], A, dens); n2, d2 = ratio(ch[1], A, dens)
        if dens is not None: dens.append(ch[1])
        return pmul(n, d2), pmul(d, n2)
    if k == z3.Z3_OP_TO_REAL: return ratio(ch[0], A, dens)
    return {((A.of(t), 1),): Fraction(1)}, pconst(1)
def to_term(p, A, sort=INT):
    xs = []
    for m, c in p.items():
        x = None
        if c.denominator != 1 and sort == INT: raise NotRing()
        if c != 1 or not m: x = z3.IntVal(int(c)) if sort == INT else z3.RealVal(str(c))
        for a, e in m:
            for _ in range(e):
                y = A.terms[a]
                if sort == REAL and y.sort() == INT: y = z3.ToReal(y)
                x = y if x is None else x * y
        xs.append(x)
    if not xs: return 0
    r = xs[0]
    for x in xs[1:]: r = r + x
    return unz(r)
def ring_eq(a, b):
    """exact identity of rational functions (denominators assumed non-zero; returned for checking)"""
    A = Atoms(); dens = []
    n1, d1 = ratio(a, A, dens); n2, d2 = ratio(b, A, dens)
    if d1 == d2: ok = n1 == n2
    else: ok = pmul(n1, d2) == pmul(n2, d1)
    return ok, dens
def congruent(x, y, ent):
    """x = y as rational functions, or the same function applied to arguments for which that holds"""
    if not (is_z(x) and is_z(y)) or x.sort() != y.sort() or x.sort() == BOOL: return False
    try: ok, dens = ring_eq(x, y)
    except Exception: ok = False
    if ok: return all(ent(ne(d, 0)) for d in dens)
    if z3.is_app(x) and z3.is_app(y) and x.num_args() > 0 and x.decl().eq(y.decl()) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return all(a.eq(b) or congruent(a, b, ent) for a, b in zip(x.children(), y.children()))
    return False
def normal(t):
    """integer term in a canonical expanded form"""
    if not is_z(t): return t
    try:
        A = Atoms(); p = poly(t, A)
        p = dict(sorted(p.items(), key=lambda mc: str([(A.terms[a].sexpr(), e) for a, e in mc[0]])))
        return to_term(p, A, t.sort())
    except NotRing: return t

# ----------------------------------------------------------------------------- the tactic
class Tactic:
    def __init__(self, eng, hyps, timeout=4000, hints=(), deadline=None):
        self.eng, self.P, self.hyps, self.timeout = eng, eng.prover, list(hyps), timeout
        self.hints = list(hints)
        self.deadline = deadline or time.time() + 0.04 * timeout      # 160 s for the default limit
        self.memo = {}
        self.log = []
    def child(self, c):
        t = Tactic(self.eng, self.hyps + [Z(c)], self.timeout, self.hints, self.deadline); return t
    def ent(self, g, timeout=None):
        if time.time() > self.deadline: raise OutOfTime()
        g = unz(g)
        if not is_z(g): return bool(g)
        k = g.get_id()
        if k in self.memo: return self.memo[k][0]
        r = self.P.check(self.hyps, g, timeout or self.timeout, extra=self.hints)[0]
        self.memo[k] = (r == "proved", g)
        return r == "proved"
    def consistent(self):
        return self.P.check(self.hyps, z3.BoolVal(False), 1500)[0] != "proved"
    # --- division by exhibiting quotient and remainder
    def divmod(self, a, b):
        """(q, r) with a = b q + r, 0 <= r < b, when found"""
        A = Atoms()
        try: pa, pb = poly(a, A), poly(b, A)
        except NotRing: return None
        if len(pb) != 1: 
            cand = [({}, pa)]
        else:
            (mb, cb), = pb.items()
            db = dict(mb); q, r = {}, {}
            for m, c in pa.items():
                d = dict(m)
                if all(d.get(x, 0) >= e for x, e in db.items()) and (c / cb).denominator == 1:
                    for x, e in db.items():
                        d[x] -= e
                    q = padd(q, {tuple(sorted((x, e) for x, e in d.items() if e)): c / cb})
                else: r = padd(r, {m: c})
            cand = [(q, r)]
        q0, r0 = cand[0]
        # the polynomial quotient, or one off
        for dq in (0, 1, -1, 2, -2):
            q = padd(q0, pconst(dq)); r = padd(r0, pb, -dq)
            qt, rt = to_term(q, A), to_term(r, A)
            if self.ent(band(ge(rt, 0), lt(rt, b))): return qt, rt
        return None
    def rewrite(self, t, known_ites=True):
        """eliminate idiv/imod and decided conditionals, bottom up"""
        if not is_z(t): return t
        memo = {}
        def go(x):
            if not is_z(x): return x
            i = x.get_id()
            if i in memo: return memo[i][0]
            r = step(x)
            memo[i] = (r, x)
            return r
        def step(x):
            if not z3.is_app(x) or x.num_args() == 0: return unz(x)
            k = x.decl().kind()
            if k == z3.Z3_OP_ITE:
                c = go(x.arg(0))
                if is_z(c):
                    if self.ent(c, 1500): c = True
                    elif self.ent(bnot(c), 1500): c = False
                if c is True: return go(x.arg(1))
                if c is False: return go(x.arg(2))
                return ite(c, go(x.arg(1)), go(x.arg(2)))
            ch = [go(c) for c in x.children()]
            nm = x.decl().name()
            if nm in ("idiv", "imod") or k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                dv = nm == "idiv" or k == z3.Z3_OP_IDIV
                a, b = normal(ch[0]), normal(ch[1])
                if isint(a) and isint(b) and b > 0: return a // b if dv else a % b
                qr = self.divmod(a, b)
                if qr is not None: return qr[0] if dv else qr[1]
                return fdiv(a, b) if dv else fmod(a, b)
            if any(not same(p, unz(q)) for p, q in zip(ch, x.children())):
                zs = []
                for p, q in zip(ch, x.children()):
                    z = Z(p)
                    if z.sort() != q.sort(): z = z3.ToReal(z)
                    zs.append(z)
                if k == z3.Z3_OP_TO_REAL: return R(ch[0])
                y = x.decl()(*zs) if k == z3.Z3_OP_UNINTERPRETED else rebuild(x, zs)
                return unz(y)
            return x
        return go(t)
    # --- unify applications with equal arguments
    def unify(self, ts, splits=()):
        ap = {}
        seen = set()
        for t in ts:
            if is_z(t): apps(t, ap, seen)
        reps = {}
        pairs = []
        for nm, xs in ap.items():
            if nm in ("idiv", "imod"): continue
            xs = sorted((x for x in xs if z3.is_app(x)), key=lambda x: len(x.sexpr()) if len(xs) < 200 else 0)
            for x in xs:
                for y in reps.setdefault(nm, []):
                    if y.num_args() == x.num_args() and all(p.sort() == q.sort() for p, q in zip(x.children(), y.children())) and \
                       all(self.plausible(p, q) for p, q in zip(x.children(), y.children())) and \
                       all(self.arg_eq(p, q, splits) for p, q in zip(x.children(), y.children())):
                        pairs.append((x, y)); break
                else: reps[nm].append(x)
        out = []
        pairs.sort(key=lambda xy: -len(xy[0].sexpr()))
        for t in ts: out.append(unz(z3.substitute(t, *pairs)) if is_z(t) and pairs else t)
        return out
    def models(self, splits=()):
        """sample valuations of the constants that satisfy the hypotheses (only to skip hopeless equalities)"""
        if getattr(self, "_models", None) is None:
            self._models = []
            g, q = self.P.split(self.hyps)
            s = z3.Solver(); s.set("timeout", 300)
            for f in g: s.add(f)
            for c in [None] + [x for sp in list(splits)[:8] for x in (sp, bnot(sp))]:
                s.push()
                if c is not None: s.add(Z(c))
                if s.check() == z3.sat: self._models.append(s.model())
                s.pop()
        return self._models
    def plausible(self, p, q):
        if p.eq(q): return True
        for m in self.models():
            try:
                if num_eval(p, m) != num_eval(q, m): return False
            except NotRing: pass
        return True
    def arg_eq(self, p, q, splits=()):
        if p.eq(q): return True
        try:
            ok, dens = ring_eq(p, q)
            if ok and not dens: return True
        except NotRing: pass
        x, y = self.rewrite(p), self.rewrite(q)
        ok, dens = ring_eq(x, y)
        if ok and not dens: return True
        c = self.useful([x, y], splits)
        if c is None: return self.ent(eq(x, y))
        rest = [s for s in splits if s is not c]
        for cc in (c, bnot(c)):
            ch = self.child(cc)
            if ch.consistent() and not ch.arg_eq(Z(x), Z(y), rest): return False
        return True
    def useful(self, ts, splits):
        """a case split that can simplify one of the terms"""
        vs = set()
        stack = [t for t in ts if is_z(t)]; seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if not z3.is_app(x): continue
            k = x.decl().kind()
            if k == z3.Z3_OP_ITE: consts(x.arg(0), vs)
            elif x.decl().name() in ("idiv", "imod") or k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD): consts(x, vs)
            stack.extend(x.children())
        for c in splits:
            cv = set(); consts(c, cv)
            if cv & vs and not self.ent(c, 800) and not self.ent(bnot(c), 800): return c
        return None
    def equal(self, a, b, splits=()):
        """prove a = b, splitting cases when needed; returns None or the failing case"""
        self.models(splits)
        x, y = self.rewrite(a), self.rewrite(b)
        x, y = self.unify([x, y], splits)
        if self.leaf(x, y, 1200 if splits else None): return None
        c = self.useful([x, y], splits)
        if c is not None:
            rest = [s for s in splits if s is not c]
            for cc in (c, bnot(c)):
                ch = self.child(cc)
                if not ch.consistent(): continue
                r = ch.equal(x, y, rest)
                self.log += ch.log
                if r is not None: return [cc] + r
            return None
        if splits and self.leaf(x, y): return None
        self.log.append((x, y))
        return ["%s != %s" % (str(x)[:900], str(y)[:900])]
    def leaf(self, x, y, timeout=None):
        ok, dens = ring_eq(x, y)
        if ok:
            for d in dens:
                if not self.ent(ne(d, 0)): return False
            self.P.backends["ring"] = self.P.backends.get("ring", 0) + 1
            return True
        if timeout is not None: return False
        return congruent(x, y, self.ent) or self.ent(eq(x, y))
def consts(t, acc):
    stack = [t]; seen = set()
    while stack:
        x = stack.pop()
        if not is_z(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
        stack.extend(x.children())
def num_eval(t, m):
    """value of an integer/boolean term without uninterpreted functions (other than div/mod) in a model"""
    if z3.is_int_value(t) or z3.is_rational_value(t): return unz(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    if z3.is_const(t):
        v = unz(m.eval(t, True))
        if is_z(v): raise NotRing()
        return v
    k = t.decl().kind(); ch = t.children(); nm = t.decl().name()
    if k == z3.Z3_OP_ITE: return num_eval(ch[1] if num_eval(ch[0], m) else ch[2], m)
    if nm in ("idiv", "imod") or k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
        a, b = num_eval(ch[0], m), num_eval(ch[1], m)
        if b <= 0: raise NotRing()
        return a // b if nm == "idiv" or k == z3.Z3_OP_IDIV else a % b
    if k == z3.Z3_OP_UNINTERPRETED: raise NotRing()
    v = [num_eval(c, m) for c in ch]
    if k == z3.Z3_OP_ADD: return sum(v)
    if k == z3.Z3_OP_SUB: return v[0] - sum(v[1:])
    if k == z3.Z3_OP_UMINUS: return -v[0]
    if k == z3.Z3_OP_MUL:
        r = 1
        for x in v: r *= x
        return r
    if k == z3.Z3_OP_TO_REAL: return v[0]
    if k == z3.Z3_OP_LT: return v[0] < v[1]
    if k == z3.Z3_OP_LE: return v[0] <= v[1]
    if k == z3.Z3_OP_GT: return v[0] > v[1]
    if k == z3.Z3_OP_GE: return v[0] >= v[1]
    if k == z3.Z3_OP_EQ: return v[0] == v[1]
    if k == z3.Z3_OP_AND: return all(v)
    if k == z3.Z3_OP_OR: return any(v)
    if k == z3.Z3_OP_NOT: return not v[0]
    raise NotRing()
def rebuild(x, zs):
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = zs[0]
        for z in zs[1:]: r = r + z
        return r
    if k == z3.Z3_OP_MUL:
        r = zs[0]
        for z in zs[1:]: r = r * z
        return r
    if k == z3.Z3_OP_SUB:
        r = zs[0]
        for z in zs[1:]: r = r - z
        return r
    if k == z3.Z3_OP_AND: return z3.And(*zs)
    if k == z3.Z3_OP_OR: return z3.Or(*zs)
    return z3.substitute(x, *[(c, z) for c, z in zip(x.children(), zs) if not c.eq(z)])
