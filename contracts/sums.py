"""Sums computed by loops: a term is proved to be sum over k in [0,N) of term(k), by induction along the loops
that computed it.  The ghost function T with T(0) = 0, T(k+1) = T(k) + term(k) stands for the sum; every loop is
shown to step through T (by one or several terms at a time, from any start, or backwards over the whole range)."""
from vcg.core import *
from vcg.lemma import Tactic, OutOfTime
import itertools
_n = itertools.count()

class CellRec:
    """the recursion of one cell of an array that a loop updates"""
    def __init__(self, r, i, ix):
        self.kap, self.init, self.step = r.kap, r.init.get(i), r.step.get(i)
        self.fn = lambda k: r.fn(k, *ix); self.rank = len(ix); self.kind = "cell"
def rec_of(eng, t):
    """the loop recursion whose value at some count is the term t"""
    for L in eng.loops:
        for p, r in getattr(L, "recs", {}).items():
            if not (is_z(t) and z3.is_app(t)): continue
            if r.kind == "scalar" and Z(r.fn(0)).decl().eq(t.decl()): return r, t.arg(t.num_args() - 1)
            if r.kind == "array":                            # one recursion per cell
                rk = r.init.rank; f0 = r.fn(0, *[0] * rk)
                if not is_z(f0) or not f0.decl().eq(t.decl()): continue
                ix = [t.arg(t.num_args() - rk + q) for q in range(rk)]; i = tuple(ix) if rk > 1 else ix[0]
                return CellRec(r, i, ix), t.arg(t.num_args() - rk - 1)
    return None, None
def _at(r, t):
    """the enclosing loops' counters"""
    f0 = Z(r.fn(0)); sb = [(f0.arg(q), t.arg(q)) for q in range(t.num_args() - 1 - getattr(r, "rank", 0)) if not f0.arg(q).eq(t.arg(q))]
    return lambda x: subst(x, sb) if sb and is_z(x) else x
def rec_apps(eng, t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if not is_z(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.sort() == REAL or x.sort() == INT:
                if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and rec_of(eng, x)[0] is not None and x.sort() == REAL: out.append(x); continue
            todo += x.children()
    return out
def direct(U, eng, hyps, name, t, N, term):
    r, cnt = rec_of(eng, t)
    at = _at(r, t); k = z3.Int("k")
    U.goal(eng, hyps, name + " (number of terms)", eq(cnt, N))
    U.goal(eng, hyps, name + " (empty sum)", eq(at(r.init), 0))
    st = at(subst(r.step, [(r.kap, k)])) if is_z(r.step) else r.step
    U.equal(eng, hyps + [k >= 0, Z(lt(k, N))], name + " (each term is added once)", st, add(at(r.fn(k)), term(k)))
    return r
class General:
    def __init__(self, eng, hyps, N, term):
        self.eng, self.hyps, self.N, self.term = eng, list(hyps), N, term
        self.T = z3.Function("Sum!%d" % next(_n), INT, REAL)
        self.facts = [self.T(0) == 0]; self.done = {}; self.points = []
    def unfold(self, e, n=8):
        """instances of T(k+1) = T(k) + term(k) around e"""
        out = []
        for q in range(n):
            x = Z(simp_int(add(e, q)))
            out.append(z3.Implies(x >= 0, self.T(Z(simp_int(add(x, 1)))) == self.T(x) + Z(R(self.term(x)))))
        return out
    def holds(self, goal, extra=()):
        g = unz(goal)
        if not is_z(g): return bool(g)
        return self.eng.prover.check(self.hyps + self.facts + list(extra), g, 4000)[0] == "proved"
    def same(self, a, b, extra=()):
        try: return Tactic(self.eng, self.hyps + self.facts + list(extra), 3000).equal(a, b, []) is None
        except OutOfTime: return False
    def lemma(self, x):
        """e with x = T(e), or None"""
        if x.get_id() in self.done: return self.done[x.get_id()][1]
        self.done[x.get_id()] = (x, None)
        r, cnt = rec_of(self.eng, x); at = _at(r, x); k = z3.Int("k!s")
        init = at(r.init); starts = [0]
        for y in rec_apps(self.eng, init) if is_z(init) else []:
            e = self.lemma(y)
            if e is not None: starts.insert(0, e)
        starts += [1]
        S = at(r.fn(k)); step = at(subst(r.step, [(r.kap, k)])) if is_z(r.step) else r.step
        rng = [k >= 0, Z(lt(k, cnt))]
        a = next((a for a in starts if self.holds(eq(init, self.T(Z(a))), self.unfold(0, 2) + [Z(gt(cnt, 0))])), None)
        res = None
        if a is not None:
            for s in (1, 2, 4, 8, 3):
                want = S
                for q in range(s): want = add(want, self.term(Z(simp_int(add(add(a, mul(s, k)), q)))))
                if self.same(step, want, rng): res = simp_int(add(a, mul(s, cnt))); break
            if res is None and a == 0 and self.holds(eq(cnt, self.N)) and self.same(step, add(S, self.term(Z(sub(sub(self.N, 1), k)))), rng): res = self.N
        if res is not None:
            self.facts += [z3.Implies(Z(gt(cnt, 0)), x == self.T(Z(res))), z3.Implies(Z(eq(cnt, 0)), x == Z(R(init)))]; self.points.append(res)
        self.done[x.get_id()] = (x, res)
        return res
    def prove(self, t):
        for x in rec_apps(self.eng, t): self.lemma(x)
        extra = list(self.unfold(0, 2))
        for e in self.points: extra += self.unfold(e, 4)
        return self.holds(eq(t, self.T(Z(self.N))), extra)
def simp_int(t): return unz(z3.simplify(Z(t), som=True)) if is_z(t) else t
class _Probe:
    def __init__(self): self.ok = True
    def goal(self, eng, hyps, name, g):
        g = unz(g)
        if self.ok and not (g is True or eng.prover.check(hyps, g, 4000)[0] == "proved"): self.ok = False
    def equal(self, eng, hyps, name, a, b):
        if not self.ok: return
        try: self.ok = Tactic(eng, hyps, 4000).equal(a, b, []) is None
        except OutOfTime: self.ok = False
def sum_goal(U, eng, hyps, name, t, N, term):
    """t = sum over k in [0,N) of term(k), by induction along the loop that computed it"""
    r, cnt = rec_of(eng, t)
    if r is not None:
        P = _Probe(); direct(P, eng, hyps, name, t, N, term)
        if P.ok: return direct(U, eng, hyps, name, t, N, term)
    if is_z(t) and (rec_apps(eng, t) or r is None) and General(eng, hyps, N, term).prove(t):
        U.fact(name + " (the loops step through the partial sums)", True); return r
    if r is None: raise Unsupported("%s: the sum is not computed by a recognised loop" % name)
    return direct(U, eng, hyps, name, t, N, term)
