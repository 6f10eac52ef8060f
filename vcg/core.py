"""Core of the deductive verifier: terms, values, symbolic state, obligations and the prover.

Everything here is independent of the source language.  A front end (cppfe, fortfe, pyfe) walks the
real source's syntax tree and calls this module to build terms, to read and write the (purely
functional) store, to merge branches and to record proof obligations.
"""
import itertools, json, os, subprocess, sys, tempfile, time
from fractions import Fraction
import z3

class Unsupported(Exception):
    """The source uses a construct outside the verified subset: the function is not decided."""

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()

# ----------------------------------------------------------------------------- terms
def is_z(x): return isinstance(x, z3.ExprRef)
def Z(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(str(x))
    if is_z(x): return x
    raise Unsupported("not a scalar term: %r" % (x,))
def R(x):
    """as a real term"""
    if isinstance(x, bool): raise Unsupported("bool as real")
    if isinstance(x, (int, Fraction)): return Fraction(x)
    if x.sort() == INT:
        if z3.is_int_value(x): return Fraction(x.as_long())
        return z3.ToReal(x)
    return x
def unz(x):
    """back to a python constant when possible"""
    if not is_z(x): return x
    if z3.is_int_value(x): return x.as_long()
    if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return x
def same(a, b):
    if is_z(a) and is_z(b): return a.eq(b)
    if is_z(a) or is_z(b): return False
    return a == b and type(a) == type(b)
def isint(x): return isinstance(x, int) and not isinstance(x, bool)
def add(a, b):
    if not is_z(a) and not is_z(b): return a + b
    if not is_z(a) and a == 0: return b
    if not is_z(b) and b == 0: return a
    return Z(a) + Z(b)
def sub(a, b):
    if not is_z(a) and not is_z(b): return a - b
    if not is_z(b) and b == 0: return a
    if same(a, b): return 0
    return Z(a) - Z(b)
def mul(a, b):
    if not is_z(a) and not is_z(b): return a * b
    for x, y in ((a, b), (b, a)):
        if not is_z(x):
            if x == 0: return x
            if x == 1: return y
    return Z(a) * Z(b)
def neg(a): return -a if not is_z(a) else -a
def eq(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)): return a == b
    if same(a, b): return True
    if isinstance(a, bool) or isinstance(b, bool):
        x, y = (a, b) if isinstance(a, bool) else (b, a)
        return y if x else bnot(y)
    return Z(a) == Z(b)
def ne(a, b): return bnot(eq(a, b))
def lt(a, b):
    if not is_z(a) and not is_z(b): return a < b
    if same(a, b): return False
    return Z(a) < Z(b)
def le(a, b):
    if not is_z(a) and not is_z(b): return a <= b
    if same(a, b): return True
    return Z(a) <= Z(b)
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def bnot(a):
    if not is_z(a): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def band(*xs):
    out = []
    for x in xs:
        if not is_z(x):
            if not x: return False
            continue
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)
def bor(*xs):
    out = []
    for x in xs:
        if not is_z(x):
            if x: return True
            continue
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)
def implies(a, b):
    if not is_z(a): return b if a else True
    if not is_z(b): return True if b else bnot(a)
    return z3.Implies(a, b)
def ite(c, a, b):
    if not is_z(c): return a if c else b
    if same(a, b): return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else bnot(c)
    if isinstance(a, bool): return bor(c, b) if a else band(bnot(c), b)
    if isinstance(b, bool): return bor(bnot(c), a) if b else band(c, a)
    za, zb = Z(a), Z(b)
    if za.sort() != zb.sort():
        if za.sort() == INT: za = z3.ToReal(za)
        elif zb.sort() == INT: zb = z3.ToReal(zb)
    return z3.If(c, za, zb)
def rdiv(a, b):
    a, b = R(a), R(b)
    if not is_z(a) and not is_z(b) and b != 0: return a / b
    if not is_z(b) and b != 0: return mul(Fraction(1) / b, a)
    return Z(a) / Z(b)

IDIV = z3.Function("idiv", INT, INT, INT)      # floor division, defined for a positive divisor
IMOD = z3.Function("imod", INT, INT, INT)
CURRENT = [None]
def fdiv(a, b):
    """floor division by a positive divisor"""
    if isint(a) and isint(b): return a // b
    if isint(b):
        if b == 1: return a
        return Z(a) / Z(b)
    if isint(a) and a == 0: return 0
    if same(a, b): return 1
    return IDIV(Z(a), Z(b))
def fmod(a, b):
    if isint(a) and isint(b): return a % b
    if isint(b):
        if b == 1: return 0
        return Z(a) % Z(b)
    if isint(a) and a == 0: return 0
    if same(a, b): return 0
    return IMOD(Z(a), Z(b))

def subst(e, pairs):
    if not is_z(e): return e
    return unz(z3.substitute(e, *[(k, Z(v)) for k, v in pairs]))
def subst_any(v, pairs):
    """substitution in structured values"""
    if is_z(v): return subst(v, pairs)
    if hasattr(v, "map_terms"): return v.map_terms(lambda t: subst(t, pairs))
    if isinstance(v, tuple): return tuple(subst_any(x, pairs) for x in v)
    if isinstance(v, list): return [subst_any(x, pairs) for x in v]
    return v

# ----------------------------------------------------------------------------- structured values
class Obj:
    """record value (immutable)"""
    def __init__(self, cls, fields): self.cls, self.fields = cls, fields
    def with_(self, k, v):
        d = dict(self.fields); d[k] = v
        return Obj(self.cls, d)
    def map_terms(self, f): return Obj(self.cls, {k: map_value(v, f) for k, v in self.fields.items()})
    def __repr__(self): return "%s%r" % (self.cls, self.fields)
class CVec:
    """sequence of concrete length"""
    def __init__(self, items): self.items = tuple(items)
    @property
    def len(self): return len(self.items)
    def get(self, i):
        i = unz(i)
        if isint(i):
            if 0 <= i < len(self.items): return self.items[i]
            raise Unsupported("constant index %d outside a sequence of length %d" % (i, len(self.items)))
        if not self.items: raise Unsupported("index into empty sequence")
        r = self.items[-1]
        for k in range(len(self.items) - 2, -1, -1): r = merge_value(eq(i, k), self.items[k], r)
        return r
    def set(self, i, v):
        i = unz(i)
        if isint(i):
            if not 0 <= i < len(self.items): raise Unsupported("constant index out of range")
            return CVec(self.items[:i] + (v,) + self.items[i + 1:])
        return CVec([merge_value(eq(i, k), v, x) for k, x in enumerate(self.items)])
    def map_terms(self, f): return CVec([map_value(v, f) for v in self.items])
    def __repr__(self): return "CVec%r" % (self.items,)
_sv = itertools.count()
class Layer:
    """a conditional update of an array: elements idx with guard(idx) have value(idx).
    point=(idx0,) if it is a write at one index"""
    def __init__(self, guard, value, point=None): self.guard, self.value, self.point = guard, value, point
    def cond(self, c): return Layer(lambda i, g=self.guard: band(c, g(i)), self.value, self.point)
    def mapped(self, f):
        return Layer(_mapfn(self.guard, f), _mapfn(self.value, f), None if self.point is None else f_any(self.point, f))
def _mapfn(g, f):
    # f is a substitution of loop counters; indices passed in are not affected by it
    def h(i):
        ph = fresh_ph(i)
        r = map_value(g(ph if not isinstance(i, tuple) else ph), f)
        pairs = list(zip(ph, i)) if isinstance(i, tuple) else [(ph, i)]
        return subst_any(r, pairs) if not isinstance(r, bool) else r
    return h
_phc = itertools.count()
def fresh_ph(i):
    if isinstance(i, tuple): return tuple(z3.Int("ph!%d" % next(_phc)) for _ in i)
    return z3.Int("ph!%d" % next(_phc))
def f_any(v, f):
    if isinstance(v, tuple): return tuple(map_value(x, f) for x in v)
    return map_value(v, f)
class SVec:
    """sequence of symbolic length: base reader and update layers.  Index is a term or, for
    multi-dimensional arrays (rank > 1), a tuple of terms."""
    def __init__(self, len_, get0, layers=(), base=None, rank=1, meta=None, lb=0, shape=None):
        self.len, self.get0, self.layers = len_, get0, tuple(layers)
        self.base = next(_sv) if base is None else base
        self.rank, self.meta = rank, meta
    def get(self, i):
        r = None
        for L in self.layers[::-1]:
            pass
        r = self.get0(i)
        for L in self.layers:
            g = L.guard(i)
            if g is False: continue
            r = merge_value(g, L.value(i), r)
        return r
    def with_layer(self, L, len_=None): return SVec(self.len if len_ is None else len_, self.get0, self.layers + (L,), self.base, self.rank, self.meta)
    def set(self, i, v):
        return self.with_layer(Layer(lambda j: idx_eq(j, i), lambda j: v, point=i))
    def map_terms(self, f):
        return SVec(f_any(self.len, f), _mapfn(self.get0, f), [L.mapped(f) for L in self.layers], None, self.rank, self.meta)
    def __repr__(self): return "SVec(len=%s, base=%s, %d layers)" % (self.len, self.base, len(self.layers))
def idx_eq(j, i):
    if isinstance(j, tuple): return band(*[eq(a, b) for a, b in zip(j, i)])
    return eq(j, i)
class CMap:
    """finite map from concrete keys to (present, value)"""
    def __init__(self, entries=None): self.entries = dict(entries or {})
    def keys(self): return sorted(self.entries)
    def with_(self, k, p, v):
        d = dict(self.entries); d[k] = (p, v)
        return CMap(d)
    def map_terms(self, f): return CMap({k: (map_value(p, f), map_value(v, f)) for k, (p, v) in self.entries.items()})
class SMap:
    """read-only map with a symbolic number of entries, enumerated in key order"""
    def __init__(self, n, key, val, tag=None): self.n, self.key, self.val, self.tag = n, key, val, tag
    def map_terms(self, f): return self
class Ptr:
    def __init__(self, path, off=0): self.path, self.off = path, off
    def map_terms(self, f): return Ptr(f_path(self.path, f), map_value(self.off, f))
    def __repr__(self): return "Ptr(%r,%s)" % (self.path, self.off)
NULL = Ptr(None, 0)
def f_path(p, f):
    if p is None: return None
    return tuple(tuple(map_value(x, f) if is_z(x) else x for x in a) if isinstance(a, tuple) else a for a in p)
class CondPtr:
    """pointer that is null or `ptr` depending on a condition"""
    def __init__(self, cond, a, b): self.cond, self.a, self.b = cond, a, b
    def map_terms(self, f): return CondPtr(map_value(self.cond, f), map_value(self.a, f), map_value(self.b, f))
class MapIter:
    def __init__(self, path, pos): self.path, self.pos = path, pos     # pos: index in keys() (CMap) or term (SMap)
    def map_terms(self, f): return MapIter(self.path, map_value(self.pos, f))
class VecIter:
    def __init__(self, path, pos): self.path, self.pos = path, pos
    def map_terms(self, f): return VecIter(f_path(self.path, f), map_value(self.pos, f))
class FuncPtr:
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def map_terms(self, f): return self
class Stream:
    """output stream: the sequence of things written so far"""
    def __init__(self, items=()): self.items = tuple(items)
    def put(self, *xs): return Stream(self.items + xs)
    def map_terms(self, f): return Stream([map_value(x, f) for x in self.items])
class Tok:
    """a formatted value in a stream"""
    def __init__(self, v, kind): self.v, self.kind = v, kind
    def map_terms(self, f): return Tok(map_value(self.v, f), self.kind)
    def __repr__(self): return "Tok(%s:%s)" % (self.v, self.kind)
class Rep:
    """a segment of a stream written by a loop: items(k) for k in 0..n-1"""
    def __init__(self, n, k, items): self.n, self.k, self.items = n, k, tuple(items)
    def map_terms(self, f): return Rep(map_value(self.n, f), self.k, [map_value(x, f) for x in self.items])
    def __repr__(self): return "Rep(%s; %s: %r)" % (self.n, self.k, self.items)
class Opt:
    """conditionally written segment"""
    def __init__(self, c, a, b): self.c, self.a, self.b = c, tuple(a), tuple(b)
    def map_terms(self, f): return Opt(map_value(self.c, f), [map_value(x, f) for x in self.a], [map_value(x, f) for x in self.b])
    def __repr__(self): return "Opt(%s; %r | %r)" % (self.c, self.a, self.b)
class CondStr:
    """one of two constant strings"""
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def map_terms(self, f): return CondStr(map_value(self.c, f), map_value(self.a, f), map_value(self.b, f))
    def item(self): return Opt(self.c, [x if isinstance(x, str) else x.item() for x in [self.a]], [x if isinstance(x, str) else x.item() for x in [self.b]])
class Opaque:
    def __init__(self, name): self.name = name
    def map_terms(self, f): return self
    def __repr__(self): return "Opaque(%s)" % self.name
UNDEF = Opaque("undefined")

def map_value(v, f):
    if is_z(v): return f(v)
    if hasattr(v, "map_terms"): return v.map_terms(f)
    if isinstance(v, tuple): return tuple(map_value(x, f) for x in v)
    return v

def merge_value(c, a, b):
    """if c then a else b, structurally"""
    if not is_z(c): return a if c else b
    if a is b: return a
    if (is_z(a) or isinstance(a, (int, Fraction))) and (is_z(b) or isinstance(b, (int, Fraction))): return ite(c, a, b)
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
        return Obj(a.cls, {k: merge_value(c, a.fields.get(k, UNDEF), b.fields.get(k, UNDEF)) for k in {**a.fields, **b.fields}})
    if isinstance(a, CVec) and isinstance(b, CVec) and a.len == b.len:
        return CVec([merge_value(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, SVec) and isinstance(b, SVec) and a.base == b.base and a.rank == b.rank:
        n = 0
        while n < len(a.layers) and n < len(b.layers) and a.layers[n] is b.layers[n]: n += 1
        lay = a.layers[:n] + tuple(L.cond(c) for L in a.layers[n:]) + tuple(L.cond(bnot(c)) for L in b.layers[n:])
        return SVec(f_merge(c, a.len, b.len), a.get0, lay, a.base, a.rank, a.meta)
    if isinstance(a, (SVec, CVec)) and isinstance(b, (SVec, CVec)):
        ra = getattr(a, "rank", 1)
        return SVec(f_merge(c, a.len, b.len), lambda i: merge_value(c, safe_get(a, i), safe_get(b, i)), (), None, ra)
    if isinstance(a, CMap) and isinstance(b, CMap):
        d = {}
        for k in {**a.entries, **b.entries}:
            pa, va = a.entries.get(k, (False, UNDEF)); pb, vb = b.entries.get(k, (False, UNDEF))
            d[k] = (ite(c, pa, pb), merge_value(c, va, vb))
        return CMap(d)
    if isinstance(a, (Ptr, CondPtr)) and isinstance(b, (Ptr, CondPtr)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.path == b.path: return Ptr(a.path, ite(c, a.off, b.off))
        return CondPtr(c, a, b)
    if isinstance(a, MapIter) and isinstance(b, MapIter) and a.path == b.path: return MapIter(a.path, ite(c, a.pos, b.pos))
    if isinstance(a, VecIter) and isinstance(b, VecIter) and a.path == b.path: return VecIter(a.path, ite(c, a.pos, b.pos))
    if isinstance(a, Stream) and isinstance(b, Stream):
        n = 0
        while n < len(a.items) and n < len(b.items) and a.items[n] is b.items[n]: n += 1
        if n == len(a.items) == len(b.items): return a
        return Stream(a.items[:n] + (Opt(c, a.items[n:], b.items[n:]),))
    if isinstance(a, str) and isinstance(b, str) and a == b: return a
    if isinstance(a, (str, CondStr)) and isinstance(b, (str, CondStr)): return CondStr(c, a, b)
    if isinstance(a, FuncPtr) and isinstance(b, FuncPtr) and a.name == b.name: return a
    if isinstance(a, SMap) and isinstance(b, SMap) and a.tag == b.tag: return a
    if type(a).__name__ == "LStr" and type(b) is type(a): return a.merge(c, b)
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name: return a
    if hasattr(a, "merge_with"): return a.merge_with(c, b)
    raise Unsupported("merge of %r and %r" % (type(a).__name__, type(b).__name__))
def f_merge(c, a, b):
    if isinstance(a, tuple): return tuple(ite(c, x, y) for x, y in zip(a, b))
    return ite(c, a, b)
def safe_get(v, i):
    if isinstance(v, CVec):
        i = unz(i)
        if isint(i) and not 0 <= i < v.len: return UNDEF
        if not v.items: return UNDEF
    return v.get(i)

# ----------------------------------------------------------------------------- quantified facts
class QFact:
    """for all params with guard: body.  Instantiated by matching applications of the trigger
    symbols (uninterpreted functions created together with the fact)."""
    def __init__(self, params, body, triggers, name=""):
        # triggers: list of application terms over params (each mentions all params)
        self.params, self.body, self.triggers, self.name = tuple(params), body, list(triggers), name
    def map_terms(self, f): return QFact(self.params, map_value(self.body, f), [f(t) for t in self.triggers], self.name)

_match_cache = {}
def match(pat, t, params, sub):
    """match the application pattern against a ground term"""
    for p in params:
        if pat.eq(p):
            for q, v in sub:
                if q.eq(p): return v.eq(t)
            if pat.sort() != t.sort(): return False
            sub.append((p, t)); return True
    if z3.is_app(pat) and z3.is_app(t) and pat.decl().eq(t.decl()):
        if pat.num_args() == 0: return True
        for a, b in zip(pat.children(), t.children()):
            if not match(a, b, params, sub): return False
        return True
    return pat.eq(t)

def apps(e, acc=None, seen=None):
    """all subterms that are applications of uninterpreted functions"""
    if acc is None: acc, seen = {}, set()
    stack = [e]
    while stack:
        x = stack.pop()
        if not is_z(x): continue
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.setdefault(x.decl().name(), []).append(x)
            stack.extend(x.children())
        elif z3.is_quantifier(x): pass
    return acc

_apps_cache = {}
def apps_of(e):
    """memoised: dict name -> applications in e"""
    k = e.get_id()
    h = _apps_cache.get(k)
    if h is None:
        h = (apps(e), e); _apps_cache[k] = h
    return h[0]

# ----------------------------------------------------------------------------- prover
class Prover:
    def __init__(self):
        self.time = 0.0; self.queries = 0; self.backends = {}
        self.unknown = 0
    def instances(self, formulas, qfacts, rounds=3):
        """ground instances of the quantified facts and of the division axioms"""
        done = set(); out = []; seen = set(); acc = {}
        new = list(formulas)
        keep = []
        for r in range(rounds):
            for f in new:
                for nm, ts in apps_of(f).items():
                    a = acc.setdefault(nm, [])
                    for t in ts:
                        if t.get_id() not in seen: seen.add(t.get_id()); a.append(t)
            new = []
            for nm in ("idiv", "imod"):
                for t in acc.get(nm, []):
                    a, b = t.arg(0), t.arg(1)
                    key = ("div", a.get_id(), b.get_id())
                    if key in done: continue
                    done.add(key); keep.append((a, b))
                    q, m = IDIV(a, b), IMOD(a, b)
                    new.append(z3.Implies(b > 0, z3.And(a == b * q + m, m >= 0, m < b, z3.Implies(a >= 0, q >= 0), z3.Implies(z3.And(a >= 0, a < b), q == 0))))
            for qi, q in enumerate(qfacts):
                for trig in q.triggers:
                    for t in list(acc.get(trig.decl().name(), [])):
                        s = []
                        if match(trig, t, q.params, s) and len(s) == len(q.params):
                            s.sort(key=lambda pv: str(pv[0]))
                            key = (qi,) + tuple(v.get_id() for _, v in s)
                            if key in done: continue
                            done.add(key); keep.append(s)
                            b = q.body
                            if not is_z(b): continue
                            new.append(z3.substitute(b, *s))
            out.extend(new)
            if not new: break
        return out
    def split(self, hyps):
        g, q = [], []
        for h in hyps:
            if isinstance(h, QFact): q.append(h)
            elif is_z(h): g.append(h)
            elif h is False: g.append(z3.BoolVal(False))
        return g, q
    def check(self, hyps, goal, timeout=4000, rounds=3, model=False, extra=()):
        """'proved', 'refuted' (with a model) or 'unknown'"""
        if goal is True: return "proved", None
        t0 = time.time()
        g, q = self.split(hyps)
        ng = z3.Not(Z(goal))
        base = g + [e for e in extra if is_z(e)] + [ng]
        full = base + self.instances(base, q, rounds)
        self.queries += 1
        res, m, be = self.solve(full, timeout)
        self.time += time.time() - t0
        if res == "unsat":
            self.backends[be] = self.backends.get(be, 0) + 1
            return "proved", be
        if res == "sat": return "refuted", m
        self.unknown += 1
        return "unknown", None
    def ground(self, hyps, goal, rounds=3):
        """the ground hypotheses and the instances of the quantified ones"""
        g, q = self.split(hyps); return g + [f for f in self.instances(g + [Z(goal)], q, rounds)]
    def solve(self, fs, timeout):
        s = z3.Solver()
        s.set("timeout", timeout); s.set("random_seed", 1)
        for f in fs: s.add(f)
        r = s.check()
        if r == z3.unsat: return "unsat", None, "z3"
        if r == z3.sat: return "sat", s.model(), "z3"
        if timeout <= 1500: return "unknown", None, None
        # second try: other arithmetic engine
        s2 = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
        s2.set("timeout", timeout); s2.set("smt.arith.solver", 2); s2.set("random_seed", 7)
        for f in fs: s2.add(f)
        try: r = s2.check()
        except z3.Z3Exception: r = z3.unknown
        if r == z3.unsat: return "unsat", None, "z3(arith.solver=2)"
        if r == z3.sat: return "sat", s2.model(), "z3"
        return self.cvc5(s, timeout)
    def cvc5(self, s, timeout):
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt); nm = f.name
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, nm], capture_output=True, text=True, timeout=timeout / 1000 + 5)
            if p.stdout.strip().startswith("unsat"): return "unsat", None, "cvc5"
        except Exception: pass
        finally: os.unlink(nm)
        return "unknown", None, None

# ----------------------------------------------------------------------------- obligations, engine
class Obligation:
    def __init__(self, fn, name, kind, hyps, goal, loc=None):
        self.fn, self.name, self.kind, self.hyps, self.goal, self.loc = fn, name, kind, list(hyps), goal, loc
        self.status = None; self.backend = None; self.model = None

class Engine:
    """verification context of one function body"""
    def __init__(self, fn=""):
        self.fn = fn; self.prover = Prover()
        self.obls = []; self.record = 1
        self.ctx = []                     # enclosing loop counters (symbolic execution inside loop bodies)
        self.names = itertools.count()
        self.inlined = set(); self.called = set(); self.loops = []
        self.cache = {}
        self.parallel = []               # stack of enclosing parallel constructs
        self.notes = []
        self.trace = []
    # fresh symbols depend on the enclosing loop counters
    def fresh(self, name, sort=INT):
        nm = "%s!%d" % (name, next(self.names))
        if not self.ctx: return z3.Const(nm, sort)
        return z3.Function(nm, *([INT] * len(self.ctx) + [sort]))(*self.ctx)
    def fresh_fn(self, name, nargs, sort):
        """fresh uninterpreted function of nargs ints (besides the enclosing loop counters)"""
        nm = "%s!%d" % (name, next(self.names)); c = list(self.ctx)
        f = z3.Function(nm, *([INT] * (len(c) + nargs) + [sort]))
        return lambda *a: f(*(c + [Z(x) for x in a]))
    def oblige(self, st, name, kind, goal, loc=None):
        if goal is True: goal = z3.BoolVal(True)
        if not self.record: return
        if goal is False: goal = z3.BoolVal(False)
        key = (name, kind, goal.get_id(), len(st.hyps))
        self.obls.append(Obligation(self.fn, name, kind, st.hyps, goal, loc))
    def entails(self, st, goal, timeout=1000):
        goal = unz(goal)
        if goal is True: return True
        if goal is False:
            return False
        s = z3.simplify(goal)
        if z3.is_true(s): return True
        key = (goal.get_id(), tuple(h.get_id() if is_z(h) else id(h) for h in st.hyps))
        hit = self.cache.get(key)
        if hit is not None and (hit[0] or hit[3] >= timeout): return hit[0]
        r = self.prover.check(st.hyps, goal, timeout)[0] == "proved"
        self.cache[key] = (r, goal, list(st.hyps), timeout)
        return r
    def decide(self, st, c, timeout=1000):
        """python bool if the condition is determined in this state"""
        c = unz(c)
        if not is_z(c): return c
        s = unz(z3.simplify(c))
        if not is_z(s): return s
        if self.entails(st, c, timeout): return True
        if self.entails(st, bnot(c), timeout): return False
        return None

class State:
    def __init__(self, vars=None, hyps=None): self.vars = dict(vars or {}); self.hyps = list(hyps or [])
    def copy(self): return State(self.vars, self.hyps)
    def assume(self, f):
        if isinstance(f, QFact): self.hyps.append(f); return
        f = unz(f)
        if f is True: return
        self.hyps.append(Z(f))
    # paths: ('root', ('f', field), ('i', index), ('k', key) ...)
    def read(self, path):
        v = self.vars.get(path[0])
        if v is None and path[0] not in self.vars: raise Unsupported("unknown variable %r" % (path[0],))
        for a in path[1:]: v = acc_get(v, a)
        return v
    def write(self, path, val): self.vars[path[0]] = acc_set(self.vars.get(path[0], UNDEF), path[1:], val)

def acc_get(v, a):
    if a[0] == "f":
        if not isinstance(v, Obj): raise Unsupported("field %s of %r" % (a[1], type(v).__name__))
        if a[1] not in v.fields: raise Unsupported("no field %s in %s" % (a[1], v.cls))
        return v.fields[a[1]]
    if a[0] == "i":
        if not isinstance(v, (CVec, SVec)): raise Unsupported("index into %r" % type(v).__name__)
        return v.get(a[1])
    if a[0] == "k": return v.entries[a[1]][1]
    raise Unsupported("accessor")
def acc_set(v, accs, val):
    if not accs: return val
    a = accs[0]
    if a[0] == "f":
        if not isinstance(v, Obj): raise Unsupported("field write on %r" % type(v).__name__)
        return v.with_(a[1], acc_set(v.fields.get(a[1], UNDEF), accs[1:], val))
    if a[0] == "i":
        if not isinstance(v, (CVec, SVec)): raise Unsupported("indexed write on %r" % type(v).__name__)
        inner = val if len(accs) == 1 else acc_set(v.get(a[1]), accs[1:], val)
        return v.set(a[1], inner)
    if a[0] == "k":
        p, x = v.entries[a[1]]
        return v.with_(a[1], p, acc_set(x, accs[1:], val))
    raise Unsupported("accessor")

def merge_states(c, a, b):
    """state that is a if c, b otherwise"""
    n = 0
    while n < len(a.hyps) and n < len(b.hyps) and a.hyps[n] is b.hyps[n]: n += 1
    hy = list(a.hyps[:n])
    for h in a.hyps[n:]: hy.append(guard_fact(c, h))
    nc = bnot(c)
    for h in b.hyps[n:]: hy.append(guard_fact(nc, h))
    hy = [h for h in hy if h is not None]
    out = State({}, hy)
    for k in a.vars:
        if k not in b.vars: continue
        x, y = a.vars[k], b.vars[k]
        out.vars[k] = x if x is y else merge_value(c, x, y)
    # heap objects created in one branch only are kept
    for s in (a, b):
        for k, v in s.vars.items():
            if k not in out.vars and isinstance(k, str) and k.startswith("heap"): out.vars[k] = v
    return out
def guard_fact(c, h):
    if isinstance(h, QFact): return QFact(h.params, implies(c, h.body), h.triggers, h.name)
    if h.eq(Z(c)): return None
    r = implies(c, h)
    return None if r is True else r
