"""Python front end: symbolic execution of the repository's own Python source (CPython's ast) over numpy arrays.
Integers are unbounded, floats exact reals; arrays, lists and objects live in heap roots and are handled by reference,
slices and reshapes are views.  Anything outside the subset raises Unsupported (the unit is then undecided)."""
import ast, itertools, os, re
from fractions import Fraction
from .core import *
from .loops import run_loop, Outcome, mkfn, LoopRec, tup
from . import cppfe
from .cppfe import SQRT, SIN, COS

_roots = itertools.count()
class Handle:
    def map_terms(self, f): return self
    def merge_with(self, c, b):
        if self.same_as(b): return self
        raise Unsupported("reference that depends on a condition")
    def same_as(self, b): return self is b
class Arr(Handle):
    """(view of) a numpy array: element idx is element imap(idx) of the heap array `root`; inv is the inverse on the base"""
    def __init__(self, root, shape, dt, imap=None, inv=None, key="", flat=None, point=None, ro=False):
        self.root, self.shape, self.dt, self.imap, self.inv, self.key, self.flat, self.point, self.ro = root, tuple(shape), dt, imap, inv, key, flat, point, ro
    def same_as(self, b): return isinstance(b, Arr) and self.root == b.root and self.key == b.key
    @property
    def rank(self): return len(self.shape)
    def map_terms(self, f):
        return Arr(self.root, tuple(map_value(x, f) for x in self.shape), self.dt, self.imap, self.inv, self.key, self.flat, self.point, self.ro) if not self.key else self
class PList(Handle):
    def __init__(self, root): self.root = root
    def same_as(self, b): return isinstance(b, PList) and self.root == b.root
class Inst(Handle):
    def __init__(self, root, cls): self.root, self.cls = root, cls
    def same_as(self, b): return isinstance(b, Inst) and self.root == b.root
class File(Handle):
    def __init__(self, root): self.root = root
    def same_as(self, b): return isinstance(b, File) and self.root == b.root
class PTuple:
    def __init__(self, items): self.items = tuple(items)
    def map_terms(self, f): return PTuple([map_value(x, f) for x in self.items])
    def same_as(self, b): return isinstance(b, PTuple) and len(self.items) == len(b.items) and all(eqv(x, y) for x, y in zip(self.items, b.items))
    def merge_with(self, c, b):
        if isinstance(b, PTuple) and len(b.items) == len(self.items): return PTuple([merge_value(c, x, y) for x, y in zip(self.items, b.items)])
        raise Unsupported("merge of tuples")
class PStr:
    """text with formatted values"""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
            elif p != "": out.append(p)
        self.parts = tuple(out)
    def map_terms(self, f): return PStr([map_value(x, f) for x in self.parts])
    def merge_with(self, c, b): return PStr([Opt(c, self.parts, text(b).parts)])
    def plain(self): return self.parts[0] if len(self.parts) == 1 and isinstance(self.parts[0], str) else "" if not self.parts else None
class Range:
    def __init__(self, a, b, s): self.a, self.b, self.s = a, b, s
    def map_terms(self, f): return Range(map_value(self.a, f), map_value(self.b, f), self.s)
class Slice:
    def __init__(self, a, b, s): self.a, self.b, self.s = a, b, s
class ModAttr(Handle):
    """something of an imported module, by its qualified name"""
    def __init__(self, name): self.name = name
    def same_as(self, b): return isinstance(b, ModAttr) and self.name == b.name
    def __repr__(self): return "ModAttr(%s)" % self.name
class Func(Handle):
    def __init__(self, node, mod, closure=None, self_=None, cls=None): self.node, self.mod, self.closure, self.self_, self.cls = node, mod, closure, self_, cls
class Cls(Handle):
    def __init__(self, node, mod): self.node, self.mod = node, mod
    @property
    def name(self): return self.node.name
    def methods(self): return {x.name: x for x in self.node.body if isinstance(x, ast.FunctionDef)}
class Bound(Handle):
    def __init__(self, obj, name): self.obj, self.name = obj, name
class NoneType(Handle):
    def __repr__(self): return "None"
NONE = NoneType()
class Inf(Handle):
    def __init__(self, sign=1): self.sign = sign
    def same_as(self, b): return isinstance(b, Inf) and self.sign == b.sign
ELLIPSIS = object(); NEWAXIS = NONE
def eqv(a, b):
    if a is b: return True
    if scal(a) and scal(b): return same(unz(a), unz(b))
    if hasattr(a, "same_as"): return a.same_as(b)
    if isinstance(a, str): return a == b
    return False
def scal(v): return is_z(v) or isinstance(v, (bool, int, Fraction))
def isreal(v): return isinstance(v, Fraction) or is_z(v) and v.sort() == REAL
def isbool(v): return isinstance(v, bool) or is_z(v) and v.sort() == BOOL
def text(v):
    if isinstance(v, PStr): return v
    if isinstance(v, str): return PStr([v])
    if isinstance(v, CondStr): return PStr([v.item()])
    raise Unsupported("string expected, got %s" % type(v).__name__)
def dt_of(v): return "b" if isbool(v) else "f" if isreal(v) else "i"
def num(v):
    if isinstance(v, bool): return int(v)
    if is_z(v) and v.sort() == BOOL: return ite(v, 1, 0)
    return v
def conv(dt, v):
    if v is UNDEF: return v
    if not scal(v): raise Unsupported("array element of kind %s" % type(v).__name__)
    if dt == "f": return R(num(v))
    if dt == "i":
        v = num(v)
        if isinstance(v, Fraction):
            if v.denominator == 1: return int(v)
            raise Unsupported("real value stored in an integer array")
        if is_z(v) and v.sort() == REAL:
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL: return v.arg(0)
            raise Unsupported("real value stored in an integer array")
        return v
    if dt == "b": return v if isbool(v) else ne(v, 0)
    return v
def one(t): return t[0] if len(t) == 1 else tuple(t)
def prodl(xs):
    r = 1
    for x in xs: r = mul(r, x)
    return r
def unflat(k, shape):
    """indices of position k in C order"""
    out = []; q = k
    for j in range(len(shape) - 1, 0, -1): out.append(fmod(q, shape[j])); q = fdiv(q, shape[j])
    out.append(q); return tuple(reversed(out))
def toflat(idx, shape):
    r = idx[0]
    for j in range(1, len(shape)): r = add(mul(r, shape[j]), idx[j])
    return r

class PyModule:
    def __init__(self, path):
        self.path = path; self.name = os.path.splitext(os.path.basename(path))[0]
        with open(path) as f: self.tree = ast.parse(f.read())
        self.names = {}
        for s in self.tree.body: self.bind(s)
        self.cache = {}
    def bind(self, s):
        if isinstance(s, ast.Import):
            for a in s.names: self.names[(a.asname or a.name).split(".")[0] if not a.asname else a.asname] = ("import", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            for a in s.names: self.names[a.asname or a.name] = ("import", "%s.%s" % (s.module, a.name))
        elif isinstance(s, ast.FunctionDef): self.names[s.name] = ("func", s)
        elif isinstance(s, ast.ClassDef): self.names[s.name] = ("class", s)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name): self.names[t.id] = ("expr", s.value)
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name): self.names[s.target.id] = ("expr", s.value)
        elif isinstance(s, ast.Try):
            for q in s.body: self.bind(q)
    def cls(self, *want):
        """the class with the given methods"""
        for s in self.tree.body:
            if isinstance(s, ast.ClassDef) and set(want) <= {m.name for m in s.body if isinstance(m, ast.FunctionDef)}: return Cls(s, self)
        raise Unsupported("no class with methods %s" % (want,))
    def func(self, name):
        e = self.names.get(name)
        if not e or e[0] != "func": raise Unsupported("function %s not found" % name)
        return Func(e[1], self)
class PFrame:
    def __init__(self, prefix, mod, parent=None, cls=None): self.prefix, self.mod, self.parent, self.cls = prefix, mod, parent, cls

def el2(op):
    def f(self, st, a, kw):
        r = self.binop(st, op, a[0], a[1])
        if "out" in kw or len(a) > 2: o = kw.get("out", a[2] if len(a) > 2 else None); self.write_all(st, o, r); return o
        if kw: raise Unsupported("keyword of a ufunc")
        return r
    return f

class PInterp:
    def __init__(self, eng, mod, path=(), contracts=None):
        """path: directories searched for the repository's own modules; contracts: name -> function(interp, st, args, kw)"""
        self.eng, self.mod, self.path, self.contracts = eng, mod, list(path), dict(contracts or {})
        self.frames = []; self.mods = {mod.name: mod}; self.files = []; self.printing = False; self.objmodels = {}
    # ------------------------------------------------------------------ plumbing
    def uns(self, what): raise Unsupported(what)
    @property
    def fname(self): return self.frames[-1].prefix.split("@")[0] if self.frames else "?"
    def bound(self, st, what, cond): self.eng.oblige(st, "%s: %s" % (self.fname, what), "bounds", cond)
    def fresh_root(self, kind): return "%s#%d" % (kind, next(_roots))
    branch = cppfe.Interp.branch
    def exec_block(self, st, body):
        cur = st; exits = []
        for s in body:
            o = self.exec(cur, s); exits += o.exits
            if o.normal is None: return Outcome(None, exits)
            cur = o.normal
        return Outcome(cur, exits)
    def exec(self, st, s):
        f = getattr(self, "s_" + type(s).__name__, None)
        if f is None: raise Unsupported("statement %s" % type(s).__name__)
        return f(st, s)
    # ------------------------------------------------------------------ heap
    def alloc(self, st, shape, dt, get):
        shape = tuple(unz(z3.simplify(x)) if is_z(x) else x for x in shape)
        root = self.fresh_root("nd")
        if len(shape) == 1 and isint(shape[0]) and shape[0] <= 64: st.vars[root] = CVec([conv(dt, get((k,))) for k in range(shape[0])])
        elif len(shape) == 0: st.vars[root] = CVec([conv(dt, get(()))])
        else: st.vars[root] = SVec(one(shape), lambda i: conv(dt, get(tup(i))), (), None, len(shape))
        return self.whole(root, shape, dt)
    def whole(self, root, shape, dt): return Arr(root, shape, dt)
    def getter(self, st, a):
        """element function of the array's present contents"""
        v = st.read((a.root,)); m = a.imap or (lambda i: i)
        if a.rank == 0: return lambda i: v.items[0]
        def get(i):
            b = m(tuple(i))
            return v.get(b[0] if len(b) == 1 else b)
        return get
    def elem(self, st, x):
        """(shape, dtype, element function) of an operand"""
        if isinstance(x, Arr): return x.shape, x.dt, self.getter(st, x)
        if isinstance(x, (PList, PTuple)): return self.elem(st, self.asarray(st, x))
        if isinstance(x, Range): return self.elem(st, self.asarray(st, x))
        if scal(x): return (), dt_of(x), lambda i: x
        raise Unsupported("operand of kind %s" % type(x).__name__)
    def items(self, st, x):
        """the elements of a sequence of known length, or None"""
        if isinstance(x, PTuple): return list(x.items)
        if isinstance(x, PList):
            v = st.read((x.root,)); return list(v.items) if isinstance(v, CVec) else None
        if isinstance(x, Range):
            if isint(x.a) and isint(x.b): return list(range(x.a, x.b, x.s))
            return None
        if isinstance(x, Arr):
            if x.rank >= 1 and isint(x.shape[0]) and x.shape[0] <= 64:
                if x.rank == 1: g = self.getter(st, x); return [g((k,)) for k in range(x.shape[0])]
                return [self.index(st, x, [k]) for k in range(x.shape[0])]
            return None
        if isinstance(x, str): return list(x)
        return None
    def asarray(self, st, x, dt=None):
        if isinstance(x, Arr): return x
        it = self.items(st, x)
        if it is not None:
            if it and isinstance(it[0], (PList, PTuple, Arr)):
                subs = [self.elem(st, y) for y in it]
                if any(len(s[0]) != len(subs[0][0]) or not all(same(p, q) for p, q in zip(s[0], subs[0][0])) for s in subs): raise Unsupported("ragged array")
                d = dt or ("f" if any(s[1] == "f" for s in subs) else subs[0][1])
                def get(i):
                    if isint(i[0]): return conv(d, subs[i[0]][2](i[1:]))
                    r = conv(d, subs[-1][2](i[1:]))
                    for q in range(len(subs) - 2, -1, -1): r = ite(eq(i[0], q), conv(d, subs[q][2](i[1:])), r)
                    return r
                return self.alloc(st, (len(it),) + tuple(subs[0][0]), d, get)
            d = dt or ("f" if any(isreal(y) for y in it) or not it else "b" if all(isbool(y) for y in it) else "i")
            root = self.fresh_root("nd"); st.vars[root] = CVec([conv(d, y) for y in it]); return self.whole(root, (len(it),), d)
        if isinstance(x, PList):
            v = st.read((x.root,)); s = v.get(z3.Int("ph!s")); d = dt or dt_of(s)
            return self.alloc(st, (v.len,), d, lambda i: v.get(i[0]))
        if isinstance(x, Range): return self.alloc(st, (self.range_len(st, x),), dt or "i", lambda i: add(x.a, mul(x.s, i[0])))
        if scal(x): return self.alloc(st, (), dt or dt_of(x), lambda i: x)
        raise Unsupported("array from %s" % type(x).__name__)
    def newlist(self, st, items):
        root = self.fresh_root("list"); st.vars[root] = CVec(items) if isinstance(items, (list, tuple)) else items; return PList(root)
    def range_len(self, st, r):
        d = sub(r.b, r.a) if r.s > 0 else sub(r.a, r.b); s = abs(r.s)
        n = d if s == 1 else fdiv(add(d, s - 1), s)
        n = unz(z3.simplify(n)) if is_z(n) else n
        if isint(n): return max(n, 0)
        return n if self.eng.entails(st, ge(n, 0), 1000) else ite(ge(n, 0), n, 0)
    def length(self, st, x):
        if isinstance(x, Arr):
            if not x.shape: raise Unsupported("len() of a scalar")
            return x.shape[0]
        if isinstance(x, PList): return st.read((x.root,)).len
        if isinstance(x, PTuple): return len(x.items)
        if isinstance(x, Range): return self.range_len(st, x)
        if isinstance(x, str): return len(x)
        raise Unsupported("len() of %s" % type(x).__name__)
    # ------------------------------------------------------------------ names
    def lookup(self, st, name):
        f = self.frames[-1]
        while f is not None:
            k = f.prefix + name
            if k in st.vars:
                v = st.vars[k]
                if v is UNDEF: raise Unsupported("%s may be undefined" % name)
                return v
            f = f.parent
        mod = self.frames[-1].mod
        e = mod.names.get(name)
        if e is not None: return self.modname(st, mod, name, e)
        if name in BUILTINS: return ModAttr("builtins." + name)
        if name == "__name__": return mod.name
        raise Unsupported("name %s" % name)
    def modname(self, st, mod, name, e):
        if e[0] == "func": return Func(e[1], mod)
        if e[0] == "class": return Cls(e[1], mod)
        if e[0] == "expr":
            r = "g@%s." % mod.name
            if r + name not in st.vars:
                self.frames.append(PFrame(r, mod))
                try: st.vars[r + name] = self.eval(st, e[1])
                finally: self.frames.pop()
            return st.vars[r + name]
        return self.imported(e[1])
    def imported(self, q):
        top = q.split(".")[0]
        for d in self.path:
            p = os.path.join(d, top + ".py")
            if os.path.exists(p):
                if top not in self.mods: self.mods[top] = PyModule(p)
                m = self.mods[top]; rest = q.split(".")[1:]
                if not rest: return ModAttr("@" + top)
                return ("modname", m, rest[0])
        return ModAttr(q)
    def resolve(self, st, v):
        if isinstance(v, tuple) and v and v[0] == "modname":
            m, n = v[1], v[2]
            if n not in m.names: raise Unsupported("%s.%s" % (m.name, n))
            return self.resolve(st, self.modname(st, m, n, m.names[n]))
        return v
    def setname(self, st, name, v):
        st.vars[self.frames[-1].prefix + name] = v
    # ------------------------------------------------------------------ statements
    def s_Pass(self, st, s): return Outcome(st)
    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass
    def s_Import(self, st, s):
        for a in s.names: self.setname(st, a.asname or a.name.split(".")[0], self.resolve(st, self.imported(a.name if a.asname else a.name.split(".")[0])))
        return Outcome(st)
    def s_ImportFrom(self, st, s):
        for a in s.names: self.setname(st, a.asname or a.name, self.resolve(st, self.imported("%s.%s" % (s.module, a.name))))
        return Outcome(st)
    def s_Global(self, st, s): raise Unsupported("global statement")
    s_Nonlocal = s_Global
    def s_Expr(self, st, s):
        if isinstance(s.value, ast.Constant): return Outcome(st)
        v = self.eval(st, s.value)
        if isinstance(v, str) and v == "@raise": return Outcome(None, [("raise", True, st, None)])
        return Outcome(st)
    def s_FunctionDef(self, st, s): self.setname(st, s.name, Func(s, self.frames[-1].mod, self.frames[-1])); return Outcome(st)
    def s_Return(self, st, s):
        v = NONE if s.value is None else self.eval(st, s.value)
        if isinstance(v, str) and v == "@raise": return Outcome(None, [("raise", True, st, None)])
        return Outcome(None, [("return", True, st, v)])
    def s_Break(self, st, s): return Outcome(None, [("break", True, st, None)])
    def s_Continue(self, st, s): return Outcome(None, [("continue", True, st, None)])
    def s_Raise(self, st, s): return Outcome(None, [("raise", True, st, None)])
    def s_Assert(self, st, s):
        c = self.truth(st, self.eval(st, s.test)); self.bound(st, "assertion holds", c); st.assume(c); return Outcome(st)
    def s_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Name): st.vars.pop(self.frames[-1].prefix + t.id, None)
            else: raise Unsupported("del")
        return Outcome(st)
    def s_If(self, st, s):
        c = self.truth(st, self.eval(st, s.test))
        return self.branch(st, c, lambda x: self.exec_block(x, s.body), lambda x: self.exec_block(x, s.orelse))
    def s_Assign(self, st, s):
        v = self.eval(st, s.value)
        for t in s.targets: self.assign(st, t, v)
        return Outcome(st)
    def s_AnnAssign(self, st, s):
        if s.value is not None: self.assign(st, s.target, self.eval(st, s.value))
        return Outcome(st)
    def s_AugAssign(self, st, s):
        t = s.target
        if isinstance(t, ast.Name): cur = self.lookup(st, t.id); put = lambda v: self.setname(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(st, t.value); cur = self.getattr(st, o, t.attr); put = lambda v: self.setattr(st, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(st, t.value); ix = self.indices(st, t.slice); cur = self.getitem(st, o, ix)
            put = lambda v: self.setitem(st, o, ix, v)
        else: raise Unsupported("augmented assignment")
        rhs = self.eval(st, s.value)
        if isinstance(cur, Arr):                      # in place
            v = self.binop(st, type(s.op).__name__, cur, rhs)
            if isinstance(t, ast.Subscript) and not isinstance(self.getitem(st, o, ix), Arr): put(v)
            elif cur.key == "fancy": put(v)
            else: self.write_all(st, cur, v)
            return Outcome(st)
        if isinstance(cur, PList) and isinstance(s.op, ast.Add):
            self.m_list(st, cur, "extend", [rhs], {}); return Outcome(st)
        put(self.binop(st, type(s.op).__name__, cur, rhs)); return Outcome(st)
    def assign(self, st, t, v):
        if isinstance(t, ast.Name): self.setname(st, t.id, v)
        elif isinstance(t, ast.Attribute): self.setattr(st, self.eval(st, t.value), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(st, self.eval(st, t.value), self.indices(st, t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.items(st, v)
            if it is None or len(it) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts): raise Unsupported("unpacking")
            for x, y in zip(t.elts, it): self.assign(st, x, y)
        else: raise Unsupported("assignment target")
    def s_With(self, st, s):
        fs = []
        for it in s.items:
            v = self.eval(st, it.context_expr)
            if not isinstance(v, File): raise Unsupported("with")
            fs.append(v)
            if it.optional_vars is not None: self.assign(st, it.optional_vars, v)
        o = self.exec_block(st, s.body)
        for q in ([o.normal] if o.normal is not None else []) + [e[2] for e in o.exits]:
            for f in fs: q.vars[f.root] = q.vars[f.root].put(("close",))
        return o
    def iterate(self, st, it, bind, body, what):
        """for-loop over a value: bind(state, element) then body"""
        xs = self.items(st, it) if not isinstance(it, (Range, Zip)) else None
        if isinstance(it, Range) and isint(it.a) and isint(it.b): xs = list(range(it.a, it.b, it.s))
        if isinstance(it, Zip): n, el = it.n, it.get
        elif xs is not None: n, el = len(xs), None
        elif isinstance(it, Range): n, el = self.range_len(st, it), lambda s, k: add(it.a, mul(it.s, k))
        elif isinstance(it, Arr) and it.rank == 1: n, el = it.shape[0], lambda s, k: self.getter(s, it)((k,))
        elif isinstance(it, PList): n, el = st.read((it.root,)).len, lambda s, k: s.read((it.root,)).get(k)
        else: raise Unsupported("iteration over %s" % type(it).__name__)
        if xs is not None:
            el = lambda s, k: xs[k]
        root = "it#%d" % next(self.eng.names); st.vars[root] = 0
        def bf(s):
            bind(s, el(s, s.vars[root]))
            o = body(s); acc = o.normal; rest = []
            for e in reversed(o.exits):
                if e[0] == "continue": acc = e[2] if acc is None or e[1] is True else merge_states(e[1], e[2], acc)
                else: rest.append(e)
            if acc is not None: acc.vars[root] = add(acc.vars[root], 1)
            return Outcome(acc, list(reversed(rest)))
        return run_loop(self.eng, st, lambda s: lt(s.vars[root], n), bf, "loop in %s" % what)
    def s_For(self, st, s):
        if s.orelse: raise Unsupported("for-else")
        it = self.eval(st, s.iter)
        return self.iterate(st, it, lambda q, v: self.assign(q, s.target, v), lambda q: self.exec_block(q, s.body), self.fname)
    def s_While(self, st, s):
        if s.orelse: raise Unsupported("while-else")
        def bf(q):
            o = self.exec_block(q, s.body); acc = o.normal; rest = []
            for e in reversed(o.exits):
                if e[0] == "continue": acc = e[2] if acc is None or e[1] is True else merge_states(e[1], e[2], acc)
                else: rest.append(e)
            return Outcome(acc, list(reversed(rest)))
        return run_loop(self.eng, st, lambda q: self.truth(q, self.eval(q, s.test)), bf, "loop in %s" % self.fname)
    # ------------------------------------------------------------------ expressions
    def eval(self, st, e):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None: raise Unsupported("expression %s" % type(e).__name__)
        return self.resolve(st, f(st, e))
    def e_Constant(self, st, e):
        v = e.value
        if v is None: return NONE
        if v is Ellipsis: return ELLIPSIS
        if isinstance(v, (bool, int, str)): return v
        if isinstance(v, float): return Fraction(repr(v)) if v == v and abs(v) != float("inf") else Inf(1 if v > 0 else -1)
        raise Unsupported("constant")
    def e_Name(self, st, e): return self.lookup(st, e.id)
    def e_List(self, st, e): return self.newlist(st, self.elts(st, e.elts))
    def e_Tuple(self, st, e): return PTuple(self.elts(st, e.elts))
    def elts(self, st, xs):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                it = self.items(st, self.eval(st, x.value))
                if it is None: raise Unsupported("starred sequence of unknown length")
                out += it
            else: out.append(self.eval(st, x))
        return out
    def e_IfExp(self, st, e):
        c = self.truth(st, self.eval(st, e.test))
        d = self.eng.decide(st, c, 500) if is_z(c) else c
        if d is True: return self.eval(st, e.body)
        if d is False: return self.eval(st, e.orelse)
        sa = st.copy(); sa.assume(c); a = self.eval(sa, e.body)
        sb = st.copy(); sb.assume(bnot(c)); b = self.eval(sb, e.orelse)
        m = merge_states(c, sa, sb); st.vars, st.hyps = m.vars, m.hyps
        return merge_value(c, a, b)
    def e_Lambda(self, st, e): return Func(e, self.frames[-1].mod, self.frames[-1])
    def e_JoinedStr(self, st, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                x = self.eval(st, v.value); spec = ""
                if v.format_spec is not None:
                    sp = self.eval(st, v.format_spec); spec = text(sp).plain()
                    if spec is None: raise Unsupported("computed format")
                parts += self.fmt(st, x, spec, v.conversion)
        return self.mkstr(parts)
    def mkstr(self, parts):
        p = PStr(parts); s = p.plain()
        return s if s is not None else p
    def quality(self, st, ok, what):
        if not self.printing: self.eng.oblige(st, "%s: %s" % (self.fname, what), "post", ok)
    def fmt(self, st, x, spec, conversion=-1):
        """pieces a value is formatted as"""
        if isinstance(x, (str, PStr, CondStr)):
            if spec and not re.fullmatch(r"[<>^]?\d*s?", spec): raise Unsupported("format %s" % spec)
            return list(text(x).parts)
        if isinstance(x, Opaque): return [Tok(x, "str")]
        if not scal(x):
            if self.printing: return [Tok(Opaque("printed"), "str")]
            raise Unsupported("%s written as text" % type(x).__name__)
        if isbool(x): return [Tok(x, "str")]
        m = re.fullmatch(r"([<>^=]?)([-+ ]?)(0?)(\d*)(?:\.(\d+))?([a-zA-Z]?)", spec)
        if not m: raise Unsupported("format %s" % spec)
        w, d, k, left = int(m.group(4) or 0), m.group(5), m.group(6), m.group(1) == "<"
        if m.group(3) or m.group(1) in ("^", "="): w = 0
        if conversion == 114 and not self.printing: raise Unsupported("repr of a number")
        def padded(t, most=None, fits=None):
            """a field of at least w columns around text t: a blank when the text is shorter"""
            if not w: pad = []
            elif most is not None: pad = [" "] if w > most else []
            else: pad = [Opt(fits, (" ",), ())] if is_z(fits) else [" "] if fits else []
            return [t] + pad if left else pad + [t]
        if not isreal(x):
            if k in ("e", "f", "g", "E", "G", "F"): x = R(x)
            elif k not in ("", "d", "i", "n", "u"): raise Unsupported("format %s" % spec)
            else: return padded(Tok(x, "int"), None, unz(band(lt(x, 10 ** (w - 1)), gt(x, -(10 ** max(w - 2, 0))))) if w > 1 else False)
        if k in ("d", "i"): raise Unsupported("real value formatted as an integer")
        dd = int(d) if d is not None else (None if k == "" else 6)
        sgn = 1 if m.group(2) in ("", "-") else 1
        if k in ("e", "E"): self.quality(st, dd >= 5, "at least six significant digits are written"); most = sgn + 2 + dd + 5
        elif k in ("g", "G", "") and dd is not None: self.quality(st, dd >= 6, "at least six significant digits are written"); most = sgn + 1 + dd + 5
        elif k in ("f", "F"): self.quality(st, False, "a fixed number of decimals keeps the significant digits of every value"); most = 10 ** 9
        elif k in ("", "s", "r"): most = 24
        else: raise Unsupported("format %s" % spec)
        return padded(Tok(x, "real"), most)
    def e_FormattedValue(self, st, e): return self.mkstr(self.fmt(st, self.eval(st, e.value), "", e.conversion))
    def e_BoolOp(self, st, e):
        isand = isinstance(e.op, ast.And); v = self.eval(st, e.values[0])
        for x in e.values[1:]:
            c = self.truth(st, v)
            d = self.eng.decide(st, c, 300) if is_z(c) else c
            if d is True or d is False:
                if d != isand: return v
                v = self.eval(st, x); continue
            s2 = st.copy(); s2.assume(c if isand else bnot(c)); w = self.truth(s2, self.eval(s2, x))
            v = band(c, w) if isand else bor(c, w)
        return v
    def e_UnaryOp(self, st, e):
        v = self.eval(st, e.operand)
        if isinstance(e.op, ast.Not): return bnot(self.truth(st, v))
        if isinstance(v, Inf): return Inf(-v.sign) if isinstance(e.op, ast.USub) else v
        f = {ast.USub: lambda x: neg(num(x)), ast.UAdd: lambda x: num(x), ast.Invert: lambda x: bnot(x) if isbool(x) else sub(-1, x)}[type(e.op)]
        return self.map(st, f, v)
    def map(self, st, f, *xs, dt=None):
        """elementwise with broadcasting"""
        if all(scal(x) for x in xs): return f(*xs)
        els = [self.elem(st, x) for x in xs]
        rank = max(len(s) for s, _, _ in els)
        if rank == 0: return f(*[g(()) for _, _, g in els])
        shape = [1] * rank
        for s, _, _ in els:
            for j, n in enumerate(s):
                q = rank - len(s) + j
                if isint(n) and n == 1: continue
                if isint(shape[q]) and shape[q] == 1: shape[q] = n
                elif not same(shape[q], n) and not self.eng.entails(st, eq(shape[q], n), 1000): self.bound(st, "shapes of the operands agree", eq(shape[q], n))
        def pick(i, s): return tuple(0 if isint(n) and n == 1 else i[rank - len(s) + j] for j, n in enumerate(s))
        get = lambda i: f(*[g(pick(i, s)) for s, _, g in els])
        samp = get(tuple(z3.Int("ph!b%d" % j) if not isint(shape[j]) else 0 for j in range(rank))) if all(not isint(n) or n > 0 for n in shape) else Fraction(0)
        return self.alloc(st, shape, dt or (dt_of(samp) if scal(samp) else "f"), get)
    def e_BinOp(self, st, e): return self.binop(st, type(e.op).__name__, self.eval(st, e.left), self.eval(st, e.right))
    def binop(self, st, op, a, b):
        if op == "Mod" and isinstance(a, (str, PStr)): return self.percent(st, a, b)
        if op == "Add" and isinstance(a, (str, PStr, CondStr)) and isinstance(b, (str, PStr, CondStr)): return self.mkstr(list(text(a).parts) + list(text(b).parts))
        if op == "Mult" and (isinstance(a, str) and isint(b) or isint(a) and isinstance(b, str)): return a * b
        if op in ("Add", "Mult") and (isinstance(a, (PList, PTuple)) or isinstance(b, (PList, PTuple))) and not isinstance(a, Arr) and not isinstance(b, Arr):
            if op == "Add" and isinstance(a, type(b)):
                x, y = self.items(st, a), self.items(st, b)
                if x is None or y is None: raise Unsupported("concatenation of lists of unknown length")
                return self.newlist(st, x + y) if isinstance(a, PList) else PTuple(x + y)
            if op == "Mult":
                l, n = (a, b) if isinstance(a, (PList, PTuple)) else (b, a); x = self.items(st, l)
                if x is not None and isint(n): return self.newlist(st, x * n) if isinstance(l, PList) else PTuple(x * n)
                if x is not None and len(x) == 1 and isinstance(l, PList) and scal(x[0]): return self.newlist(st, SVec(n, lambda i, v=x[0]: v))
            raise Unsupported("operation on lists")
        if op == "MatMult": return self.dot(st, a, b)
        if isinstance(a, Inf) or isinstance(b, Inf): raise Unsupported("arithmetic with infinity")
        return self.map(st, lambda x, y: self.arith(st, op, num(x), num(y)), a, b)
    def arith(self, st, op, x, y):
        if x is UNDEF or y is UNDEF: raise Unsupported("uninitialised array element")
        if isreal(x) or isreal(y):
            if op in ("Add", "Sub", "Mult", "Div"): x, y = R(x), R(y)
        if op == "Add": return add(x, y)
        if op == "Sub": return sub(x, y)
        if op == "Mult": return mul(x, y)
        if op == "Div":
            if not is_z(y) and y == 0: raise Unsupported("division by zero")
            self.eng.oblige(st, "%s: divisor is not zero" % self.fname, "divzero", ne(y, 0))
            return rdiv(R(x), R(y))
        if op in ("FloorDiv", "Mod"):
            if isreal(x) or isreal(y): raise Unsupported("floor division of reals")
            if not is_z(y) and y <= 0 or is_z(y) and not self.positive(st, y): raise Unsupported("division by a number not known to be positive")
            return fdiv(x, y) if op == "FloorDiv" else fmod(x, y)
        if op == "Pow":
            if isint(y) and 0 <= y <= 8:
                r = Fraction(1) if isreal(x) else 1
                for _ in range(y): r = mul(r, x)
                return r
            if isinstance(y, Fraction) and y == Fraction(1, 2): return SQRT(Z(R(x)))
            raise Unsupported("power")
        if op in ("BitAnd", "BitOr") and isbool(x) and isbool(y): return (band if op == "BitAnd" else bor)(x, y)
        raise Unsupported("operator %s" % op)
    def positive(self, st, y):
        """known to be positive (an index symbol of an elementwise operation is free: only sizes are divisors)"""
        return self.eng.entails(st, gt(y, 0), 2000)
    def e_Compare(self, st, e):
        l = self.eval(st, e.left); out = True
        for op, x in zip(e.ops, e.comparators):
            r = self.eval(st, x); c = self.compare(st, type(op).__name__, l, r)
            if isinstance(c, Arr):
                if len(e.ops) > 1: raise Unsupported("chained comparison of arrays")
                return c
            out = band(out, c); l = r
        return out
    def compare(self, st, op, a, b):
        if op in ("Is", "IsNot"):
            v = eqv(a, b) if (a is NONE or b is NONE or isinstance(a, bool) or isinstance(b, bool)) and not is_z(a) and not is_z(b) else None
            if v is None:
                if isinstance(a, Handle) and isinstance(b, Handle): v = eqv(a, b)
                else: raise Unsupported("is")
            return v if op == "Is" else not v
        if op in ("In", "NotIn"):
            if isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)):
                # part of a text: one that is equal is one
                if isinstance(a, str) and isinstance(b, str): r = a in b
                else:
                    q = self.compare(st, "Eq", b, a); d = self.__dict__.setdefault("strb", {}); key = ("strin", str(getattr(a, "name", a)), str(getattr(b, "name", b)))
                    r = True if q is True else d.setdefault(key, z3.Bool("strin!%d" % len(d)))
                    if q is not True: st.assume(Z(implies(q, r)))
                return r if op == "In" else bnot(r)
            it = self.items(st, b)
            if it is None: raise Unsupported("in")
            r = bor(*[self.compare(st, "Eq", a, x) for x in it]) if it else False
            return r if op == "In" else bnot(r)
        if isinstance(a, (str, PStr, NoneType, Opaque)) or isinstance(b, (str, PStr, NoneType, Opaque)):
            if op not in ("Eq", "NotEq"): raise Unsupported("comparison of strings")
            if isinstance(a, str) and isinstance(b, str): r = a == b
            elif a is NONE or b is NONE: r = a is b
            else:
                key = ("streq", str(getattr(a, "name", a)), str(getattr(b, "name", b))); d = self.__dict__.setdefault("strb", {})
                if not (isinstance(a, (Opaque, str)) and isinstance(b, (Opaque, str))): raise Unsupported("comparison of strings")
                r = d.setdefault(key, z3.Bool("streq!%d" % len(d)))
            return r if op == "Eq" else bnot(r)
        if isinstance(a, Inf) or isinstance(b, Inf):
            if isinstance(a, Inf) and isinstance(b, Inf): raise Unsupported("comparison of infinities")
            s = a.sign if isinstance(a, Inf) else -b.sign
            return {"Eq": False, "NotEq": True, "Lt": s < 0, "LtE": s < 0, "Gt": s > 0, "GtE": s > 0}[op]
        if isinstance(a, (PList, PTuple)) and isinstance(b, (PList, PTuple)):
            x, y = self.items(st, a), self.items(st, b)
            if x is None or y is None or op not in ("Eq", "NotEq"): raise Unsupported("comparison of lists")
            r = band(*[self.compare(st, "Eq", p, q) for p, q in zip(x, y)]) if len(x) == len(y) else False
            return r if op == "Eq" else bnot(r)
        f = {"Eq": eq, "NotEq": ne, "Lt": lt, "LtE": le, "Gt": gt, "GtE": ge}[op]
        def g(x, y):
            x, y = num(x), num(y)
            if isreal(x) or isreal(y): x, y = R(x), R(y)
            return f(x, y)
        return self.map(st, g, a, b)
    def truth(self, st, v):
        if isinstance(v, bool) or is_z(v) and v.sort() == BOOL: return unz(v)
        if scal(v): return ne(v, 0)
        if v is NONE: return False
        if isinstance(v, (str,)): return len(v) > 0
        if isinstance(v, (PList, PTuple, Range)): return gt(self.length(st, v), 0)
        if isinstance(v, Arr):
            n = prodl(v.shape)
            if isint(n) and n == 1: return self.truth(st, self.getter(st, v)((0,) * v.rank))
            raise Unsupported("truth value of an array")
        if isinstance(v, (Inst, File, Func)): return True
        if isinstance(v, Opaque): return z3.Bool("truth!%s" % v.name)
        raise Unsupported("truth value of %s" % type(v).__name__)
    # ------------------------------------------------------------------ comprehensions
    def comp(self, st, e):
        if len(e.generators) != 1 or e.generators[0].is_async: 
            if all(not g.is_async for g in e.generators): return self.nested_comp(st, e)
            raise Unsupported("comprehension")
        g = e.generators[0]
        it = self.eval(st, g.iter)
        xs = self.items(st, it)
        fr = self.frames[-1]; pre = "%scomp%d." % (fr.prefix, len(self.frames))
        f = PFrame(pre, fr.mod, fr, fr.cls); self.frames.append(f)
        try:
            if xs is not None:
                out = []
                for x in xs:
                    self.assign(st, g.target, x); keep = True
                    for c in g.ifs:
                        t = self.truth(st, self.eval(st, c)); t = self.eng.decide(st, t, 500) if is_z(t) else t
                        if t is None: raise Unsupported("symbolic filter")
                        keep = keep and t
                    if keep: out.append(self.eval(st, e.elt))
                return CVec(out)
            if g.ifs: raise Unsupported("filtered comprehension of unknown length")
            if isinstance(it, Range): n, el = self.range_len(st, it), lambda k: add(it.a, mul(it.s, k))
            elif isinstance(it, Arr) and it.rank == 1: gg = self.getter(st, it); n, el = it.shape[0], lambda k: gg((k,))
            elif isinstance(it, PList): v = st.read((it.root,)); n, el = v.len, v.get
            elif isinstance(it, Zip): n, el = it.n, lambda k: it.get(st, k)
            else: raise Unsupported("comprehension over %s" % type(it).__name__)
            k = self.eng.fresh("c", INT); s2 = st.copy(); s2.assume(ge(k, 0)); s2.assume(lt(k, n))
            before = dict(s2.vars)
            self.assign(s2, g.target, el(k)); v = self.eval(s2, e.elt)
            if any(s2.vars.get(r) is not x for r, x in before.items()): raise Unsupported("comprehension with side effects")
            if isinstance(v, Handle) and v is not NONE: raise Unsupported("comprehension of references")
            return SVec(n, lambda i: subst_any(v, [(k, i)]))
        finally:
            self.frames.pop()
            for r in [r for r in st.vars if isinstance(r, str) and r.startswith(pre)]: del st.vars[r]
    def nested_comp(self, st, e):
        raise Unsupported("nested comprehension")
    def e_ListComp(self, st, e): return self.newlist(st, self.comp(st, e))
    e_GeneratorExp = e_ListComp
    # ------------------------------------------------------------------ attributes
    def e_Attribute(self, st, e): return self.getattr(st, self.eval(st, e.value), e.attr)
    def getattr(self, st, o, name):
        o = self.resolve(st, o)
        if isinstance(o, Inst):
            ob = st.vars[o.root]
            if name in ob.fields:
                v = ob.fields[name]
                if v is UNDEF: raise Unsupported("attribute %s may be unset" % name)
                return v
            if o.cls is not None:
                m = o.cls.methods().get(name)
                if m is not None:
                    decs = [d.id for d in m.decorator_list if isinstance(d, ast.Name)]
                    if len(decs) != len(m.decorator_list): raise Unsupported("decorator")
                    if "property" in decs: return self.call_func(st, Func(m, o.cls.mod, None, o, o.cls), [], {})
                    if "staticmethod" in decs: return Func(m, o.cls.mod, None, None, o.cls)
                    if "classmethod" in decs: return Func(m, o.cls.mod, None, o.cls, o.cls)
                    if decs: raise Unsupported("decorator")
                    return Func(m, o.cls.mod, None, o, o.cls)
                for s in o.cls.node.body:
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets): return self.eval(st, s.value)
            else: return Bound(o, name)
            self.bound(st, "attribute %s exists" % name, False); raise Unsupported("attribute %s" % name)
        if isinstance(o, ModAttr):
            if o.name.startswith("@"):
                m = self.mods[o.name[1:]]
                if name not in m.names: raise Unsupported("%s.%s" % (m.name, name))
                return self.resolve(st, self.modname(st, m, name, m.names[name]))
            q = o.name + "." + name
            if q in ("numpy.newaxis",): return NONE
            if q in ("numpy.inf", "math.inf"): return Inf(1)
            if q in ("sys.argv",) and "sys.argv" in st.vars: return st.vars["sys.argv"]
            return ModAttr(q)
        if isinstance(o, Cls):
            m = o.methods().get(name)
            if m is not None: return Func(m, o.mod, None, None, o)
            raise Unsupported("class attribute %s" % name)
        if isinstance(o, Arr):
            if name == "shape": return PTuple(o.shape)
            if name == "size": return prodl(o.shape)
            if name == "ndim": return o.rank
            if name == "T": return self.transpose(st, o)
            if name == "flat": return self.flatten(st, o)
            if name == "dtype": return ModAttr({"f": "numpy.float64", "i": "numpy.int64", "b": "numpy.bool_"}[o.dt])
            return Bound(o, name)
        if isinstance(o, Slice): return {"start": o.a, "stop": o.b, "step": o.s}[name]
        if isinstance(o, (PList, PTuple, File, str, PStr, Opaque)) : return Bound(o, name)
        if isinstance(o, Slc): return {"start": o.a, "stop": o.b, "step": NONE}[name]
        raise Unsupported("attribute %s of %s" % (name, type(o).__name__))
    def setattr(self, st, o, name, v):
        if not isinstance(o, Inst): raise Unsupported("attribute assignment to %s" % type(o).__name__)
        st.vars[o.root] = st.vars[o.root].with_(name, v)
    # ------------------------------------------------------------------ subscripts
    def indices(self, st, s):
        xs = s.elts if isinstance(s, ast.Tuple) else [s]
        out = []
        for x in xs:
            if isinstance(x, ast.Slice):
                ev = lambda y: None if y is None else self.none(self.eval(st, y))
                out.append(Slice(ev(x.lower), ev(x.upper), ev(x.step)))
            else: out.append(self.eval(st, x))
        if len(out) == 1 and isinstance(out[0], PTuple): out = list(out[0].items)
        return [Slice(self.none(x.a), self.none(x.b), None) if isinstance(x, Slc) else x for x in out]
    def none(self, v): return None if v is NONE else v
    def e_Subscript(self, st, e): return self.getitem(st, self.eval(st, e.value), self.indices(st, e.slice))
    def norm(self, st, i, n, what):
        """index normalised to [0, n) with its bounds obligation"""
        i = num(i)
        if isreal(i): raise Unsupported("real index")
        if isint(i) and i < 0:
            self.bound(st, "index of %s within its bounds" % what, le(-i, n)); return add(n, i)
        if isint(i) or self.eng.entails(st, ge(i, 0), 1500):
            self.bound(st, "index of %s within its bounds" % what, lt(i, n)); return i
        if isint(n) and not is_z(i): return i
        self.bound(st, "index of %s within its bounds" % what, band(ge(i, neg(n)), lt(i, n)))
        return ite(lt(i, 0), add(i, n), i)
    def slc(self, st, s, n):
        """(start, length, step) of a slice of an axis of length n"""
        k = 1 if s.s is None else s.s
        if not isint(k) or k == 0: raise Unsupported("slice step")
        if k < 0:
            if s.a is None and s.b is None and k == -1: return sub(n, 1), n, -1
            raise Unsupported("negative slice step")
        def clamp(x, dflt):
            if x is None: return dflt
            x = num(x)
            if isint(x) and x < 0: x = add(n, x)
            elif not isint(x) and not self.eng.entails(st, ge(x, 0), 800): x = ite(lt(x, 0), add(n, x), x)
            if isint(x) and isint(n): return min(max(x, 0), n)
            if not self.eng.entails(st, ge(x, 0), 800): x = ite(lt(x, 0), 0, x)
            if not self.eng.entails(st, le(x, n), 800): x = ite(gt(x, n), n, x)
            return x
        a, b = clamp(s.a, 0), clamp(s.b, n)
        d = sub(b, a); d = unz(z3.simplify(d)) if is_z(d) else d
        if isint(d): d = max(d, 0)
        elif not self.eng.entails(st, ge(d, 0), 800): d = ite(lt(d, 0), 0, d)
        if k != 1: d = fdiv(add(d, k - 1), k)
        return a, d, k
    def getitem(self, st, o, ix):
        if isinstance(o, Arr): return self.index(st, o, ix)
        if isinstance(o, (PList, PTuple)):
            if len(ix) != 1: raise Unsupported("list index")
            i = ix[0]
            if isinstance(o, PTuple): v = CVec(o.items)
            else: v = st.read((o.root,))
            if isinstance(i, Slice):
                if i.s is None and not is_z(v.len):
                    a, d, k = self.slc(st, i, v.len)
                    if isint(a) and isint(d):
                        xs = [v.get(q) for q in range(a, a + d)]
                        return PTuple(xs) if isinstance(o, PTuple) else self.newlist(st, xs)
                elif i.s is not None and isinstance(v, CVec) and all(x is None or isint(x) for x in (i.a, i.b, i.s)):
                    xs = list(v.items[slice(i.a, i.b, i.s)]); return PTuple(xs) if isinstance(o, PTuple) else self.newlist(st, xs)
                else:
                    a, d, k = self.slc(st, i, v.len); return self.newlist(st, SVec(d, lambda q: v.get(add(a, mul(k, q)))))
                raise Unsupported("list slice")
            return v.get(self.norm(st, i, v.len, "a sequence"))
        if isinstance(o, Range): return add(o.a, mul(o.s, self.norm(st, ix[0], self.range_len(st, o), "a range")))
        if isinstance(o, str) and isint(ix[0]): return o[ix[0]]
        if isinstance(o, Inst) and o.cls is None: return self.call_model(st, o, "__getitem__", list(ix), {})
        raise Unsupported("subscript of %s" % type(o).__name__)
    def view(self, st, a, ix):
        """basic indexing: (parts, None) or fancy (None, list)"""
        xs = list(ix)
        if any(x is ELLIPSIS for x in xs):
            k = next(q for q, x in enumerate(xs) if x is ELLIPSIS); used = sum(1 for x in xs if x is not ELLIPSIS and x is not NONE)
            xs[k:k + 1] = [Slice(None, None, None)] * (a.rank - used)
        used = sum(1 for x in xs if x is not NONE)
        if used > a.rank: self.bound(st, "as many indices as axes", False); raise Unsupported("too many indices")
        xs += [Slice(None, None, None)] * (a.rank - used)
        return xs
    def index(self, st, a, ix, write=False):
        xs = self.view(st, a, ix)
        if any(isinstance(x, (Arr, PList)) for x in xs): return self.fancy(st, a, xs)
        ax = 0; parts = []        # per axis of a: ("x", index) or ("s", start, step, output axis); new axes
        shape = []
        for x in xs:
            if x is NONE: shape.append(1); continue
            n = a.shape[ax]
            if isinstance(x, Slice):
                s, d, k = self.slc(st, x, n); parts.append(("s", s, k, len(shape))); shape.append(d)
            else: parts.append(("x", self.norm(st, x, n, "an array")))
            ax += 1
        if not shape and all(p[0] == "x" for p in parts): return self.getter(st, a)(tuple(p[1] for p in parts))
        if all(p[0] == "s" and isint(p[1]) and p[1] == 0 and p[2] == 1 for p in parts) and len(shape) == a.rank and all(same(p, q) for p, q in zip(shape, a.shape)): return a
        m0, i0 = a.imap, a.inv
        def up(i): return tuple(p[1] if p[0] == "x" else add(p[1], mul(p[2], i[p[3]])) for p in parts)
        def imap(i): u = up(tuple(i)); return m0(u) if m0 else u
        def inv(b):
            g, j = i0(b) if i0 else (True, b)
            out = [0] * len(shape); gs = [g]
            for p, q in zip(parts, j):
                if p[0] == "x": gs.append(eq(q, p[1]))
                else:
                    t = sub(q, p[1]) if p[2] == 1 else sub(p[1], q) if p[2] == -1 else None
                    if t is None: gs.append(eq(fmod(sub(q, p[1]), p[2]), 0)); t = fdiv(sub(q, p[1]), p[2])
                    out[p[3]] = t; gs += [ge(t, 0), lt(t, shape[p[3]])]
            return band(*gs), tuple(out)
        point = None
        if m0 is None and a.rank > 1: point = tuple(p[1] if p[0] == "x" else None for p in parts)
        key = a.key + "[%s]" % ",".join(str(p[1:]) if p[0] == "x" else "%s:%s" % (p[1], p[2]) for p in parts) + "|%s" % (shape,)
        return Arr(a.root, shape, a.dt, imap, inv, key, None, point)
    def fancy(self, st, a, xs):
        """a copy, indexed by integer arrays"""
        arrs = [(k, self.asarray(st, x)) for k, x in enumerate(xs) if isinstance(x, (Arr, PList))]
        if any(x.dt == "b" for _, x in arrs): raise Unsupported("boolean mask")
        if len(xs) != a.rank or any(x is NONE for x in xs): raise Unsupported("index with new axes and arrays")
        if len(arrs) == 1 and a.rank >= 1:
            k, ia = arrs[0]
            shape = []; plan = []
            for j, x in enumerate(xs):
                if j == k: plan.append(("a", len(shape))); shape += list(ia.shape)
                elif isinstance(x, Slice): s, d, q = self.slc(st, x, a.shape[j]); plan.append(("s", s, q, len(shape))); shape.append(d)
                else: plan.append(("x", self.norm(st, x, a.shape[j], "an array")))
            gi = self.getter(st, ia); g = self.getter(st, a); n = a.shape[k]; r = ia.rank
            s2 = st.copy(); f = tuple(self.eng.fresh("fi", INT) for _ in ia.shape)
            for q, m in zip(f, ia.shape): s2.assume(ge(q, 0)); s2.assume(lt(q, m))
            t = gi(f); nonneg = self.eng.entails(s2, ge(t, 0), 4000)
            self.bound(s2, "index array within the bounds of the array", band(ge(t, 0 if nonneg else neg(n)), lt(t, n)))
            def get(i):
                out = []
                for p in plan:
                    if p[0] == "a":
                        v = gi(i[p[1]:p[1] + r]); out.append(v if nonneg else ite(lt(v, 0), add(v, n), v))
                    elif p[0] == "s": out.append(add(p[1], mul(p[2], i[p[3]])))
                    else: out.append(p[1])
                return g(tuple(out))
            b = self.alloc(st, shape, a.dt, get); b.key = "fancy"; return b
        if len(arrs) == len(xs):
            s = arrs[0][1].shape
            for _, x in arrs[1:]:
                for p, q in zip(x.shape, s):
                    if not same(p, q): self.bound(st, "index arrays of one shape", eq(p, q))
            gs = [self.getter(st, x) for _, x in arrs]; g = self.getter(st, a)
            s2 = st.copy(); f = tuple(self.eng.fresh("fi", INT) for _ in s)
            for q, m in zip(f, s): s2.assume(ge(q, 0)); s2.assume(lt(q, m))
            nn = []
            for gi, n in zip(gs, a.shape):
                t = gi(f); z = self.eng.entails(s2, ge(t, 0), 4000); nn.append(z); self.bound(s2, "index array within the bounds of the array", band(ge(t, 0 if z else neg(n)), lt(t, n)))
            wrap = lambda v, n, z: v if z else ite(lt(v, 0), add(v, n), v)
            b = self.alloc(st, s, a.dt, lambda i: g(tuple(wrap(gi(i), n, z) for gi, n, z in zip(gs, a.shape, nn)))); b.key = "fancy"; return b
        raise Unsupported("mixed array index")
    def setitem(self, st, o, ix, v):
        if isinstance(o, Arr):
            xs = self.view(st, o, ix)
            if any(isinstance(x, (Arr, PList)) for x in xs): raise Unsupported("assignment through an index array")
            if all(not isinstance(x, Slice) and x is not NONE for x in xs):
                i = tuple(self.norm(st, x, n, "an array") for x, n in zip(xs, o.shape))
                if isinstance(v, Arr): v = self.getter(st, v)((0,) * v.rank)
                if isinstance(v, Inf): raise Unsupported("infinity stored in an array")
                if o.imap: i = o.imap(i)
                if o.ro: raise Unsupported("write through a copy")
                st.vars[o.root] = st.vars[o.root].set(i[0] if len(i) == 1 else i, conv(o.dt, v)); return
            t = self.index(st, o, ix)
            return self.write_all(st, t, v)
        if isinstance(o, PList):
            if len(ix) != 1 or isinstance(ix[0], Slice): raise Unsupported("list slice assignment")
            w = st.read((o.root,)); i = self.norm(st, ix[0], w.len, "a list"); st.vars[o.root] = w.set(i, v); return
        if isinstance(o, Inst) and o.cls is None: return self.call_model(st, o, "__setitem__", list(ix) + [v], {})
        raise Unsupported("item assignment to %s" % type(o).__name__)
    def write_all(self, st, a, v):
        """a[...] = v with broadcasting"""
        if a.ro: raise Unsupported("write through a copy")
        s, d, g = self.elem(st, v)
        if d == "f" and a.dt == "i" and isinstance(v, Arr): raise Unsupported("real values stored in an integer array")
        if len(s) > a.rank: raise Unsupported("assignment of an array of higher rank")
        off = a.rank - len(s); base = st.vars[a.root]
        for j, n in enumerate(s):
            m = a.shape[off + j]
            if isint(n) and n == 1 or same(m, n): continue
            if not self.eng.entails(st, eq(m, n), 1000): self.bound(st, "shapes conform in an assignment", eq(m, n))
        def val(i): return conv(a.dt, g(tuple(0 if isint(n) and n == 1 else i[off + j] for j, n in enumerate(s))))
        inv = a.inv or (lambda b: (True, b))
        if isinstance(base, CVec):
            out = []
            for k in range(base.len):
                gd, i = inv((k,)); gd = unz(z3.simplify(gd)) if is_z(gd) else gd
                out.append(base.items[k] if gd is False else val(i) if gd is True else merge_value(gd, val(i), base.items[k]))
            st.vars[a.root] = CVec(out); return
        if a.inv is None:                                  # the whole array
            st.vars[a.root] = SVec(base.len, lambda i: val(tup(i)), (), None, base.rank); return
        st.vars[a.root] = base.with_layer(Layer(lambda i: inv(tup(i))[0], lambda i: val(inv(tup(i))[1]), a.point))
    def reshape(self, st, a, shape):
        if isinstance(shape, (list, tuple)) and len(shape) == 1 and isinstance(shape[0], (PTuple, PList, Arr)): shape = self.items(st, shape[0])
        shape = list(shape)
        if any(isint(x) and x == -1 for x in shape):
            if len(shape) == 1: shape = [prodl(a.shape)]
            else: raise Unsupported("reshape with -1")
        if not same(prodl(shape), prodl(a.shape)): self.bound(st, "reshape keeps the number of elements", eq(prodl(shape), prodl(a.shape)))
        fl = self.flatmap(a)
        shape = tuple(shape)
        if len(shape) == 1:
            return Arr(a.root, shape, a.dt, (lambda i: fl(i[0])) if not (a.rank == 1 and a.imap is None) else None, None, a.key + "r" if a.rank != 1 else a.key, fl, None, not (a.rank == 1 and a.imap is None))
        # a view when the source is contiguous; writes through it are not modelled
        return Arr(a.root, shape, a.dt, lambda i: fl(toflat(i, shape)), None, a.key + "r%s" % (shape,), fl, None, True)
    def flatmap(self, a):
        """base index of the element at a C-order position"""
        if a.flat: return a.flat
        if a.rank == 1: return (lambda k: a.imap((k,))) if a.imap else (lambda k: (k,))
        return (lambda k: a.imap(unflat(k, a.shape))) if a.imap else (lambda k: unflat(k, a.shape))
    def flatten(self, st, a):
        if a.rank == 1: return a
        fl = self.flatmap(a)
        return Arr(a.root, (prodl(a.shape),), a.dt, lambda i: fl(i[0]), None, a.key + "f", fl, None, True)
    def copy(self, st, a):
        if a.rank == 1 or a.imap is None: g = self.getter(st, a); return self.alloc(st, a.shape, a.dt, g)
        b = self.alloc(st, a.shape, a.dt, self.getter(st, a))
        return b
    def transpose(self, st, a):
        if a.rank <= 1: return a
        m0, i0 = a.imap, a.inv
        return Arr(a.root, tuple(reversed(a.shape)), a.dt, lambda i: (m0 or (lambda x: x))(tuple(reversed(i))), None, a.key + "T", None, None, True)
    # ------------------------------------------------------------------ calls
    def e_Call(self, st, e):
        if isinstance(e.func, ast.Name) and e.func.id == "print" or isinstance(e.func, ast.Attribute) and ast.unparse(e.func) in ("sys.stdout.write", "sys.stderr.write"):
            tofile = [k for k in e.keywords if k.arg == "file"]
            f = self.eval(st, tofile[0].value) if tofile else None
            old = self.printing; self.printing = not isinstance(f, File)
            try:
                if not isinstance(f, File):
                    try: args = self.elts(st, e.args)
                    except Unsupported: args = [Opaque("printed")]
                else: args = self.elts(st, e.args)
                kw = {k.arg: self.eval(st, k.value) for k in e.keywords if k.arg in ("sep", "end")}
                return self.do_print(st, args, kw, f)
            finally: self.printing = old
        f = self.eval(st, e.func); args = self.elts(st, e.args); kw = {}
        for k in e.keywords:
            if k.arg is None: raise Unsupported("**kwargs")
            kw[k.arg] = self.eval(st, k.value)
        return self.call(st, f, args, kw)
    def do_print(self, st, args, kw, f):
        root = f.root if isinstance(f, File) else "stdout"
        if root not in st.vars: st.vars[root] = Stream(())
        out = []; sep = kw.get("sep", " "); end = kw.get("end", "\n")
        for j, a in enumerate(args):
            if j: out += list(text(sep).parts)
            out += self.str_of(st, a)
        out += list(text(end if end is not NONE else "\n").parts)
        st.vars[root] = st.vars[root].put(*out); return NONE
    def str_of(self, st, a):
        if isinstance(a, (str, PStr, CondStr)) or scal(a) or isinstance(a, Opaque): return self.fmt(st, a, "")
        if self.printing: return [Tok(Opaque("printed"), "str")]
        raise Unsupported("%s written as text" % type(a).__name__)
    def call(self, st, f, args, kw):
        if isinstance(f, Func): return self.call_func(st, f, args, kw)
        if isinstance(f, Cls): return self.instantiate(st, f, args, kw)
        if isinstance(f, Bound): return self.call_method(st, f.obj, f.name, args, kw)
        if isinstance(f, ModAttr): return self.call_lib(st, f.name, args, kw)
        raise Unsupported("call of %s" % type(f).__name__)
    def instantiate(self, st, c, args, kw):
        if c.name in self.contracts: self.eng.called.add(c.name); return self.contracts[c.name](self, st, args, kw)
        root = self.fresh_root("obj"); st.vars[root] = Obj(c.name, {}); o = Inst(root, c)
        m = c.methods().get("__init__")
        if m is not None: self.call_func(st, Func(m, c.mod, None, o, c), args, kw)
        return o
    def call_func(self, st, f, args, kw):
        nm = getattr(f.node, "name", "lambda")
        if f.cls is not None and "%s.%s" % (f.cls.name, nm) in self.contracts:
            self.eng.called.add("%s.%s" % (f.cls.name, nm)); return self.contracts["%s.%s" % (f.cls.name, nm)](self, st, ([f.self_] if f.self_ is not None else []) + args, kw)
        if f.cls is None and nm in self.contracts and not isinstance(f.node, ast.Lambda):
            self.eng.called.add(nm); return self.contracts[nm](self, st, args, kw)
        self.eng.inlined.add(nm)
        if len(self.frames) > 14: raise Unsupported("call depth")
        a = f.node.args
        if a.vararg or a.kwarg: raise Unsupported("variadic function")
        names = [x.arg for x in a.posonlyargs + a.args]; args = ([f.self_] if f.self_ is not None else []) + list(args)
        if len(args) > len(names): self.bound(st, "number of arguments of %s" % nm, False); raise Unsupported("arguments of %s" % nm)
        vals = dict(zip(names, args))
        fr = PFrame("%s@%d." % (nm, len(self.frames)), f.mod, f.closure, f.cls)
        for k, v in kw.items():
            if k not in names + [x.arg for x in a.kwonlyargs] or k in vals: raise Unsupported("keyword argument %s" % k)
            vals[k] = v
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults)); dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.frames.append(fr)
        try:
            for n in names + [x.arg for x in a.kwonlyargs]:
                if n not in vals:
                    if n not in dfl: raise Unsupported("missing argument %s of %s" % (n, nm))
                    if not isinstance(f.node, ast.Lambda) and any(isinstance(y, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp)) for y in ast.walk(dfl[n])): raise Unsupported("default argument %s of %s, which one object serves for every call" % (n, nm))
                    vals[n] = self.eval(st, dfl[n])
            for n, v in vals.items(): st.vars[fr.prefix + n] = v
            if isinstance(f.node, ast.Lambda): return self.eval(st, f.node.body)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)): raise Unsupported("generator")
            if f.node.decorator_list and not all(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property") for d in f.node.decorator_list): raise Unsupported("decorator")
            o = self.exec_block(st.copy(), f.node.body)
            acc = (o.normal, NONE) if o.normal is not None else None
            for k, g, s, v in reversed(o.exits):
                if k == "raise":
                    self.eng.oblige(s, "%s: no exception is raised" % self.fname, "bounds", False); continue
                if k != "return": raise Unsupported("stray " + k)
                if acc is None or g is True: acc = (s, v)
                else: acc = (merge_states(g, s, acc[0]), merge_value(g, v, acc[1]))
            if acc is None: return "@raise"
            st.vars, st.hyps = acc[0].vars, acc[0].hyps
            return acc[1]
        finally:
            self.frames.pop()
            if f.closure is None or True:
                for r in [r for r in st.vars if isinstance(r, str) and r.startswith(fr.prefix)]: del st.vars[r]
    def call_model(self, st, o, name, args, kw):
        m = self.objmodels.get(st.vars[o.root].cls)
        if m is None: raise Unsupported("method %s" % name)
        self.eng.called.add("%s.%s" % (st.vars[o.root].cls, name))
        return m(self, st, o, name, args, kw)
    def call_method(self, st, o, name, args, kw):
        if isinstance(o, Inst): return self.call_model(st, o, name, args, kw)
        if isinstance(o, Arr):
            f = getattr(self, "a_" + name, None)
            if f is None: raise Unsupported("array method %s" % name)
            return f(st, o, args, kw)
        if isinstance(o, PList): return self.m_list(st, o, name, args, kw)
        if isinstance(o, PTuple):
            raise Unsupported("tuple method %s" % name)
        if isinstance(o, File):
            if name == "write": st.vars[o.root] = st.vars[o.root].put(*text(args[0]).parts); return self.eng.fresh("written", INT)
            if name == "writelines":
                for x in self.items(st, args[0]) or self.uns("writelines"): st.vars[o.root] = st.vars[o.root].put(*text(x).parts)
                return NONE
            if name == "close": st.vars[o.root] = st.vars[o.root].put(("close",)); return NONE
            if name == "flush": return NONE
            raise Unsupported("file method %s" % name)
        if isinstance(o, (str, PStr)): return self.m_str(st, o, name, args, kw)
        raise Unsupported("method %s of %s" % (name, type(o).__name__))
    def m_list(self, st, o, name, args, kw):
        v = st.read((o.root,))
        if name == "append":
            if isinstance(v, CVec): st.vars[o.root] = CVec(v.items + (args[0],))
            else: st.vars[o.root] = v.with_layer(Layer(lambda i, n=v.len: eq(i, n), lambda i: args[0], v.len), add(v.len, 1))
            return NONE
        if name == "extend":
            xs = self.items(st, args[0])
            if isinstance(v, CVec) and xs is not None: st.vars[o.root] = CVec(v.items + tuple(xs)); return NONE
        if name == "copy": return self.newlist(st, list(v.items)) if isinstance(v, CVec) else self.newlist(st, v)
        if name == "reverse" and isinstance(v, CVec): st.vars[o.root] = CVec(reversed(v.items)); return NONE
        if name == "insert" and isinstance(v, CVec) and isint(args[0]): x = list(v.items); x.insert(args[0], args[1]); st.vars[o.root] = CVec(x); return NONE
        raise Unsupported("list method %s" % name)
    def m_str(self, st, o, name, args, kw):
        if name == "format":
            s = text(o).plain()
            if s is None: raise Unsupported("computed format")
            parts = []; auto = 0
            for m in re.finditer(r"\{\{|\}\}|\{([^{}]*)\}|[^{}]+", s):
                t = m.group(0)
                if t in ("{{", "}}"): parts.append(t[0]); continue
                if not t.startswith("{"): parts.append(t); continue
                ref, _, spec = m.group(1).partition(":")
                mm = re.fullmatch(r"(\w*)((?:\[\d+\])*)", ref)
                if not mm: raise Unsupported("format field %s" % ref)
                if mm.group(1) == "": x = args[auto]; auto += 1
                elif mm.group(1).isdigit(): x = args[int(mm.group(1))]
                else: x = kw[mm.group(1)]
                for i in re.findall(r"\d+", mm.group(2)): x = self.getitem(st, x, [int(i)])
                parts += self.fmt(st, x, spec)
            return self.mkstr(parts)
        if name == "join":
            sep = text(o); it = args[0]; xs = self.items(st, it)
            if xs is not None:
                parts = []
                for j, x in enumerate(xs): parts += (list(sep.parts) if j else []) + list(text(x).parts)
                return self.mkstr(parts)
            if isinstance(it, PList):
                v = st.read((it.root,)); k = self.eng.fresh("j", INT); x = v.get(k)
                return PStr([Rep(v.len, k, [Opt(gt(k, 0), sep.parts, ())] + list(text(x).parts))])
        if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args) and name in ("upper", "lower", "strip", "lstrip", "rstrip", "replace", "startswith", "endswith", "ljust", "rjust", "center"): return getattr(o, name)(*args)
        raise Unsupported("string method %s" % name)
    def percent(self, st, a, b):
        s = text(a).plain()
        if s is None: raise Unsupported("computed format")
        vals = list(b.items) if isinstance(b, PTuple) else [b]; parts = []; pos = 0
        for m in re.finditer(r"%%|%([-+ 0#]*)(\d*)(?:\.(\d+))?([a-zA-Z])", s):
            parts.append(s[pos:m.start()]); pos = m.end()
            if m.group(0) == "%%": parts.append("%"); continue
            x = vals.pop(0); k = m.group(4)
            if k in ("s", "r"): parts += self.str_of(st, x)
            elif k in ("d", "i"): 
                if isreal(x): raise Unsupported("%d of a real")
                parts += self.fmt(st, x, ("<" if "-" in m.group(1) else "") + m.group(2) + "d")
            else: parts += self.fmt(st, x, ("<" if "-" in m.group(1) else "") + m.group(2) + (".%s" % m.group(3) if m.group(3) else "") + k)
        parts.append(s[pos:])
        return self.mkstr(parts)
    def call_lib(self, st, q, args, kw):
        if q in self.contracts: self.eng.called.add(q); return self.contracts[q](self, st, args, kw)
        top, _, n = q.partition(".")
        if q in ("sys.exit", "builtins.exit", "builtins.quit", "os._exit"): return "@raise"
        if top == "builtins" or top == "math" or top == "operator" or top == "copy":
            f = getattr(self, {"builtins": "b_", "math": "k_", "operator": "o_", "copy": "c_"}[top] + n, None)
        elif top in ("numpy", "np"): f = getattr(self, "n_" + n.replace(".", "_"), None)
        else: f = None
        if f is None: raise Unsupported("function %s" % q)
        return f(st, args, kw)
    # ------------------------------------------------------------------ builtins
    def b_len(self, st, a, kw): return self.length(st, a[0])
    def b_range(self, st, a, kw):
        a = [num(x) for x in a]
        if any(not scal(x) or isreal(x) for x in a): raise Unsupported("range")
        if len(a) == 1: return Range(0, a[0], 1)
        if len(a) == 2: return Range(a[0], a[1], 1)
        if not isint(a[2]) or a[2] == 0: raise Unsupported("range step")
        return Range(*a)
    def b_int(self, st, a, kw):
        x = a[0]
        if isinstance(x, (bool, int)): return int(x)
        if is_z(x) and x.sort() == INT: return x
        if isinstance(x, str): return int(x)
        if isinstance(x, Opaque): return self.of_text(st, x, "int", INT)
        if isinstance(x, Fraction): return int(x)
        if is_z(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return x.arg(0)
        if is_z(x) and x.sort() == REAL: return ite(ge(x, 0), z3.ToInt(x), neg(z3.ToInt(neg(x))))
        raise Unsupported("int()")
    def of_text(self, st, x, what, srt):
        """the number a command-line word spells"""
        return z3.Const("%s(%s)" % (what, x.name), srt)
    def b_float(self, st, a, kw):
        x = a[0]
        if isinstance(x, str):
            if x.lower() in ("inf", "+inf", "infinity"): return Inf(1)
            if x.lower() in ("-inf",): return Inf(-1)
            return Fraction(x)
        if isinstance(x, Opaque): return self.of_text(st, x, "float", REAL)
        if isinstance(x, Inf): return x
        return R(num(x))
    def b_bool(self, st, a, kw): return self.truth(st, a[0])
    def b_str(self, st, a, kw): return self.mkstr(self.str_of(st, a[0])) if a else ""
    b_repr = b_str
    def b_list(self, st, a, kw):
        if not a: return self.newlist(st, [])
        x = self.items(st, a[0])
        if x is not None: return self.newlist(st, x)
        if isinstance(a[0], PList): return self.newlist(st, st.read((a[0].root,)))
        if isinstance(a[0], Range): r = a[0]; return self.newlist(st, SVec(self.range_len(st, r), lambda i: add(r.a, mul(r.s, i))))
        if isinstance(a[0], Arr) and a[0].rank == 1: g = self.getter(st, a[0]); return self.newlist(st, SVec(a[0].shape[0], lambda i: g((i,))))
        raise Unsupported("list()")
    def b_tuple(self, st, a, kw):
        if not a: return PTuple(())
        x = self.items(st, a[0])
        if x is None: raise Unsupported("tuple()")
        return PTuple(x)
    def b_abs(self, st, a, kw): return self.map(st, lambda x: ite(ge(num(x), 0), num(x), neg(num(x))), a[0])
    n_abs = n_absolute = n_fabs = b_abs
    def b_min(self, st, a, kw): return self.extreme(st, a, kw, lambda x, y: self.compare(st, "LtE", x, y))
    def b_max(self, st, a, kw): return self.extreme(st, a, kw, lambda x, y: self.compare(st, "GtE", x, y))
    def extreme(self, st, a, kw, f):
        if kw: raise Unsupported("keyword of min/max")
        xs = a if len(a) > 1 else self.items(st, a[0])
        if not xs: raise Unsupported("extremum of a sequence of unknown length")
        r = xs[0]
        for x in xs[1:]:
            c = f(r, x)
            if isinstance(r, Inf) or isinstance(x, Inf): r = r if c else x; continue
            if isreal(r) or isreal(x): r, x = R(r), R(x)
            r = ite(c, r, x) if is_z(c) else (r if c else x)
        return r
    def b_sum(self, st, a, kw):
        xs = self.items(st, a[0]); acc = a[1] if len(a) > 1 else 0
        if xs is not None:
            for x in xs: acc = self.binop(st, "Add", acc, x)
            return acc
        return self.binop(st, "Add", acc, self.fold(st, a[0]))
    def b_all(self, st, a, kw):
        xs = self.items(st, a[0])
        if xs is None: raise Unsupported("all()")
        return band(*[self.truth(st, x) for x in xs]) if xs else True
    def b_any(self, st, a, kw):
        xs = self.items(st, a[0])
        if xs is None: raise Unsupported("any()")
        return bor(*[self.truth(st, x) for x in xs]) if xs else False
    def b_isinstance(self, st, a, kw):
        x, t = a; nm = t.name if isinstance(t, ModAttr) else None
        if nm == "builtins.list": return isinstance(x, PList)
        if nm == "numpy.ndarray": return isinstance(x, Arr)
        if nm == "builtins.tuple": return isinstance(x, PTuple)
        raise Unsupported("isinstance")
    def b_enumerate(self, st, a, kw):
        start = a[1] if len(a) > 1 else kw.get("start", 0); xs = self.items(st, a[0])
        if xs is not None: return PTuple([PTuple([add(start, k), x]) for k, x in enumerate(xs)])
        n, el = self.seq(st, a[0]); return Zip(n, lambda s, k: PTuple([add(start, k), el(s, k)]))
    def b_zip(self, st, a, kw):
        xs = [self.items(st, x) for x in a]
        if all(x is not None for x in xs): return PTuple([PTuple(t) for t in zip(*xs)])
        sq = [self.seq(st, x) for x in a]; n = sq[0][0]
        for m, _ in sq[1:]:
            if not same(m, n): n = ite(lt(m, n), m, n)
        return Zip(n, lambda s, k: PTuple([el(s, k) for _, el in sq]))
    def b_reversed(self, st, a, kw):
        if isinstance(a[0], Range):
            r = a[0]; n = self.range_len(st, r); return Range(add(r.a, mul(r.s, sub(n, 1))), add(r.a, neg(r.s)) if False else sub(r.a, r.s), -r.s)
        xs = self.items(st, a[0])
        if xs is None: raise Unsupported("reversed()")
        return PTuple(list(reversed(xs)))
    def b_map(self, st, a, kw):
        xs = self.items(st, a[1])
        if xs is None or len(a) != 2:
            if len(a) == 2:
                n, el = self.seq(st, a[1]); k = self.eng.fresh("c", INT); s2 = st.copy(); s2.assume(ge(k, 0)); s2.assume(lt(k, n)); before = dict(s2.vars)
                v = self.call(s2, a[0], [el(s2, k)], {})
                if any(s2.vars.get(r) is not x for r, x in before.items()) or isinstance(v, Handle): raise Unsupported("map with side effects")
                return self.newlist(st, SVec(n, lambda i: subst_any(v, [(k, i)])))
            raise Unsupported("map()")
        return PTuple([self.call(st, a[0], [x], {}) for x in xs])
    def seq(self, st, x):
        xs = self.items(st, x)
        if xs is not None:
            v = CVec(xs); return len(xs), lambda s, k: v.get(k)
        if isinstance(x, Range): return self.range_len(st, x), lambda s, k: add(x.a, mul(x.s, k))
        if isinstance(x, Arr) and x.rank == 1: return x.shape[0], lambda s, k: self.getter(s, x)((k,))
        if isinstance(x, PList): return st.read((x.root,)).len, lambda s, k: s.read((x.root,)).get(k)
        if isinstance(x, Zip): return x.n, x.get
        raise Unsupported("sequence of kind %s" % type(x).__name__)
    def b_open(self, st, a, kw):
        mode = a[1] if len(a) > 1 else kw.get("mode", "r")
        if mode not in ("w", "wt", "w+", "x"): raise Unsupported("open mode %r" % (mode,))
        root = self.fresh_root("file"); st.vars[root] = Stream((("open", a[0]),)); self.files.append(root); return File(root)
    def b_slice(self, st, a, kw):
        a = [None if x is NONE else x for x in a]
        if len(a) == 1: return Slc(NONE, a[0])
        return Slc(NONE if a[0] is None else a[0], NONE if a[1] is None else a[1])
    def b_round(self, st, a, kw): raise Unsupported("round")
    def has(self, st, o, name):
        if not isinstance(o, Inst) or o.cls is None or not isinstance(name, str): raise Unsupported("hasattr")
        v = st.vars[o.root].fields
        if name in v:
            if v[name] is UNDEF: raise Unsupported("attribute %s may be unset" % name)
            return True
        return name in o.cls.methods()
    def b_hasattr(self, st, a, kw): return self.has(st, a[0], a[1])
    def b_getattr(self, st, a, kw):
        if self.has(st, a[0], a[1]): return self.getattr(st, a[0], a[1])
        if len(a) < 3: raise Unsupported("attribute %s" % a[1])
        return a[2]
    def b_setattr(self, st, a, kw):
        if not isinstance(a[1], str): raise Unsupported("setattr")
        self.setattr(st, a[0], a[1], a[2]); return NONE
    def b_type(self, st, a, kw): raise Unsupported("type()")
    # operator / math / copy
    def o_add(self, st, a, kw): return self.binop(st, "Add", *a)
    def o_sub(self, st, a, kw): return self.binop(st, "Sub", *a)
    def o_mul(self, st, a, kw): return self.binop(st, "Mult", *a)
    def k_sqrt(self, st, a, kw): return SQRT(Z(R(num(a[0]))))
    def k_prod(self, st, a, kw): return self.n_prod(st, a, kw)
    def k_fsum(self, st, a, kw): return self.b_sum(st, a, kw)
    def k_fabs(self, st, a, kw): return self.b_abs(st, a, kw)
    def c_copy(self, st, a, kw):
        x = a[0]
        if isinstance(x, Arr): return self.copy(st, x)
        if isinstance(x, PList): return self.m_list(st, x, "copy", [], {})
        if scal(x) or isinstance(x, (str, PTuple)): return x
        raise Unsupported("copy")
    def c_deepcopy(self, st, a, kw):
        x = a[0]
        if isinstance(x, PList) and any(isinstance(y, Handle) for y in self.items(st, x) or [NONE]): raise Unsupported("deepcopy of nested lists")
        return self.c_copy(st, a, kw)
    # ------------------------------------------------------------------ numpy
    def dtype(self, d, default):
        if d is None or d is NONE: return default
        n = d.name.split(".")[-1] if isinstance(d, ModAttr) else d if isinstance(d, str) else None
        if n is None: raise Unsupported("dtype")
        if n in ("float", "float64", "double", "float_", "d", "f8", "float32", "single", "f", "f4"):
            if n in ("float32", "single", "f", "f4"): raise Unsupported("single precision")
            return "f"
        if n in ("int", "int32", "int64", "intc", "intp", "int_", "i", "i4", "i8", "l", "longlong"): return "i"
        if n in ("bool", "bool_"): return "b"
        raise Unsupported("dtype %s" % n)
    def shape_arg(self, st, s):
        if scal(s): return (num(s),)
        it = self.items(st, s)
        if it is None: raise Unsupported("shape")
        return tuple(num(x) for x in it)
    def filled(self, st, shape, dt, v): return self.alloc(st, shape, dt, lambda i: v)
    def n_zeros(self, st, a, kw): d = self.dtype(a[1] if len(a) > 1 else kw.get("dtype"), "f"); return self.filled(st, self.shape_arg(st, a[0] if a else kw["shape"]), d, conv(d, 0))
    def n_ones(self, st, a, kw): d = self.dtype(a[1] if len(a) > 1 else kw.get("dtype"), "f"); return self.filled(st, self.shape_arg(st, a[0] if a else kw["shape"]), d, conv(d, 1))
    def n_empty(self, st, a, kw): d = self.dtype(a[1] if len(a) > 1 else kw.get("dtype"), "f"); return self.alloc(st, self.shape_arg(st, a[0] if a else kw["shape"]), d, lambda i: UNDEF)
    def n_full(self, st, a, kw): d = self.dtype(a[2] if len(a) > 2 else kw.get("dtype"), dt_of(a[1])); return self.filled(st, self.shape_arg(st, a[0]), d, conv(d, a[1]))
    def like(self, st, a, kw, v):
        s, d, _ = self.elem(st, a[0]); d = self.dtype(kw.get("dtype") if "dtype" in kw else (a[1] if len(a) > 1 else None), d)
        return self.alloc(st, s, d, lambda i: UNDEF if v is None else conv(d, v))
    def n_zeros_like(self, st, a, kw): return self.like(st, a, kw, 0)
    def n_ones_like(self, st, a, kw): return self.like(st, a, kw, 1)
    def n_empty_like(self, st, a, kw): return self.like(st, a, kw, None)
    def n_full_like(self, st, a, kw): return self.like(st, [a[0]] + list(a[2:]), kw, a[1])
    def n_identity(self, st, a, kw):
        d = self.dtype(a[1] if len(a) > 1 else kw.get("dtype"), "f"); n = num(a[0])
        return self.alloc(st, (n, n), d, lambda i: conv(d, ite(eq(i[0], i[1]), 1, 0)))
    def n_eye(self, st, a, kw): return self.n_identity(st, a[:1], kw)
    def n_diag(self, st, a, kw):
        x = self.asarray(st, a[0])
        if x.rank != 1: raise Unsupported("diag")
        g = self.getter(st, x); return self.alloc(st, (x.shape[0], x.shape[0]), x.dt, lambda i: ite(eq(i[0], i[1]), g((i[0],)), conv(x.dt, 0)))
    def n_arange(self, st, a, kw):
        r = self.b_range(st, a, {}); d = self.dtype(kw.get("dtype"), "i"); return self.alloc(st, (self.range_len(st, r),), d, lambda i: add(r.a, mul(r.s, i[0])))
    def n_linspace(self, st, a, kw):
        if len(a) < 3 and "num" not in kw or set(kw) - {"num"}: raise Unsupported("linspace")
        lo, hi, n = R(a[0]), R(a[1]), num(a[2] if len(a) > 2 else kw["num"])
        return self.alloc(st, (n,), "f", lambda i: add(lo, mul(R(i[0]), rdiv(sub(hi, lo), R(sub(n, 1))))))
    def n_array(self, st, a, kw):
        d = kw.get("dtype") if "dtype" in kw else (a[1] if len(a) > 1 else None); d = self.dtype(d, None); x = a[0]
        if isinstance(x, Arr): g = self.getter(st, x); return self.alloc(st, x.shape, d or x.dt, lambda i: conv(d or x.dt, g(i)))
        return self.asarray(st, x, d)
    def n_asarray(self, st, a, kw):
        d = self.dtype(kw.get("dtype") if "dtype" in kw else (a[1] if len(a) > 1 else None), None)
        if isinstance(a[0], Arr) and (d is None or d == a[0].dt): return a[0]
        return self.n_array(st, a, kw)
    n_ascontiguousarray = n_asarray
    def n_copy(self, st, a, kw): return self.n_array(st, a[:1], {})
    def n_outer(self, st, a, kw):
        (s1, d1, g1), (s2, d2, g2) = self.elem(st, a[0]), self.elem(st, a[1])
        if len(s1) != 1 or len(s2) != 1: raise Unsupported("outer")
        d = "f" if "f" in (d1, d2) else "i"
        return self.alloc(st, (s1[0], s2[0]), d, lambda i: self.arith(st, "Mult", conv(d, g1((i[0],))), conv(d, g2((i[1],)))))
    def n_dot(self, st, a, kw): return self.dot(st, a[0], a[1])
    n_matmul = n_inner = n_vdot = n_dot
    def n_inner(self, st, a, kw):
        if max(len(self.elem(st, x)[0]) for x in a) > 1: raise Unsupported("inner")
        return self.dot(st, a[0], a[1])
    n_vdot = n_inner
    def dot(self, st, x, y):
        (s1, d1, g1), (s2, d2, g2) = self.elem(st, x), self.elem(st, y)
        if not s1 or not s2: return self.binop(st, "Mult", x, y)
        if len(s2) > 2 or len(s1) > 2: raise Unsupported("dot of arrays of higher rank")
        n, m = s1[-1], s2[0]
        if not same(n, m): self.bound(st, "dot of conforming arrays", eq(n, m))
        d = "f" if "f" in (d1, d2) else "i"; c = lambda v: conv(d, v)
        term = lambda i, k: mul(c(g1(tuple(i[:len(s1) - 1]) + (k,))), c(g2((k,) + tuple(i[len(s1) - 1:]))))
        shape = tuple(s1[:-1]) + tuple(s2[1:])
        n = n if isint(n) else m
        if isint(n):
            def get(i):
                r = conv(d, 0)
                for k in range(n): r = add(r, term(i, k))
                return r
        else: get = self.recsum(st, n, len(shape), d, term)
        if not shape: return get(())
        return self.alloc(st, shape, d, get)
    def recsum(self, st, N, rk, d, term):
        """sum over k < N of term(i, k), as a recursion over k"""
        g = mkfn(self.eng, "dot_%d" % next(self.eng.names), 1 + rk, REAL if d == "f" else INT); kap = z3.Int("k!mm")
        vec = lambda get: SVec(one((0,) * max(rk, 1)), get, (), None, max(rk, 1))
        r = LoopRec(kind="array" if rk else "scalar", kap=kap, N=N, path=("dot",), fn=g, init=vec(lambda i: conv(d, 0)) if rk else conv(d, 0), step=vec(lambda i: add(g(kap, *tup(i)), term(tup(i), kap))) if rk else add(g(kap), term((), kap)))
        self.eng.loops.append(LoopRec(name="dot in %s" % self.fname, kap=kap, N=N, N0=N, exit=False, kinds={}, paths=[], recs={("dot",): r}, cond=None))
        return lambda i: g(N, *i)
    def fold(self, st, x):
        """sum of all the elements"""
        s, d, g = self.elem(st, x)
        if not s: return g(())
        d = "i" if d == "b" else d
        if len(s) == 1: n, term = s[0], lambda k: conv(d, num(g((k,))))
        else:
            fl = x.flat if isinstance(x, Arr) else None
            n = prodl(s); v = st.read((x.root,)) if isinstance(x, Arr) else None
            if fl: term = lambda k: conv(d, v.get(one(fl(k))))
            else: term = lambda k: conv(d, num(g(unflat(k, s))))
        if isint(n):
            r = conv(d, 0)
            for k in range(n): r = add(r, term(k))
            return r
        return self.recsum(st, n, 0, d, lambda i, k: term(k))(())
    def n_sum(self, st, a, kw):
        if set(kw) - {"axis"} or len(a) > 1 or kw.get("axis", NONE) is not NONE: raise Unsupported("sum over an axis")
        return self.fold(st, a[0])
    def n_mean(self, st, a, kw):
        if kw or len(a) > 1: raise Unsupported("mean over an axis")
        s, d, g = self.elem(st, a[0]); return rdiv(R(self.fold(st, a[0])), R(prodl(s)))
    def n_prod(self, st, a, kw):
        if set(kw) - {"dtype"} or len(a) > 1: raise Unsupported("prod")
        xs = self.items(st, a[0])
        if xs is None: raise Unsupported("product of an array of unknown length")
        r = 1
        for x in xs: r = self.arith(st, "Mult", r, num(x))
        return r
    n_product = n_prod
    def n_cumprod(self, st, a, kw):
        xs = self.items(st, a[0])
        if xs is None or kw or len(a) > 1: raise Unsupported("cumprod")
        out = []; r = 1
        for x in xs: r = self.arith(st, "Mult", r, num(x)); out.append(r)
        return self.asarray(st, PTuple(out))
    def n_roll(self, st, a, kw):
        x = self.asarray(st, a[0]); sh = num(a[1] if len(a) > 1 else kw["shift"]); ax = a[2] if len(a) > 2 else kw.get("axis", NONE)
        if not scal(sh): raise Unsupported("roll by several shifts")
        g = self.getter(st, x)
        if ax is NONE:
            if x.rank != 1: raise Unsupported("roll of the flattened array")
            ax = 0
        if not isint(ax): raise Unsupported("roll axis")
        ax %= x.rank; n = x.shape[ax]
        if not (isint(n) and n > 0 or is_z(n) and self.positive(st, n)): raise Unsupported("roll of a possibly empty axis")
        return self.alloc(st, x.shape, x.dt, lambda i: g(i[:ax] + (fmod(sub(i[ax], sh), n),) + i[ax + 1:]))
    def n_where(self, st, a, kw):
        if len(a) != 3: raise Unsupported("where")
        def f(c, x, y):
            c = c if isbool(c) else ne(c, 0); x, y = num(x), num(y)
            if isreal(x) or isreal(y): x, y = R(x), R(y)
            return ite(c, x, y) if is_z(c) else (x if c else y)
        return self.map(st, f, *a)
    n_add = el2('Add')
    n_subtract = el2('Sub')
    n_multiply = el2('Mult')
    n_divide = el2('Div')
    n_true_divide = el2('Div')
    n_floor_divide = el2('FloorDiv')
    n_mod = el2('Mod')
    n_remainder = el2('Mod')
    n_power = el2('Pow')
    def n_negative(self, st, a, kw): return self.map(st, lambda x: neg(num(x)), a[0])
    def n_sign(self, st, a, kw):
        def f(x):
            x = num(x); o = (lambda k: Fraction(k)) if isreal(x) else (lambda k: k)
            return ite(gt(x, 0), o(1), ite(lt(x, 0), o(-1), o(0))) if is_z(x) else o((x > 0) - (x < 0))
        return self.map(st, f, a[0])
    def n_maximum(self, st, a, kw): return self.map(st, lambda x, y: ite(ge(num(x), num(y)), num(x), num(y)), a[0], a[1])
    def n_minimum(self, st, a, kw): return self.map(st, lambda x, y: ite(le(num(x), num(y)), num(x), num(y)), a[0], a[1])
    def n_min(self, st, a, kw): return self.b_min(st, a, kw)
    def n_max(self, st, a, kw): return self.b_max(st, a, kw)
    n_amin, n_amax = n_min, n_max
    def n_square(self, st, a, kw): return self.map(st, lambda x: mul(num(x), num(x)), a[0])
    def n_sqrt(self, st, a, kw): return self.map(st, lambda x: SQRT(Z(R(num(x)))), a[0])
    def n_float64(self, st, a, kw): return self.b_float(st, a, kw) if not isinstance(a[0], Arr) else self.n_array(st, a, {"dtype": "float64"})
    def n_int64(self, st, a, kw): return self.b_int(st, a, kw) if not isinstance(a[0], Arr) else self.n_array(st, a, {"dtype": "int64"})
    n_int32 = n_int_ = n_intp = n_int64
    def n_reshape(self, st, a, kw): return self.reshape(st, self.asarray(st, a[0]), [a[1]] if not scal(a[1]) else a[1:])
    def n_ravel(self, st, a, kw): return self.flatten(st, self.asarray(st, a[0]))
    def n_transpose(self, st, a, kw): return self.transpose(st, self.asarray(st, a[0]))
    def n_size(self, st, a, kw): return prodl(self.elem(st, a[0])[0])
    def n_shape(self, st, a, kw): return PTuple(self.elem(st, a[0])[0])
    def n_ndim(self, st, a, kw): return len(self.elem(st, a[0])[0])
    def n_unravel_index(self, st, a, kw):
        x, s = a[0], self.shape_arg(st, a[1] if len(a) > 1 else kw["shape"])
        return PTuple([self.map(st, (lambda j: lambda k: unflat(k, s)[j])(j), x) for j in range(len(s))])
    def n_ravel_multi_index(self, st, a, kw):
        if len(a) != 2 or kw: raise Unsupported("ravel_multi_index")
        s = self.shape_arg(st, a[1]); it = self.items(st, a[0])
        if it is None: raise Unsupported("ravel_multi_index")
        return self.map(st, lambda *i: toflat([num(x) for x in i], s), *it)
    def n_stack(self, st, a, kw):
        if kw or len(a) > 1: raise Unsupported("stack")
        return self.asarray(st, PTuple(self.items(st, a[0]) or self.uns("stack")))
    n_vstack = n_stack
    def n_take(self, st, a, kw):
        x = self.asarray(st, a[0])
        if x.rank != 1 or kw or len(a) > 2: raise Unsupported("take")
        return self.fancy(st, x, [self.asarray(st, a[1])])
    def n_tile(self, st, a, kw): raise Unsupported("tile")
    # array methods
    def a_copy(self, st, o, a, kw): return self.copy(st, o)
    def a_reshape(self, st, o, a, kw): return self.reshape(st, o, a)
    def a_ravel(self, st, o, a, kw): return self.flatten(st, o)
    def a_flatten(self, st, o, a, kw): return self.copy(st, self.flatten(st, o))
    def a_sum(self, st, o, a, kw): return self.n_sum(st, [o] + list(a), kw)
    def a_mean(self, st, o, a, kw): return self.n_mean(st, [o] + list(a), kw)
    def a_prod(self, st, o, a, kw): return self.n_prod(st, [o] + list(a), kw)
    def a_dot(self, st, o, a, kw): return self.dot(st, o, a[0])
    def a_transpose(self, st, o, a, kw):
        if a: raise Unsupported("transpose with axes")
        return self.transpose(st, o)
    def a_fill(self, st, o, a, kw): self.write_all(st, o, a[0]); return NONE
    def a_astype(self, st, o, a, kw): return self.n_array(st, [o], {"dtype": a[0]})
    def a_tolist(self, st, o, a, kw): return self.b_list(st, [o], {})
    def a_take(self, st, o, a, kw): return self.n_take(st, [o] + list(a), kw)
    def a_item(self, st, o, a, kw): return self.index(st, o, list(a)) if a else self.getter(st, o)((0,) * o.rank)
    def a_min(self, st, o, a, kw): return self.b_min(st, [o], kw)
    def a_max(self, st, o, a, kw): return self.b_max(st, [o], kw)
    # ------------------------------------------------------------------ other expressions
    def e_NamedExpr(self, st, e): v = self.eval(st, e.value); self.assign(st, e.target, v); return v
    def e_Slice(self, st, e): raise Unsupported("slice")
    def e_Starred(self, st, e): raise Unsupported("starred expression")
class Zip(Handle):
    def __init__(self, n, get): self.n, self.get = n, get
class Slc(Handle):
    """slice object"""
    def __init__(self, a, b): self.a, self.b = a, b
BUILTINS = {n[2:] for n in dir(PInterp) if n.startswith("b_")} | {"print", "exit", "quit", "list", "tuple", "object", "Exception", "ValueError", "RuntimeError"}
