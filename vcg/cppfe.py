"""C++ front end: symbolic execution of the function bodies found in clang's syntax tree of the real source."""
import os, re, shutil
from .core import *
from .loops import Outcome, run_loop, finish, leaves, pname

CLANG = "/usr/bin/clang-18"
MPIINC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
REPO = os.environ.get("VERIF_REPO", "/repo")

def clang_ast(path, filters, flags=()):
    """JSON syntax trees of the declarations whose qualified name contains one of the filters"""
    docs = []
    for f in filters:
        cmd = [CLANG, "-std=c++17", "-w", "-I" + REPO + "/cxx", "-I" + REPO + "/upwind/cxx", "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "inc")] + MPIINC + list(flags) + \
              ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + f, "-fsyntax-only", path]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0: raise Unsupported("clang: " + p.stderr[:2000])
        s, i, dec = p.stdout, 0, json.JSONDecoder()
        while True:
            while i < len(s) and s[i] in " \n\r\t": i += 1
            if i >= len(s): break
            if s[i] != "{":
                j = s.find("\n", i); i = len(s) if j < 0 else j; continue
            d, i = dec.raw_decode(s, i)
            d["_filter"] = f
            docs.append(d)
    return docs

class Func:
    def __init__(self, cls, node, doc): 
        self.cls, self.node, self.doc = cls, node, doc
        self.name = node.get("name")
        self.params = [c for c in node.get("inner", []) if c["kind"] == "ParmVarDecl"]
        self.body = next((c for c in node.get("inner", []) if c["kind"] in ("CompoundStmt", "CXXTryStmt")), None)
        self.inits = [c for c in node.get("inner", []) if c["kind"] == "CXXCtorInitializer"]
        self.type = node.get("type", {}).get("qualType", "")
    @property
    def qname(self): return (self.cls + "::" if self.cls else "") + self.name

class TU:
    """functions and record types of one translation unit"""
    def __init__(self, path, filters, flags=()):
        self.path = path
        self.funcs = []; self.fields = {}; self.byid = {}
        self.globals = {}
        with open(path) as f: self.text = f.read()
        self.flags = list(flags); self.tried = set(filters)
        for d in clang_ast(path, filters, flags): self.top(d)
    def more(self, name):
        """functions and variables of that name which the filters left out (helpers of the functions under contract)"""
        if name in self.tried or not re.fullmatch(r"\w+", name or ""): return False
        self.tried.add(name)
        if not re.search(r"\b%s\b" % name, self.all_text()): return False
        d = tempfile.mkdtemp(prefix="verif-tu-"); p = os.path.join(d, "tu.cxx")
        try:
            with open(p, "w") as f: f.write(self.text)
            n0 = len(self.funcs), len(self.globals)
            for x in clang_ast(p, [name], self.flags):
                if x.get("name") == name and x["kind"] in ("FunctionDecl", "FunctionTemplateDecl", "VarDecl"): self.top(x)
            return (len(self.funcs), len(self.globals)) != n0
        finally: shutil.rmtree(d, ignore_errors=True)
    def all_text(self):
        """the text of the unit and of the repository's files it includes"""
        out = [self.text]
        for x in re.findall(r'#include\s+"([^"]+)"', self.text):
            for q in (x, os.path.join(REPO, "cxx", x), os.path.join(REPO, "upwind/cxx", x)):
                if os.path.isfile(q): out.append(open(q).read()); break
        return "\n".join(out)
    def top(self, d):
        k = d["kind"]
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"): self.record(d)
        elif k == "ClassTemplateDecl":
            for c in d.get("inner", []):
                if c["kind"] == "ClassTemplateSpecializationDecl": self.record(c)
        elif k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
            prev = self.byid.get(d.get("previousDecl"))
            cls = prev[0] if prev else None
            if cls is None:
                cls = d["_filter"] if d.get("parentDeclContextId") else None
            if d.get("parentDeclContextId") in self.byid: cls = self.byid[d["parentDeclContextId"]][0]
            self.add(cls, d)
        elif k == "FunctionDecl": self.add(None, d)
        elif k == "FunctionTemplateDecl": self.ftemplate(None, d)
        elif k == "VarDecl": self.globals[d["name"]] = d
    def ftemplate(self, cls, d):
        first = True
        for c in d.get("inner", []):
            if c["kind"] in ("CXXMethodDecl", "FunctionDecl"):
                if any(x["kind"] == "TemplateArgument" for x in c.get("inner", [])): self.add(cls, c)
    def record(self, d):
        name = d.get("name")
        if d["kind"] == "ClassTemplateSpecializationDecl":
            ta = [str(c.get("value", c.get("type", {}).get("qualType", "?"))) for c in d.get("inner", []) if c["kind"] == "TemplateArgument"]
            name = "%s<%s>" % (name, ", ".join(ta))
        if not d.get("completeDefinition"): 
            self.byid[d["id"]] = (name, d); return
        self.byid[d["id"]] = (name, d)
        self.fields.setdefault(name, [])
        for c in d.get("inner", []):
            if c["kind"] == "FieldDecl": self.fields[name].append((c["name"], ctype(c["type"]), c))
            elif c["kind"] in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                self.byid[c["id"]] = (name, c)
                self.add(name, c)
            elif c["kind"] == "FunctionTemplateDecl": self.ftemplate(name, c)
    def add(self, cls, d):
        f = Func(cls, d, d)
        self.byid.setdefault(d["id"], (cls, d))
        if f.body is not None:
            if not any(g.node["id"] == d["id"] for g in self.funcs): self.funcs.append(f)
    def find(self, cls, name, nparams=None, typ=None, id_=None):
        c = [f for f in self.funcs if f.name == name and f.cls == cls]
        if id_ is not None:
            for f in c:
                if f.node["id"] == id_ or f.node.get("previousDecl") == id_: return f
        if nparams is not None: c = [f for f in c if len(f.params) >= nparams and all("inner" in p or i < nparams for i, p in enumerate(f.params))]
        if typ is not None:
            e = [f for f in c if ctype(f.node.get("type", {})) == typ or f.type == typ]
            if e: c = e
        return c

def canon(t):
    t = t.replace("const ", "").replace(" const", "").replace("volatile ", "").replace("class ", "").replace("struct ", "").replace("__restrict__", "").replace("__restrict", "").strip()
    t = t.replace("std::__cxx11::", "std::")
    t = re.sub(r"(\d)UL\b", r"\1", t)
    return t
def ctype(ty):
    """canonical type string"""
    t = ty.get("desugaredQualType") or ty.get("qualType", "")
    t = canon(t)
    al = {"size_t": "unsigned long", "std::size_t": "unsigned long", "std::string": "std::basic_string<char>", "size_type": "unsigned long"}
    return al.get(t, t)
INTS = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
        "short": (16, True), "unsigned short": (16, False), "char": (8, True), "unsigned char": (8, False), "signed char": (8, True), "bool": (1, False), "std::ptrdiff_t": (64, True), "ptrdiff_t": (64, True), "size_t": (64, False)}
FLOATS = ("double", "float", "long double")
def strip_ref(t): return t.rstrip("&").rstrip().rstrip("&").strip()

SKIP = ("ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "FullExpr")

class Ref:
    """lvalue"""
    def __init__(self, path): self.path = tuple(path)

class Interp:
    strtab = None          # strings as terms (see contracts/pC12.py)
    def __init__(self, eng, tu, contracts=None, depth=0):
        self.eng, self.tu, self.contracts = eng, tu, contracts or {}
        self.frames = [{}]          # decl id -> path (locals of the current function)
        self.this = None
        self.depth = 0
        self.omp = []               # stack of parallel regions
        self.fname = ""
        self.mpi = None             # MPI model
        self.funcstack = []
        self.real_div_ok = False
        self.models = {}            # class name -> model of its constructor (contract used at the call)
        self.objmodels = {}         # class name -> contracts of its methods (used at the calls)
        self.defaults = {}          # class name -> value of a default constructed object

    # ------------------------------------------------------------------ helpers
    def loc(self, n):
        b = n.get("range", {}).get("begin", {})
        for x in (b, b.get("expansionLoc", {}), b.get("spellingLoc", {})):
            if "line" in x: return x["line"]
        return None
    def safety(self, st, what, goal, n=None):
        self.eng.oblige(st, "%s: %s%s" % (self.fname, what, ""), "safety", goal, self.loc(n) if n else None)
    def norm(self, st, t, ty):
        """the value of an integer term of the given C++ type (terms of unsigned type are kept modulo 2^n)"""
        w, sg = INTS[ty]
        if isint(t):
            if sg: return t
            return t % (1 << w)
        if sg: return t
        M = 1 << w
        t2 = unz(t)
        if isint(t2): return t2 % M
        if self.eng.entails(st, band(ge(t, 0), lt(t, M))): return t
        s = simp_lin(t)
        if not same(s, t) and self.eng.entails(st, band(ge(s, 0), lt(s, M))): return s
        self.eng.notes.append("wrap-around kept symbolic")
        if self.eng.entails(st, band(lt(t, 0), ge(t, -M))): return add(t, M)
        if self.eng.entails(st, band(lt(t, M), ge(t, -M))): return ite(lt(t, 0), add(t, M), t)
        return Z(t) % Z(M)
    def to_type(self, st, t, src, dst, n=None):
        """integer conversion"""
        if src == dst: return t
        if dst == "bool": return ne(self.norm(st, t, src), 0)
        if src == "bool": return ite(t, 1, 0) if not isint(t) or isinstance(t, bool) else t
        ws, ss = INTS[src]; wd, sd = INTS[dst]
        if not ss and wd > ws: return self.norm(st, t, src)     # the term is congruent modulo 2^ws only
        if not sd: return t
        # to signed
        if ss and wd >= ws: return t
        lo, hi = -(1 << (wd - 1)), (1 << (wd - 1))
        if isint(t): return (t - lo) % (1 << wd) + lo
        if self.eng.entails(st, band(ge(t, lo), lt(t, hi))): return t
        v = self.norm(st, t, src)
        if self.eng.entails(st, lt(v, hi)): return v
        # keep congruent terms when a small multiple fits
        self.safety(st, "conversion to %s keeps the value" % dst, band(ge(v, lo), lt(v, hi)), n)
        return (Z(v) - lo) % Z(1 << wd) + lo
    def arith(self, st, op, a, b, ty, n=None):
        if ty == "float": return fl32(self.arith(st, op, a, b, "double", n))
        if ty in FLOATS:
            a, b = R(a), R(b)
            if op == "+": return add(a, b)
            if op == "-": return sub(a, b)
            if op == "*": return mul(a, b)
            if op == "/":
                self.eng.oblige(st, "%s: floating-point division by a non-zero value" % self.fname, "divzero", ne(b, 0), self.loc(n))
                return rdiv(a, b)
        w, sg = INTS[ty]
        if op in "+-*":
            r = {"+": add, "-": sub, "*": mul}[op](a, b)
            if sg:
                lim = 1 << (w - 1)
                if isint(r):
                    if not -lim <= r < lim: self.safety(st, "no signed overflow in '%s'" % op, False, n)
                else: self.safety(st, "no signed overflow in '%s'" % op, band(ge(r, -lim), lt(r, lim)), n)
            elif isint(r): r %= 1 << w
            return r
        if op in "/%":
            a, b = self.norm(st, a, ty), self.norm(st, b, ty)
            self.safety(st, "divisor is not zero", ne(b, 0), n)
            if isint(b) and b == 0: raise Unsupported("division by constant zero")
            return self.cdiv(st, op, a, b, sg)
        if op == "<<" and isint(a) and isint(b): return a << b
        if op == ">>" and isint(b) and isint(a): return a >> b
        if op == ">>" and isint(b): return fdiv(self.norm(st, a, ty), 1 << b)
        if op == "<<" and isint(b): return self.arith(st, "*", a, 1 << b, ty, n)
        raise Unsupported("integer operator " + op)
    def cdiv(self, st, op, a, b, sg):
        """truncated division/remainder"""
        if isint(a) and isint(b):
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            return q if op == "/" else a - b * q
        if same(a, b): return 1 if op == "/" else 0
        if op == "/" and (same(simp_lin(neg(a)), b) or same(simp_lin(add(a, b)), 0)): return -1
        E = self.eng.entails
        pa = True if not sg else E(st, ge(a, 0)); 
        pb = True if not sg else E(st, gt(b, 0))
        if pa and pb: return fdiv(a, b) if op == "/" else fmod(a, b)
        if pb:
            if E(st, le(a, 0)):
                m = simp_lin(neg(a))
                return neg(fdiv(m, b)) if op == "/" else neg(fmod(m, b))
            q = ite(ge(a, 0), fdiv(a, b), neg(fdiv(neg(a), b)))
            return q if op == "/" else ite(ge(a, 0), fmod(a, b), neg(fmod(neg(a), b)))
        if E(st, lt(b, 0)):
            nb = simp_lin(neg(b))
            q = self.cdiv(st, "/", a, nb, sg)
            return neg(q) if op == "/" else self.cdiv(st, "%", a, nb, sg)
        raise Unsupported("division by a value of unknown sign")
    def compare(self, st, op, a, b, ty, n=None):
        if ty in INTS and ty != "bool":
            a, b = self.norm(st, a, ty), self.norm(st, b, ty)
        if ty in FLOATS: a, b = R(a), R(b)
        f = {"<": lt, "<=": le, ">": gt, ">=": ge, "==": eq, "!=": ne}[op]
        return f(a, b)

    # ------------------------------------------------------------------ lvalues and values
    def ref_of(self, st, n):
        """path of an lvalue expression"""
        k = n["kind"]
        if k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr"): return self.ref_of(st, n["inner"][0])
        if k == "ImplicitCastExpr" and n["castKind"] in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase"): return self.ref_of(st, n["inner"][0])
        if k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and n["castKind"] == "NoOp": return self.ref_of(st, n["inner"][0])
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            p = self.lookup(d["id"])
            if p is not None: return p
            if d["kind"] in ("ParmVarDecl", "VarDecl"):
                nm = d["name"]
                for key in ("g:" + nm,):
                    if key in st.vars: return (key,)
                if nm in ("cout", "cerr", "clog"):
                    if ("g:" + nm) not in st.vars: st.vars["g:" + nm] = Stream()
                    return ("g:" + nm,)
            if d["kind"] == "VarDecl" and (d["name"] in self.tu.globals or self.tu.more(d["name"])) and d["name"] in self.tu.globals:
                g = self.tu.globals[d["name"]]; q = g.get("type", {}).get("qualType", "")
                if ("const" in q.split() or g.get("constexpr")) and g.get("inner"):
                    x = [c for c in g["inner"] if not c["kind"].endswith("Attr")]
                    t = ctype(g["type"])
                    if len(x) == 1 and (t in INTS or t in FLOATS or t.startswith("std::basic_string")):
                        v = self.rv(st, x[0]); r = self.fresh_root("const")
                        if isinstance(v, Ref): v = self.read(st, v.path)
                        if t in INTS and t != "bool" and not INTS[t][1]: v = self.norm(st, v, t)
                        if t in FLOATS and is_num(v): v = R(v)
                        st.vars[r] = v
                        return (r,)
            raise Unsupported("reference to %s" % d.get("name"))
        if k == "MemberExpr":
            b = n["inner"][0]
            if n.get("isArrow"):
                v = self.eval(st, b)
                if isinstance(v, tuple) and v and v[0] == "this": base = v[1]
                else: base = self.deref(st, v, n)
            else: base = self.ref_of(st, b) if b.get("valueCategory") in ("lvalue", "xvalue") else self.temp(st, b)
            return base + (("f", n["name"]),)
        if k == "CXXOperatorCallExpr":
            v = self.eval(st, n, want_ref=True)
            if isinstance(v, Ref): return v.path
            return self.store_temp(st, v)
        if k in ("CXXMemberCallExpr", "CallExpr"):
            v = self.eval(st, n, want_ref=True)
            if isinstance(v, Ref): return v.path
            return self.store_temp(st, v)
        if k == "UnaryOperator" and n["opcode"] == "*":
            return self.deref(st, self.eval(st, n["inner"][0]), n)
        if k == "UnaryOperator" and n["opcode"] in ("++", "--") and not n.get("isPostfix"):
            self.eval(st, n); return self.ref_of(st, n["inner"][0])
        if k == "ArraySubscriptExpr":
            b, i = n["inner"][0], n["inner"][1]
            iv = self.norm(st, self.eval(st, i), ctype(i["type"]))
            while b["kind"] == "ImplicitCastExpr" and b["castKind"] == "ArrayToPointerDecay": 
                arr = self.ref_of(st, b["inner"][0])
                self.bounds(st, arr, iv, n)
                return arr + (("i", iv),)
            p = self.eval(st, b)
            return self.deref(st, p, n, iv)
        if k in ("CompoundAssignOperator", "BinaryOperator"):
            self.eval(st, n); return self.ref_of(st, n["inner"][0])
        if k in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr"): return self.temp(st, n["inner"][0])
        if k == "StringLiteral": return self.temp(st, n)
        if k == "ConditionalOperator":
            if "char" in n["type"]["qualType"] and "[" in n["type"]["qualType"]: return self.store_temp(st, self.e_ConditionalOperator(st, n))
            c = self.eng.decide(st, self.eval(st, n["inner"][0]))
            if c is None: raise Unsupported("conditional lvalue")
            return self.ref_of(st, n["inner"][1 if c else 2])
        if n.get("valueCategory") == "prvalue" or k in SKIP: return self.temp(st, n)
        raise Unsupported("lvalue " + k)
    def temp(self, st, n): return self.store_temp(st, self.eval(st, n))
    def store_temp(self, st, v):
        if isinstance(v, tuple) and v and v[0] == "this": return v[1]
        r = "tmp#%d" % next(self.eng.names)
        st.vars[r] = v
        return (r,)
    def lookup(self, id_):
        return self.frames[-1].get(id_)
    def bounds(self, st, path, i, n, what="index"):
        v = st.read(path)
        if not isinstance(v, (CVec, SVec)): raise Unsupported("indexing %r" % type(v).__name__)
        g = band(ge(i, 0), lt(i, v.len))
        if g is not True: self.safety(st, "%s within bounds of %s" % (what, pname(path)), g, n)
        if isinstance(v, CVec) and isint(i) and not 0 <= i < v.len: raise Unsupported("constant index out of bounds")
    def deref(self, st, p, n, extra=0):
        if isinstance(p, tuple) and p and p[0] == "this": return p[1]
        if isinstance(p, CondPtr):
            d = self.eng.decide(st, p.cond)
            if d is not None: return self.deref(st, p.a if d else p.b, n, extra)
            # pointer is one of two: the null one must be excluded by the path
            for c, q, o in ((p.cond, p.a, p.b), (bnot(p.cond), p.b, p.a)):
                if isinstance(o, Ptr) and o.path is None:
                    self.safety(st, "pointer is not null", c, n)
                    return self.deref(st, q, n, extra)
            raise Unsupported("pointer to one of two objects")
        if isinstance(p, Ptr):
            if p.path is None:
                self.safety(st, "pointer is not null", False, n); raise Unsupported("null dereference")
            i = add(p.off, extra)
            if self.eng.ptr_watch is not None: self.eng.ptr_watch(self, st, p, n)
            if getattr(p, "scalar", False): return p.path
            self.bounds(st, p.path, i, n, "pointer access")
            return p.path + (("i", i),)
        if isinstance(p, VecIter):
            i = add(p.pos, extra)
            self.bounds(st, p.path, i, n, "iterator")
            return p.path + (("i", i),)
        if isinstance(p, MapIter):
            m = st.read(p.path)
            if isinstance(m, CMap):
                ks = m.keys(); pos = unz(p.pos)
                if not isint(pos): pos = self.concretize(st, pos, range(len(ks) + 1))
                if pos is None: raise Unsupported("map iterator position")
                if not 0 <= pos < len(ks):
                    self.safety(st, "iterator is not past the end", False, n); raise Unsupported("dereference of end()")
                self.safety(st, "iterator refers to an entry", m.entries[ks[pos]][0], n)
                r = "tmp#%d" % next(self.eng.names)
                return ("@mapentry", p.path, ks[pos])
            if isinstance(m, Obj) and m.cls == "omap":
                self.safety(st, "map iterator is not past the end", band(ge(p.pos, 0), lt(p.pos, m.fields["n"])), n)
                return ("@omap", p.path, p.pos)
            if isinstance(m, SMap):
                self.safety(st, "map iterator within range", band(ge(p.pos, 0), lt(p.pos, m.n)), n)
                r = "tmp#%d" % next(self.eng.names)
                st.vars[r] = Obj("pair", {"first": m.key(p.pos), "second": m.val(p.pos)})
                return (r,)
        raise Unsupported("dereference of %r" % type(p).__name__)
    def resolve(self, st, path):
        """map entry pseudo-paths to real paths"""
        if path[0] == "@omap":
            mp, pos, rest = path[1], path[2], path[3:]
            if not rest: return path
            f = {("f", "first"): "keys", ("f", "second"): "vals"}.get(rest[0])
            if f is None: raise Unsupported("map entry member")
            return mp + (("f", f), ("i", pos)) + rest[1:]
        if path[0] == "@mapentry":
            mp, key = path[1], path[2]
            rest = path[3:]
            if not rest: return None
            if rest[0] == ("f", "second"): return mp + (("k", key),) + rest[1:]
            if rest[0] == ("f", "first"):
                r = "tmp#%d" % next(self.eng.names)
                st.vars[r] = key_value(key)
                return (r,) + rest[1:]
            raise Unsupported("map entry member")
        return path
    def read(self, st, path):
        if path[0] == "@mapentry" and len(path) == 3:
            m = st.read(path[1])
            return Obj("pair", {"first": key_value(path[2]), "second": m.entries[path[2]][1]})
        if path[0] == "@omap" and len(path) == 3:
            m = st.read(path[1])
            return Obj("pair", {"first": m.fields["keys"].get(path[2]), "second": m.fields["vals"].get(path[2])})
        v = st.read(self.resolve(st, path))
        if v is UNDEF:
            self.safety(st, "%s is initialised before it is read" % pname(path), False)
            self.eng.oblige(st, "%s: %s is assigned in the iteration (thread) that reads it" % (self.fname, pname(path)), "race", False)
            raise Unsupported("read of an uninitialised variable (%s)" % pname(path))
        return v
    def write(self, st, path, v, n=None):
        path = self.resolve(st, path)
        if self.omp: self.omp_write(st, path, n)
        st.write(path, v)
    def omp_write(self, st, path, n):
        """a shared location written in a parallel region outside a work-sharing loop is written by every thread"""
        reg = self.omp[-1]
        if reg["ws"] == 0 and path[0] in reg["shared"]:
            if isinstance(st.vars.get(path[0]), Stream): return
            self.eng.oblige(st, "%s: %s is not written by all the threads of a parallel region" % (self.fname, pname(path)), "race", False, self.loc(n) if n else None)
    def concretize(self, st, t, cands):
        t = unz(t)
        if isint(t): return t
        s = unz(z3.simplify(t))
        if isint(s): return s
        for c in cands:
            if self.eng.entails(st, eq(t, c)): return c
        return None
    def key_of(self, st, v):
        if isinstance(v, CVec):
            out = []
            for x in v.items:
                c = self.concretize(st, x, (0, 1, -1))
                if c is None: raise Unsupported("map key is not determined")
                out.append(c)
            return tuple(out)
        if isinstance(v, str): return v
        if isint(v): return v
        raise Unsupported("map key %r" % type(v).__name__)

    # ------------------------------------------------------------------ expressions
    def eval(self, st, n, want_ref=False):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None: raise Unsupported("expression " + k)
        if k in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr"): return m(st, n, want_ref)
        return m(st, n)
    def rv(self, st, n):
        """value of an expression of any category"""
        if n.get("valueCategory") in ("lvalue", "xvalue"):
            if n["kind"] in ("CXXThisExpr",): return self.eval(st, n)
            if n["kind"] == "DeclRefExpr" and n["referencedDecl"]["kind"] == "FunctionDecl": return FuncPtr(n["referencedDecl"]["name"], n["referencedDecl"])
            p = self.ref_of(st, n)
            return self.read(st, p)
        return self.eval(st, n)
    def e_ParenExpr(self, st, n): return self.rv(st, n["inner"][0])
    def e_ExprWithCleanups(self, st, n): return self.eval(st, n["inner"][0])
    e_ConstantExpr = e_ParenExpr
    def e_SubstNonTypeTemplateParmExpr(self, st, n): return self.eval(st, n["inner"][-1])
    def e_MaterializeTemporaryExpr(self, st, n): return self.eval(st, n["inner"][0])
    def e_CXXBindTemporaryExpr(self, st, n): return self.eval(st, n["inner"][0])
    def e_IntegerLiteral(self, st, n): return int(n["value"])
    def e_FloatingLiteral(self, st, n):
        v = n["value"]
        return Fraction(v) if "inf" not in v else None
    def e_CXXBoolLiteralExpr(self, st, n): return bool(n["value"])
    def e_CharacterLiteral(self, st, n): return n["value"]
    def e_StringLiteral(self, st, n):
        if self.strtab is not None: return self.strtab.lit(json.loads(n["value"]))
        return json.loads(n["value"]) if n["value"].startswith('"') else n["value"]
    def e_CXXNullPtrLiteralExpr(self, st, n): return NULL
    def e_GNUNullExpr(self, st, n): return NULL
    def e_CXXThisExpr(self, st, n): return ("this", self.this)
    def e_CXXDefaultArgExpr(self, st, n):
        if n.get("inner"): return self.eval(st, n["inner"][0])
        return Opaque("default")
    def e_CXXDefaultInitExpr(self, st, n):
        if n.get("inner"): return self.eval(st, n["inner"][0])
        raise Unsupported("default member initialiser")
    def e_DeclRefExpr(self, st, n):
        d = n["referencedDecl"]
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"): return FuncPtr(d["name"], d)
        if d["kind"] == "EnumConstantDecl": return Opaque("enum:" + d["name"])
        if d["kind"] == "NonTypeTemplateParmDecl": raise Unsupported("template parameter")
        return self.read(st, self.ref_of(st, n))
    def e_MemberExpr(self, st, n): return self.read(st, self.ref_of(st, n))
    def e_ArraySubscriptExpr(self, st, n): return self.read(st, self.ref_of(st, n))
    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        a = n.get("argType", {}).get("qualType")
        if a is None and n.get("inner"): a = ctype(n["inner"][0]["type"])
        sz = {"double": 8, "int": 4, "unsigned long": 8, "size_t": 8, "float": 4}
        if n.get("name") == "sizeof" and a in sz: return sz[a]
        raise Unsupported("sizeof " + str(a))
    def e_ImplicitCastExpr(self, st, n):
        ck = n["castKind"]; x = n["inner"][0]
        if ck == "LValueToRValue":
            y = x
            while y["kind"] == "ParenExpr": y = y["inner"][0]
            if y["kind"] == "ConditionalOperator": return self.e_ConditionalOperator(st, y)
        if ck == "LValueToRValue": return self.read(st, self.ref_of(st, x)) if x["kind"] != "CXXThisExpr" else self.eval(st, x)
        if ck in ("NoOp", "FunctionToPointerDecay", "UserDefinedConversion", "ConstructorConversion", "BuiltinFnToFnPtr", "UncheckedDerivedToBase", "DerivedToBase", "BitCast", "ToVoid"):
            return self.rv(st, x)
        if ck == "ArrayToPointerDecay":
            y = x
            while y["kind"] == "ParenExpr": y = y["inner"][0]
            if y["kind"] == "StringLiteral": return self.eval(st, y)
            if y["kind"] == "ConditionalOperator" and "char" in y["type"]["qualType"]: return self.e_ConditionalOperator(st, y)
            return Ptr(self.ref_of(st, x), 0)
        if ck == "NullToPointer": return NULL
        src, dst = ctype(x["type"]), ctype(n["type"])
        v = self.rv(st, x)
        return self.cast(st, v, ck, src, dst, n)
    def cast(self, st, v, ck, src, dst, n):
        src, dst = strip_ref(src), strip_ref(dst)
        if ck == "NoOp": return v
        if ck == "IntegralCast":
            if src not in INTS:
                if isinstance(v, Opaque): return v
                raise Unsupported("cast from " + src)
            return self.to_type(st, v, src, dst, n)
        if ck == "IntegralToFloating": return fl32(R(self.norm(st, v, src))) if dst == "float" else R(self.norm(st, v, src))
        if ck == "FloatingCast": return fl32(R(v)) if dst == "float" and src != "float" else v
        if ck == "IntegralToBoolean": return ne(self.norm(st, v, src), 0)
        if ck == "FloatingToIntegral":
            v = R(v)
            if not is_z(v): return int(v)
            return ite(ge(v, 0), z3.ToInt(v), neg(z3.ToInt(neg(v))))
        if ck == "FloatingToBoolean": return ne(R(v), 0)
        if ck == "PointerToBoolean":
            return self.ptr_nonnull(v)
        if ck == "ToVoid": return None
        raise Unsupported("cast " + ck)
    def ptr_nonnull(self, v):
        if isinstance(v, Ptr): return v.path is not None
        if isinstance(v, CondPtr): return ite(v.cond, self.ptr_nonnull(v.a), self.ptr_nonnull(v.b))
        raise Unsupported("pointer test")
    def e_CStyleCastExpr(self, st, n):
        x = n["inner"][0]
        ck = n["castKind"]
        if ck == "ConstructorConversion": return self.eval(st, x)
        if ck == "NoOp": return self.rv(st, x)
        return self.cast(st, self.rv(st, x), ck, ctype(x["type"]), ctype(n["type"]), n)
    e_CXXStaticCastExpr = e_CStyleCastExpr
    e_CXXFunctionalCastExpr = e_CStyleCastExpr
    def e_UnaryOperator(self, st, n):
        op = n["opcode"]; x = n["inner"][0]
        ty = ctype(n["type"])
        if op in ("++", "--"):
            p = self.ref_of(st, x)
            v = self.read(st, p)
            tyx = strip_ref(ctype(x["type"]))
            if isinstance(v, (Ptr,)): new = Ptr(v.path, add(v.off, 1 if op == "++" else -1))
            elif tyx in FLOATS: new = self.arith(st, op[0], v, Fraction(1), tyx, n)
            else:
                new = self.arith(st, op[0], v, 1, tyx, n)
                if not INTS[tyx][1]: new = self.norm(st, new, tyx)
            self.write(st, p, new, n)
            return v if n.get("isPostfix") else new
        if op == "*": return self.read(st, self.deref(st, self.eval(st, x), n))
        if op == "&":
            p = self.ref_of(st, x)
            p = self.resolve(st, p) or p
            if p[-1][0] == "i": return Ptr(p[:-1], p[-1][1])
            r = Ptr(p, 0); r.scalar = True
            return r
        v = self.rv(st, x)
        if op == "!": return bnot(v)
        if op == "-":
            if ty in FLOATS: return neg(R(v))
            return self.arith(st, "-", 0, v, ty, n)
        if op == "+": return v
        raise Unsupported("unary " + op)
    def e_BinaryOperator(self, st, n):
        op = n["opcode"]; a, b = n["inner"]
        if op == "=":
            v = self.rv(st, b)
            p = self.ref_of(st, a)
            tya = strip_ref(ctype(a["type"]))
            if tya in INTS and not INTS[tya][1] and tya != "bool": v = self.norm(st, v, tya)
            self.write(st, p, v, n)
            return v
        if op in ("&&", "||"):
            x = self.eval(st, a)
            d = self.eng.decide(st, x, 300) if is_z(x) else x
            if op == "&&" and d is False: return False
            if op == "||" and d is True: return True
            if d is not None: return self.eval(st, b)
            s2 = st.copy(); s2.assume(x if op == "&&" else bnot(x))
            h = len(s2.hyps)
            y = self.eval(s2, b)
            for r in s2.vars:
                if r in st.vars and s2.vars[r] is not st.vars[r]: raise Unsupported("side effect in a short-circuit operand")
                if r not in st.vars: st.vars[r] = s2.vars[r]
            return band(x, y) if op == "&&" else bor(x, y)
        if op == ",": self.rv(st, a); return self.rv(st, b)
        x, y = self.rv(st, a), self.rv(st, b)
        ta, tb = strip_ref(ctype(a["type"])), strip_ref(ctype(b["type"]))
        if op in ("<", "<=", ">", ">=", "==", "!="):
            if isinstance(x, (Ptr, CondPtr)) or isinstance(y, (Ptr, CondPtr)):
                if isinstance(y, Ptr) and y.path is None or isinstance(x, Ptr) and x.path is None:
                    nn = self.ptr_nonnull(x if isinstance(y, Ptr) and y.path is None else y)
                    return bnot(nn) if op == "==" else nn
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.path == y.path: return self.compare(st, op, x.off, y.off, "long")
                raise Unsupported("pointer comparison")
            if isinstance(x, Opaque) or isinstance(y, Opaque): raise Unsupported("comparison of opaque values")
            return self.compare(st, op, x, y, ta)
        ty = strip_ref(ctype(n["type"]))
        if isinstance(x, Ptr):
            return Ptr(x.path, add(x.off, y) if op == "+" else sub(x.off, y))
        if op in ("|", "&") and (isinstance(x, Opaque) or isinstance(y, Opaque)): return Opaque("flags")
        if op in ("|", "&", "^"):
            bx, by = x, y
            if ta == "bool" or isinstance(x, bool):
                return {"&": band, "|": bor, "^": lambda p, q: ne(p, q)}[op](x, y)
            if isint(x) and isint(y): return {"|": x | y, "&": x & y, "^": x ^ y}[op]
            bx, by = as_bool(x), as_bool(y)
            if bx is not None and by is not None: return ite({"&": band, "|": bor, "^": lambda p, q: ne(p, q)}[op](bx, by), 1, 0)
            return Opaque("flags") if ty == "int" and self.mpi is not None and not (is_z(x) or is_z(y)) else self.uns("bit operator")
        return self.arith(st, op, x, y, ty, n)
    def uns(self, m): raise Unsupported(m)
    def e_CompoundAssignOperator(self, st, n):
        op = n["opcode"][:-1]; a, b = n["inner"]
        y = self.rv(st, b)
        p = self.ref_of(st, a)
        x = self.read(st, p)
        ta = strip_ref(ctype(a["type"])); tb = strip_ref(ctype(b["type"]))
        ct = canon(n.get("computeResultType", {}).get("desugaredQualType") or n.get("computeResultType", {}).get("qualType", ta))
        ct = {"size_t": "unsigned long", "value_type": ta}.get(ct, ct)
        if isinstance(x, Ptr): v = Ptr(x.path, add(x.off, y) if op == "+" else sub(x.off, y))
        elif op in ("&", "|", "^"):
            if ta == "bool":
                bx, by = x, as_bool(y)
                if by is None: raise Unsupported("bit assignment")
                v = {"&": band, "|": bor, "^": lambda p, q: ne(p, q)}[op](bx, by)
            else: raise Unsupported("bit assignment")
        else:
            if ct in FLOATS: v = self.arith(st, op, R(self.norm(st, x, ta)) if ta in INTS else R(x), R(y), ct, n)
            else:
                x2 = self.to_type(st, x, ta, ct, n) if ta in INTS else x
                v = self.arith(st, op, x2, y, ct, n)
            if ta in INTS and ct in INTS:
                v = self.to_type(st, v, ct, ta, n)
                if not INTS[ta][1] and ta != "bool": v = self.norm(st, v, ta)
            elif ta in INTS and ct in FLOATS: v = self.cast(st, v, "FloatingToIntegral", ct, ta, n)
            elif ta == "float" and ct != "float": v = fl32(R(v))
        self.write(st, p, v, n)
        return v
    def e_ConditionalOperator(self, st, n):
        c, a, b = n["inner"]
        cv = self.eval(st, c)
        d = self.eng.decide(st, cv, 300) if is_z(cv) else cv
        if d is not None: return self.rv(st, a if d else b)
        sa = st.copy(); sa.assume(cv); va = self.rv(sa, a)
        sb = st.copy(); sb.assume(bnot(cv)); vb = self.rv(sb, b)
        m = merge_states(cv, sa, sb)
        st.vars, st.hyps = m.vars, m.hyps
        return merge_value(cv, va, vb)
    def e_InitListExpr(self, st, n):
        t = ctype(n["type"])
        return CVec([self.rv(st, x) for x in n.get("inner", [])])
    def e_CXXStdInitializerListExpr(self, st, n): return self.rv(st, n["inner"][0])
    def e_ImplicitValueInitExpr(self, st, n): return default_value(self, ctype(n["type"]), True)
    def e_CXXScalarValueInitExpr(self, st, n): return default_value(self, ctype(n["type"]), True)
    def e_CXXTemporaryObjectExpr(self, st, n): return self.e_CXXConstructExpr(st, n)
    def e_CXXConstructExpr(self, st, n):
        t = strip_ref(ctype(n["type"]))
        args = [a for a in n.get("inner", []) if a["kind"] != "CXXDefaultArgExpr"]
        return self.construct(st, t, args, n)
    def construct(self, st, t, args, n):
        if t.startswith("std::vector<"):
            el = t[12:-1].strip()
            if not args: return CVec([])
            at = strip_ref(ctype(args[0]["type"]))
            if len(args) == 1 and not at in INTS:
                return self.rv(st, args[0])
            if at in INTS and len(args) <= 2:
                cnt = self.norm(st, self.rv(st, args[0]), at)
                fill = self.rv(st, args[1]) if len(args) == 2 else default_value(self, el, True)
                if len(args) == 2 and strip_ref(ctype(args[1]["type"])) in INTS and el in INTS: fill = self.to_type(st, fill, strip_ref(ctype(args[1]["type"])), el, n)
                if el in FLOATS and is_num(fill): fill = R(fill)
                return self.make_vec(st, cnt, fill, n)
            if len(args) == 2:
                a, b = self.rv(st, args[0]), self.rv(st, args[1])
                return self.range_copy(st, a, b, n)
            raise Unsupported("vector constructor")
        if t.startswith("std::pair<"):
            if len(args) == 2: return Obj("pair", {"first": self.rv(st, args[0]), "second": self.rv(st, args[1])})
            if len(args) == 1: return self.rv(st, args[0])
            raise Unsupported("pair constructor")
        if t.startswith("std::map<") or t.startswith("std::_Rb_tree") or "iterator" in t or t.startswith("__gnu_cxx::__normal_iterator"):
            if not args: return default_value(self, t, True) if t.startswith("std::map<") else UNDEF
            return self.rv(st, args[0])
        if t.startswith("std::array<"):
            if args: return self.rv(st, args[0])
            return default_value(self, t, False)
        if t.startswith("std::basic_string<char"):
            if not args: return default_value(self, t, True)
            v = self.rv(st, args[0])
            if len(args) == 1 or isinstance(v, str) and len(args) <= 2: return v
            raise Unsupported("string constructor")
        if t.startswith("std::basic_ofstream") or t.startswith("std::basic_fstream") or t in ("std::ofstream", "std::fstream") or t.startswith("std::basic_ostringstream"):
            s = Stream()
            if args: s = s.put(("open", self.rv(st, args[0])))
            return s
        if t.startswith("std::plus<"): return FuncPtr("plus", None)
        if t.startswith("std::multiplies<"): return FuncPtr("multiplies", None)
        if t.startswith("std::allocator<"): return Opaque("alloc")
        if t in self.models: return self.models[t](self, st, args, n)
        if t in self.tu.fields:
            # copy construction
            if len(args) == 1 and strip_ref(ctype(args[0]["type"])) == t: return self.rv(st, args[0])
            path = (self.fresh_root("obj"),)
            st.vars[path[0]] = default_value(self, t, False)
            f = self.ctor(t, args, n)
            if f is None: return self.read(st, path)
            self.call_func(st, f, path, args, n)
            v = st.vars.pop(path[0])
            return v
        if t in FLOATS or t in INTS:
            return self.rv(st, args[0]) if args else default_value(self, t, True)
        raise Unsupported("construction of " + t)
    def ctor(self, t, args, n):
        c = [f for f in self.tu.find(t, t.split("<")[0].split("::")[-1]) if f.node["kind"] == "CXXConstructorDecl"]
        c = [f for f in c if len(f.params) == len(args) and not f.node.get("isImplicit")]
        ct = ctype(n.get("ctorType", {})) if n.get("ctorType") else None
        if ct:
            e = [f for f in c if ctype(f.node["type"]) == ct or f.node["type"]["qualType"] == n["ctorType"]["qualType"]]
            if e: c = e
        if not c:
            if args: raise Unsupported("constructor of " + t)
            return None
        return c[0]
    def fresh_root(self, nm): return "%s#%d" % (nm, next(self.eng.names))
    def make_vec(self, st, cnt, fill, n=None):
        if isint(cnt):
            if cnt < 0 or cnt > 4096: raise Unsupported("vector of %d elements" % cnt)
            return CVec([fill] * cnt)
        c = self.concretize(st, cnt, (0, 1, 2, 3)) if False else None
        return SVec(cnt, lambda i: fill)
    def range_copy(self, st, a, b, n):
        pa, ia, pb, ib = self.iter_range(st, a, b)
        v = st.read(pa)
        if isinstance(v, CVec) and isint(ia) and isint(ib): return CVec(v.items[ia:ib])
        cnt = sub(ib, ia)
        if isint(ia) and ia == 0: return SVec(cnt, v.get)
        return SVec(cnt, lambda i: v.get(add(i, ia)))
    def iter_range(self, st, a, b):
        """two iterators or pointers into one sequence"""
        def dec(x):
            if isinstance(x, VecIter): return x.path, x.pos
            if isinstance(x, Ptr): return x.path, x.off
            raise Unsupported("iterator range")
        (pa, ia), (pb, ib) = dec(a), dec(b)
        if pa != pb: raise Unsupported("iterators of different sequences")
        return pa, ia, pb, ib

    # ------------------------------------------------------------------ calls
    def callee_name(self, n):
        x = n["inner"][0]
        while x["kind"] in ("ImplicitCastExpr", "ParenExpr"): x = x["inner"][0]
        if x["kind"] == "DeclRefExpr":
            return x["referencedDecl"]["name"], x
        return None, x
    def e_CallExpr(self, st, n, want_ref=False):
        nm, x = self.callee_name(n)
        args = n["inner"][1:]
        if nm is None or x["referencedDecl"]["kind"] in ("ParmVarDecl", "VarDecl"):
            f = self.rv(st, x)
            if isinstance(f, Ptr) and f.path is None: raise Unsupported("call of null")
            if isinstance(f, FuncPtr):
                if callable(f.fn): return f.fn(self, st, [self.rv(st, a) for a in args])
                nm = f.name
            else: raise Unsupported("indirect call")
        h = getattr(self, "f_" + nm, None)
        if nm.startswith("MPI_") and self.mpi is not None: return self.mpi.call(self, st, nm, args, n)
        fs = self.tu.find(None, nm)
        if not fs and h is None and nm not in self.contracts and self.tu.more(nm): fs = self.tu.find(None, nm)
        if fs and h is None:
            if len(fs) > 1:
                t = x["type"]["qualType"]
                e = [f for f in fs if f.type == t]
                fs = e or fs
            return self.call_func(st, fs[0], None, args, n, want_ref)
        # static / private methods called without object
        if h is not None: return h(st, args, n, want_ref)
        ct = self.contracts.get(nm)
        if ct is not None: return ct.call(self, st, None, args, n)
        raise Unsupported("call of " + nm)
    def e_CXXMemberCallExpr(self, st, n, want_ref=False):
        me = n["inner"][0]
        while me["kind"] in ("ParenExpr", "ImplicitCastExpr"): me = me["inner"][0]
        if me["kind"] != "MemberExpr": raise Unsupported("member call through pointer")
        nm = me["name"]; obj = me["inner"][0]; args = [a for a in n["inner"][1:] if a["kind"] != "CXXDefaultArgExpr"]
        if me.get("isArrow"):
            v = self.eval(st, obj)
            base = v[1] if isinstance(v, tuple) and v and v[0] == "this" else self.deref(st, v, n)
        elif obj.get("valueCategory") in ("lvalue", "xvalue"): base = self.ref_of(st, obj)
        else: base = self.temp(st, obj)
        base = self.resolve(st, base) or base
        t = strip_ref(ctype(obj["type"])).rstrip("*").strip()
        return self.method(st, base, t, nm, args, n, me, want_ref)
    def method(self, st, base, t, nm, args, n, me, want_ref):
        v = st.read(base) if base[0] not in ("@mapentry", "@omap") else self.read(st, base)
        if isinstance(v, Obj) and v.cls in self.tu.fields:
            fs = self.tu.find(v.cls, nm, id_=me.get("referencedMemberDecl"))
            if isinstance(fs, Func): f = fs
            else:
                fs = [f for f in fs if len(f.params) == len(args)]
                if len(fs) > 1:
                    rt = ctype(n["type"])
                    e = [f for f in fs if all(strip_ref(canon(p["type"].get("desugaredQualType") or p["type"]["qualType"])) == strip_ref(ctype(a["type"])) for p, a in zip(f.params, args))]
                    if not e: e = [f for f in fs if canon(f.type.split("(")[0].strip()) == rt]
                    fs = e or fs
                if not fs:
                    ct = self.contracts.get(v.cls + "::" + nm)
                    if ct is not None: return ct.call(self, st, base, args, n)
                    raise Unsupported("method %s::%s not found" % (v.cls, nm))
                f = fs[0]
            return self.call_func(st, f, base, args, n, want_ref)
        if isinstance(v, Obj) and v.cls in self.objmodels: return self.objmodels[v.cls](self, st, base, v, nm, args, n, want_ref)
        if isinstance(v, Obj) and v.cls == "omap": return self.strtab.map_method(self, st, base, v, nm, args, n, want_ref)
        if self.strtab is not None and is_num(v) and t.startswith("std::basic_string"): return self.strtab.str_method(self, st, v, nm, args, n)
        if isinstance(v, (CVec, SVec)): return self.vec_method(st, base, v, nm, args, n, want_ref, t)
        if isinstance(v, (CMap, SMap)): return self.map_method(st, base, v, nm, args, n, want_ref)
        if isinstance(v, Stream): return self.stream_method(st, base, v, nm, args, n)
        if isinstance(v, str) or type(v).__name__ == "LStr": return self.str_method(st, base, v, nm, args, n)
        if isinstance(v, Opaque) and nm in ("c_str", "data") and not args: return v
        if hasattr(v, "method"): return v.method(self, st, base, nm, args, n, want_ref)
        raise Unsupported("method %s on %r" % (nm, type(v).__name__))
    def call_func(self, st, f, this, args, n, want_ref=False):
        q = f.qname
        ct = self.contracts.get(q)
        if ct is not None and ct.at_call and q not in self.funcstack[:1]:
            return ct.call(self, st, this, args, n)
        if len(self.funcstack) > 12: raise Unsupported("call depth (recursion?) in " + q)
        self.eng.inlined.add(q)
        # bind arguments
        frame = {}
        i = 0
        for p, a in zip(f.params, args):
            pt = p["type"].get("desugaredQualType") or p["type"]["qualType"]
            if pt.rstrip().endswith("&") :
                if a.get("valueCategory") in ("lvalue", "xvalue"): path = self.ref_of(st, a)
                else: path = self.temp(st, a)
                frame[p["id"]] = self.resolve(st, path) or path
            else:
                v = self.rv(st, a)
                r = self.fresh_root(p.get("name", "arg")); st.vars[r] = v; frame[p["id"]] = (r,)
        for p in f.params[len(args):]:
            if p.get("inner"):
                r = self.fresh_root(p["name"]); st.vars[r] = self.rv(st, p["inner"][0]); frame[p["id"]] = (r,)
            else: raise Unsupported("missing argument")
        rs = self.run_body(st, f, this, frame)
        return rs if not isinstance(rs, Ref) or want_ref else self.read(st, rs.path)
    def run_body(self, st, f, this, frame):
        """execute the body in place; returns the value (or Ref)"""
        old = self.this, self.fname
        if not self.funcstack: self.make_statics(st)
        self.frames.append(frame); self.this = this; self.funcstack.append(f.qname); self.fname = f.qname
        try:
            if f.node["kind"] == "CXXConstructorDecl":
                for i in f.inits:
                    x = i["inner"][0]
                    if i.get("anyInit"):
                        if x["kind"] == "CXXDefaultInitExpr" and not x.get("inner"): continue
                        path = this + (("f", i["anyInit"]["name"]),)
                        v = self.rv(st, x)
                        if v is not UNDEF: st.write(path, v)
            o = self.exec(st.copy(), f.body)
            res = self.join_returns(o)
        finally:
            self.frames.pop(); self.this, self.fname = old; self.funcstack.pop()
        if res is None: raise Unsupported("function never returns")
        s, v = res
        st.vars, st.hyps = s.vars, s.hyps
        return v
    def join_returns(self, o):
        rets = [e for e in o.exits if e[0] == "return"]
        if any(e[0] != "return" for e in o.exits): raise Unsupported("stray break/continue")
        acc = None
        if o.normal is not None: acc = (o.normal, None)
        for kind, g, s, v in reversed(rets):
            if acc is None: acc = (s, v); continue
            if not is_z(g):
                if g: acc = (s, v)
                continue
            s0, v0 = acc
            m = merge_states(g, s, s0)
            if v is None and v0 is None: mv = None
            elif v is None or v0 is None: mv = v if v is not None else v0
            elif isinstance(v, Ref) or isinstance(v0, Ref):
                if isinstance(v, Ref) and isinstance(v0, Ref) and v.path == v0.path: mv = v
                else: raise Unsupported("returns of different references")
            else: mv = merge_value(g, v, v0)
            acc = (m, mv)
        return acc

    # ------------------------------------------------------------------ library: operators
    def e_CXXOperatorCallExpr(self, st, n, want_ref=False):
        nm, x = self.callee_name(n)
        args = n["inner"][1:]
        op = nm.replace("operator", "").strip()
        a0 = args[0]
        if op == "[]":
            base = self.ref_of(st, a0) if a0.get("valueCategory") in ("lvalue", "xvalue") else self.temp(st, a0)
            base = self.resolve(st, base) or base
            v = st.read(base)
            if isinstance(v, (CVec, SVec)):
                ti = strip_ref(ctype(args[1]["type"]))
                i = self.norm(st, self.rv(st, args[1]), ti)
                self.bounds(st, base, i, n)
                return Ref(base + (("i", i),)) if want_ref else self.read(st, base + (("i", i),))
            if isinstance(v, CMap):
                key = self.key_of(st, self.rv(st, args[1]))
                dv = default_value(self, strip_ref(ctype(n["type"])), True)
                p, x0 = v.entries.get(key, (False, UNDEF))
                st.write(base, v.with_(key, True, x0 if p is True else dv if p is False or x0 is UNDEF else merge_value(p, x0, dv)))
                return Ref(base + (("k", key),)) if want_ref else st.read(base + (("k", key),))
            if type(v).__name__ == "LStr" or isinstance(v, str):
                i = self.rv(st, args[1]); return self.str_at(st, v, i, n)
            if self.strtab is not None and is_num(v): return self.strtab.char_at(self, st, v, self.rv(st, args[1]), n)
            if isinstance(v, Obj) and v.cls == "omap":
                q = self.strtab.entry(self, st, base, v, self.rv(st, args[1]))
                return Ref(q) if want_ref else self.read(st, q)
            if hasattr(v, "index"): return v.index(self, st, base, self.rv(st, args[1]), n, want_ref)
            raise Unsupported("operator[] on %r" % type(v).__name__)
        if op == "<<":
            base = self.ref_of(st, a0) if a0.get("valueCategory") in ("lvalue", "xvalue") else self.temp(st, a0)
            v = st.read(base)
            if isinstance(v, Stream):
                self.stream_put(st, base, args[1])
                return Ref(base) if want_ref else st.read(base)
            raise Unsupported("operator<<")
        if op == "=":
            v = self.rv(st, args[1])
            p = self.ref_of(st, a0)
            if isinstance(v, Ref): v = self.read(st, v.path)
            ta = strip_ref(ctype(a0["type"]))
            self.write(st, p, v, n)
            return Ref(p) if want_ref else v
        if op in ("++", "--"):
            p = self.ref_of(st, a0); v = self.read(st, p)
            d = 1 if op == "++" else -1
            if isinstance(v, MapIter): new = self.map_advance(st, v, d)
            elif isinstance(v, VecIter): new = VecIter(v.path, add(v.pos, d))
            else: raise Unsupported("++ on %r" % type(v).__name__)
            self.write(st, p, new, n)
            if len(args) == 2: return v
            return Ref(p) if want_ref else new
        if op in ("->", "*") and len(args) == 1:
            v = self.rv(st, a0)
            p = self.deref(st, v, n)
            if op == "->": return ptr_to(p)
            return Ref(p) if want_ref else self.read(st, p)
        if op in ("==", "!="):
            a, b = self.rv(st, a0), self.rv(st, args[1])
            r = self.equal(st, a, b)
            return r if op == "==" else bnot(r)
        if op == "()":
            f = self.rv(st, a0)
            if isinstance(f, FuncPtr): return self.apply_fn(st, f, [self.rv(st, a) for a in args[1:]], strip_ref(ctype(n["type"])))
            raise Unsupported("call operator")
        a, b = self.rv(st, a0), self.rv(st, args[1]) if len(args) > 1 else None
        if isinstance(a, VecIter):
            if op == "+": return VecIter(a.path, add(a.pos, b))
            if op == "-" and not isinstance(b, VecIter): return VecIter(a.path, sub(a.pos, b))
            if op == "-": return sub(a.pos, b.pos)
            if op in ("<", "<=", ">", ">="): return {"<": lt, "<=": le, ">": gt, ">=": ge}[op](a.pos, b.pos)
        if op == "+" and self.strtab is not None and is_num(a) and is_num(b): return self.strtab.concat(a, b)
        if op == "+" and isinstance(a, str) and isinstance(b, str): return a + b
        if op in ("+=",):
            raise Unsupported("operator+=")
        raise Unsupported("operator" + op)
    def equal(self, st, a, b):
        if isinstance(a, Ref): a = self.read(st, a.path)
        if isinstance(b, Ref): b = self.read(st, b.path)
        if isinstance(a, MapIter) and isinstance(b, MapIter):
            return eq(a.pos, b.pos)
        if isinstance(a, VecIter) and isinstance(b, VecIter): return eq(a.pos, b.pos)
        if isinstance(a, str) and isinstance(b, str): return a == b
        if hasattr(a, "str_eq"): return a.str_eq(b)
        if hasattr(b, "str_eq"): return b.str_eq(a)
        if isinstance(a, CVec) and isinstance(b, CVec):
            if a.len != b.len: return False
            return band(*[self.equal(st, x, y) for x, y in zip(a.items, b.items)])
        if is_num(a) and is_num(b): return eq(a, b)
        raise Unsupported("== on %r" % type(a).__name__)
    def apply_fn(self, st, f, vals, ty):
        if f.name in ("plus", "multiplies", "minus"):
            return self.norm_if(st, self.arith(st, {"plus": "+", "multiplies": "*", "minus": "-"}[f.name], vals[0], vals[1], ty), ty)
        if callable(f.fn): return f.fn(self, st, vals)
        raise Unsupported("function object " + f.name)
    def norm_if(self, st, v, ty): return self.norm(st, v, ty) if ty in INTS and ty != "bool" and not INTS[ty][1] else v

    # ------------------------------------------------------------------ library: containers
    def vec_method(self, st, base, v, nm, args, n, want_ref, t):
        if nm == "size": return v.len
        if nm == "empty": return eq(v.len, 0)
        if nm in ("begin", "cbegin"): return VecIter(base, 0)
        if nm in ("end", "cend"): return VecIter(base, v.len)
        if nm in ("front", "back"):
            i = 0 if nm == "front" else sub(v.len, 1)
            if not getattr(self.eng, "front_ok", False) or nm == "back": self.safety(st, "%s() of a non-empty vector" % nm, gt(v.len, 0), n)
            return Ref(base + (("i", i),)) if want_ref else st.read(base + (("i", i),))
        if nm == "at":
            i = self.norm(st, self.rv(st, args[0]), strip_ref(ctype(args[0]["type"])))
            self.bounds(st, base, i, n)
            return Ref(base + (("i", i),)) if want_ref else st.read(base + (("i", i),))
        if nm == "data": return Ptr(base, 0)
        if nm == "push_back":
            x = self.rv(st, args[0])
            if isinstance(v, CVec) and not v.items and self.eng.ctx: v = SVec(0, lambda i: UNDEF)
            if isinstance(v, CVec): st.write(base, CVec(v.items + (x,)))
            else:
                w = v.set(v.len, x)
                st.write(base, SVec(add(v.len, 1), w.get0, w.layers, w.base, w.rank, None))
            return None
        if nm == "clear": st.write(base, CVec([])); return None
        if nm == "reserve": return None
        if nm == "resize":
            cnt = self.norm(st, self.rv(st, args[0]), strip_ref(ctype(args[0]["type"])))
            el = t[12:-1].strip() if t.startswith("std::vector<") else None
            fill = self.rv(st, args[1]) if len(args) > 1 else default_value(self, el, True)
            if el in FLOATS and is_num(fill): fill = R(fill)
            cc = unz(z3.simplify(cnt)) if is_z(cnt) else cnt
            if isint(v.len) and isint(cc) and isinstance(v, CVec):
                st.write(base, CVec(v.items[:cc] + (fill,) * max(0, cc - v.len)))
            elif isint(v.len) and v.len == 0: st.write(base, SVec(cnt, lambda i: fill))
            else: st.write(base, SVec(cnt, lambda i: merge_value(lt(i, v.len), safe_get(v, i), fill)))
            return None
        if nm == "fill":
            x = self.rv(st, args[0]); st.write(base, CVec([x] * v.len) if isinstance(v, CVec) else SVec(v.len, lambda i: x)); return None
        if nm == "assign" and len(args) == 2:
            a = strip_ref(ctype(args[0]["type"]))
            if a in INTS:
                st.write(base, self.make_vec(st, self.norm(st, self.rv(st, args[0]), a), self.rv(st, args[1]))); return None
            st.write(base, self.range_copy(st, self.rv(st, args[0]), self.rv(st, args[1]), n)); return None
        if nm == "swap":
            p = self.ref_of(st, args[0]); w = st.read(p)
            st.write(p, v); st.write(base, w); return None
        raise Unsupported("vector method " + nm)
    def map_advance(self, st, it, d):
        m = st.read(it.path)
        return MapIter(it.path, add(it.pos, d))
    def map_method(self, st, base, m, nm, args, n, want_ref):
        if isinstance(m, SMap):
            if nm in ("begin", "cbegin"): return MapIter(base, 0)
            if nm in ("end", "cend"): return MapIter(base, m.n)
            if nm == "size": return m.n
            if nm == "empty": return eq(m.n, 0)
            raise Unsupported("method %s of a symbolic map" % nm)
        ks = m.keys()
        if nm in ("begin", "cbegin"): return MapIter(base, 0)
        if nm in ("end", "cend"): return MapIter(base, len(ks))
        if nm in ("find", "count"):
            key = self.key_of(st, self.rv(st, args[0]))
            if key not in m.entries:
                return MapIter(base, len(ks)) if nm == "find" else 0
            p = m.entries[key][0]
            if nm == "count": return ite(p, 1, 0)
            return MapIter(base, ite(p, ks.index(key), len(ks)))
        if nm == "insert":
            v = self.rv(st, args[0])
            if not (isinstance(v, Obj) and "first" in v.fields): raise Unsupported("map insert")
            key = self.key_of(st, v.fields["first"])
            p, x = m.entries.get(key, (False, UNDEF))
            nv = v.fields["second"] if p is False or x is UNDEF else x if p is True else merge_value(p, x, v.fields["second"])
            st.write(base, m.with_(key, True, nv))
            return Opaque("insert result")
        if nm == "emplace" and len(args) == 2:
            key = self.key_of(st, self.rv(st, args[0])); x2 = self.rv(st, args[1])
            p, x = m.entries.get(key, (False, UNDEF))
            st.write(base, m.with_(key, True, x2 if p is False or x is UNDEF else x if p is True else merge_value(p, x, x2)))
            return Opaque("insert result")
        if nm == "at":
            key = self.key_of(st, self.rv(st, args[0]))
            p, x = m.entries.get(key, (False, UNDEF))
            self.safety(st, "map::at finds the key", p, n)
            return Ref(base + (("k", key),)) if want_ref else x
        if nm == "size": return ssum([ite(m.entries[k][0], 1, 0) for k in ks])
        if nm == "empty": return bnot(bor(*[m.entries[k][0] for k in ks]))
        if nm == "erase":
            a = self.rv(st, args[0])
            key = ks[a.pos] if isinstance(a, MapIter) and isint(a.pos) else self.key_of(st, a)
            if key in m.entries: st.write(base, m.with_(key, False, m.entries[key][1]))
            return None
        if nm == "clear": st.write(base, CMap({k: (False, m.entries[k][1]) for k in ks})); return None
        raise Unsupported("map method " + nm)
    # streams
    def stream_put(self, st, base, a):
        s = st.read(base)
        t = strip_ref(ctype(a["type"]))
        x = a
        while x["kind"] in SKIP and x["kind"] != "SubstNonTypeTemplateParmExpr" and x.get("inner"): x = x["inner"][0]
        if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["name"] in ("endl", "flush"):
            st.write(base, s.put("\n") if x["referencedDecl"]["name"] == "endl" else s); return
        v = self.rv(st, a)
        if isinstance(v, str): st.write(base, s.put(v)); return
        if self.strtab is not None and t not in INTS and t not in FLOATS and is_num(v): st.write(base, s.put(Tok(v, "str"))); return
        if isinstance(v, CondStr): st.write(base, s.put(v.item())); return
        if t == "char":
            def ch(x):
                x = unz(x)
                if isint(x): return chr(x)
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return CondStr(x.arg(0), ch(x.arg(1)), ch(x.arg(2)))
                raise Unsupported("output of a computed character")
            x = ch(v)
            st.write(base, s.put(x if isinstance(x, str) else x.item())); return
        if t in INTS: st.write(base, s.put(Tok(self.norm(st, v, t), "int"))); return
        if t in FLOATS: st.write(base, s.put(Tok(R(v), "real"))); return
        if hasattr(v, "str_eq"): st.write(base, s.put(Tok(v, "str"))); return
        if isinstance(v, Opaque): st.write(base, s.put(Tok(v, "str"))); return
        raise Unsupported("output of " + t)
    def stream_method(self, st, base, v, nm, args, n):
        if nm in ("open",):
            st.write(base, v.put(("open", self.rv(st, args[0])))); return None
        if nm == "close":
            st.write(base, v.put(("close",))); return None
        if nm in ("flush",): return None
        if nm == "precision": st.write(base, v.put(("precision", self.rv(st, args[0]) if args else None))); return 6
        if nm in ("is_open", "good"): return True
        raise Unsupported("stream method " + nm)
    def str_method(self, st, base, v, nm, args, n):
        if nm in ("c_str", "data"): return v
        if nm in ("size", "length") : return len(v) if isinstance(v, str) else v.length()
        if nm == "empty": return (len(v) == 0) if isinstance(v, str) else eq(v.length(), 0)
        raise Unsupported("string method " + nm)
    def str_at(self, st, v, i, n):
        if isinstance(v, str): return ord(v[i]) if i < len(v) else 0
        return v.char_at(self, st, i, n)

    # ------------------------------------------------------------------ library: functions
    def vals(self, st, args): return [self.rv(st, a) for a in args]
    def f_accumulate(self, st, args, n, want_ref):
        a, b, init = self.vals(st, args[:3])
        acc_t = strip_ref(ctype(n["type"]))
        f = self.rv(st, args[3]) if len(args) > 3 else FuncPtr("plus", None)
        pa, ia, pb, ib = self.iter_range(st, a, b)
        v = st.read(pa)
        # std::accumulate accumulates in the type of its initial value
        t3 = strip_ref(ctype(args[3]["type"])) if len(args) > 3 else ""
        opt = None
        if "<" in t3:
            opt = t3[t3.index("<") + 1:-1].strip()
            opt = {"void": None, "size_t": "unsigned long"}.get(opt, opt)
        et = self.elem_type(args[0])
        def step(s, acc, x):
            op_t = opt or usual(acc_t, et)
            a_, x_ = acc, x
            if op_t in FLOATS: a_, x_ = R(self.norm(s, acc, acc_t)) if acc_t in INTS else R(acc), R(self.norm(s, x, et)) if et in INTS else R(x)
            elif acc_t in INTS and et in INTS:
                a_ = self.to_type(s, acc, acc_t, op_t); x_ = self.to_type(s, x, et, op_t)
            r = self.arith(s, {"plus": "+", "multiplies": "*"}[f.name], a_, x_, op_t, n) if f.name in ("plus", "multiplies") else self.apply_fn(s, f, [a_, x_], op_t)
            if op_t in INTS and acc_t in INTS:
                r = self.narrow(s, r, op_t, acc_t, n)
            elif op_t in FLOATS and acc_t in INTS: r = self.cast(s, r, "FloatingToIntegral", op_t, acc_t, n)
            elif acc_t in FLOATS: r = fl32(R(r)) if acc_t == "float" else R(r)
            return r
        if isinstance(v, CVec) and isint(ia) and isint(ib):
            acc = init
            for x in v.items[ia:ib]: acc = step(st, acc, x)
            return acc
        # symbolic length: a loop
        r = self.fresh_root("acc"); c = self.fresh_root("it")
        st.vars[r] = R(init) if acc_t in FLOATS else init; st.vars[c] = ia
        def cond(s): return lt(s.vars[c], ib)
        def body(s):
            vv = s.read(pa)
            s.vars[r] = step(s, s.vars[r], vv.get(s.vars[c])); s.vars[c] = add(s.vars[c], 1)
            return Outcome(s)
        o = run_loop(self.eng, st, cond, body, "accumulate")
        st.vars, st.hyps = o.normal.vars, o.normal.hyps
        return st.vars[r]
    def narrow(self, st, v, src, dst, n):
        """implicit narrowing conversion (exact, modular)"""
        return self.to_type(st, v, src, dst, n)
    def elem_type(self, a):
        t = ctype(a["type"])
        import re
        m = re.search(r"vector<(.*?)>", t)
        if m:
            e = m.group(1).strip().rstrip(",").strip()
            e = e.split(", std::allocator")[0]
            return {"size_t": "unsigned long"}.get(e, e)
        m = re.match(r"(.*?)\s*\*", t)
        if m: return canon(m.group(1)).strip()
        m = re.search(r"__normal_iterator<(?:const )?(.*?) ?\*", t)
        if m: return {"size_t": "unsigned long"}.get(m.group(1), m.group(1))
        raise Unsupported("element type of " + t)
    def f_inner_product(self, st, args, n, want_ref):
        a, b, c, init = self.vals(st, args[:4])
        if len(args) > 4: raise Unsupported("inner_product with function objects")
        acc_t = strip_ref(ctype(n["type"]))
        pa, ia, pb, ib = self.iter_range(st, a, b)
        pc, ic = (c.path, c.pos) if isinstance(c, VecIter) else (c.path, c.off)
        v, w = st.read(pa), st.read(pc)
        ea, ec = self.elem_type(args[0]), self.elem_type(args[2])
        if not (isinstance(v, CVec) and isint(ia) and isint(ib) and isint(ic) and isinstance(w, CVec)): raise Unsupported("inner_product of symbolic length")
        acc = init
        for k in range(ib - ia):
            if ic + k >= w.len:
                self.safety(st, "inner_product within bounds", False, n); raise Unsupported("inner_product out of bounds")
            x, y = v.items[ia + k], w.items[ic + k]
            t1 = usual(ea, ec)
            if t1 in FLOATS: pr = self.arith(st, "*", R(x), R(y), t1, n)
            else: pr = self.arith(st, "*", self.to_type(st, x, ea, t1), self.to_type(st, y, ec, t1), t1, n)
            t2 = usual(acc_t, t1)
            if t2 in FLOATS: acc = R(add(R(acc), R(pr)))
            else:
                s = self.arith(st, "+", self.to_type(st, acc, acc_t, t2), self.to_type(st, pr, t1, t2), t2, n)
                acc = self.narrow(st, s, t2, acc_t, n) if acc_t in INTS else R(s)
        return acc
    def f_atof(self, st, args, n, want_ref): return self.strtab.fn("atof", REAL)(Z(self.rv(st, args[0]))) if self.strtab is not None else self.uns("atof")
    def f_atoi(self, st, args, n, want_ref):
        if self.strtab is None: raise Unsupported("atoi")
        r = self.strtab.fn("atoi", INT)(Z(self.rv(st, args[0])))
        st.assume(band(ge(r, -2**31), le(r, 2**31 - 1))); return r
    def f_isdigit(self, st, args, n, want_ref):
        c = self.rv(st, args[0]); return ite(band(ge(c, 48), le(c, 57)), 1, 0)
    def f_abs(self, st, args, n, want_ref):
        v = self.rv(st, args[0]); t = strip_ref(ctype(n["type"]))
        if isint(v) or isinstance(v, Fraction): return abs(v)
        if t in INTS: self.safety(st, "abs does not overflow", gt(v, -(1 << (INTS[t][0] - 1))), n)
        if self.eng.entails(st, ge(v, 0), 500): return v
        if self.eng.entails(st, le(v, 0), 500): return simp_lin(neg(v)) if t in INTS else neg(v)
        return ite(ge(v, 0), v, neg(v))
    f_fabs = f_abs
    def f_max(self, st, args, n, want_ref):
        if not args: return {"double": DBLMAX, "int": 2**31 - 1, "unsigned long": 2**64 - 1}[strip_ref(ctype(n["type"]))]
        a, b = self.vals(st, args); return ite(lt(a, b), b, a)
    def f_min(self, st, args, n, want_ref):
        if not args: return {"double": Fraction(1, 2**1022), "int": -2**31, "unsigned long": 0}[strip_ref(ctype(n["type"]))]
        a, b = self.vals(st, args); return ite(lt(b, a), b, a)
    def f_lowest(self, st, args, n, want_ref): return {"double": -DBLMAX, "int": -2**31}[strip_ref(ctype(n["type"]))]
    def f_move(self, st, args, n, want_ref): return self.rv(st, args[0])
    f_forward = f_move
    def f_make_pair(self, st, args, n, want_ref): return Obj("pair", {"first": self.rv(st, args[0]), "second": self.rv(st, args[1])})
    def f_swap(self, st, args, n, want_ref):
        p, q = self.ref_of(st, args[0]), self.ref_of(st, args[1])
        a, b = st.read(p), st.read(q); st.write(p, b); st.write(q, a)
    def f_fill(self, st, args, n, want_ref):
        a, b, x = self.vals(st, args)
        pa, ia, pb, ib = self.iter_range(st, a, b)
        v = st.read(pa)
        et = self.elem_type(args[0])
        if et in FLOATS: x = R(x)
        if isinstance(v, CVec) and isint(ia) and isint(ib): st.write(pa, CVec(v.items[:ia] + (x,) * (ib - ia) + v.items[ib:])); return
        st.write(pa, v.with_layer(Layer(lambda i: band(ge(i, ia), lt(i, ib)), lambda i: x)) if isinstance(v, SVec) else self.uns("fill"))
    def f_copy(self, st, args, n, want_ref):
        a, b, d = self.vals(st, args)
        pa, ia, pb, ib = self.iter_range(st, a, b)
        pd, i0 = (d.path, d.pos) if isinstance(d, VecIter) else (d.path, d.off)
        src, dst = st.read(pa), st.read(pd)
        cnt = sub(ib, ia)
        self.safety(st, "copy within bounds", band(ge(ia, 0), le(ib, src.len), le(add(i0, cnt), dst.len)), n)
        if isinstance(dst, CVec) and isinstance(src, CVec) and all(isint(x) for x in (ia, ib, i0)):
            st.write(pd, CVec(dst.items[:i0] + src.items[ia:ib] + dst.items[i0 + ib - ia:])); return
        if not isinstance(dst, SVec): raise Unsupported("copy into %r" % type(dst).__name__)
        st.write(pd, dst.with_layer(Layer(lambda i: band(ge(i, i0), lt(i, add(i0, cnt))), lambda i: src.get(add(sub(i, i0), ia)))))
    def f_distance(self, st, args, n, want_ref):
        a, b = self.vals(st, args)
        pa, ia, pb, ib = self.iter_range(st, a, b); return sub(ib, ia)
    def f_sqrt(self, st, args, n, want_ref):
        v = R(self.rv(st, args[0]))
        self.eng.oblige(st, "%s: square root of a non-negative value" % self.fname, "safety", ge(v, 0), self.loc(n))
        return SQRT(Z(v))
    def f_sin(self, st, args, n, want_ref): return SIN(Z(R(self.rv(st, args[0]))))
    def f_cos(self, st, args, n, want_ref): return COS(Z(R(self.rv(st, args[0]))))
    def f_omp_get_thread_num(self, st, args, n, want_ref): return self.eng.fresh("tid")
    def f_omp_get_num_threads(self, st, args, n, want_ref): return self.eng.fresh("nth")
    f_omp_get_max_threads = f_omp_get_num_threads
    def f_exit(self, st, args, n, want_ref): raise Unsupported("exit")

    # ------------------------------------------------------------------ statements
    def exec(self, st, n):
        """execute in place; returns an Outcome"""
        m = getattr(self, "s_" + n["kind"], None)
        if m is not None: return m(st, n)
        if n["kind"].endswith("Expr") or n["kind"].endswith("Operator"):
            if n.get("valueCategory") in ("lvalue", "xvalue") and n["kind"] not in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr", "BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "ExprWithCleanups"): self.ref_of(st, n)
            else: self.eval(st, n, True) if n["kind"] in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr") else self.eval(st, n)
            return Outcome(st)
        raise Unsupported("statement " + n["kind"])
    def s_ExprWithCleanups(self, st, n): return self.exec(st, n["inner"][0])
    def s_CompoundStmt(self, st, n):
        cur = st; exits = []
        for c in n.get("inner", []):
            o = self.exec(cur, c)
            exits += o.exits
            if o.normal is None: return Outcome(None, exits)
            cur = o.normal
        return Outcome(cur, exits)
    def s_NullStmt(self, st, n): return Outcome(st)
    def s_AttributedStmt(self, st, n): return self.exec(st, n["inner"][-1])
    def s_DeclStmt(self, st, n):
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl": self.declare(st, d)
            elif d["kind"] in ("TypedefDecl", "UsingDecl", "StaticAssertDecl", "TypeAliasDecl", "EmptyDecl"): pass
            else: raise Unsupported("declaration " + d["kind"])
        return Outcome(st)
    def constant(self, d, init, raw):
        """a static constant with a constant initialiser: the same in every call"""
        def lit(x):
            if x["kind"] == "DeclRefExpr": return x.get("referencedDecl", {}).get("kind") in ("EnumConstantDecl", "NonTypeTemplateParmDecl")
            if x["kind"] in ("CallExpr", "CXXMemberCallExpr", "CXXThisExpr", "CXXOperatorCallExpr"): return False
            return all(lit(y) for y in x.get("inner", []))
        return (raw.startswith("const ") or d.get("constexpr")) and bool(init) and lit(init[0])
    def statics(self):
        """static local variables of the repository's functions: declaration -> location"""
        if getattr(self.tu, "statics_", None) is None:
            out = {}
            def walk(x):
                if not isinstance(x, dict): return
                if x.get("kind") == "VarDecl" and x.get("storageClass") == "static": out[x["id"]] = ("static:%s" % x["name"], x)
                for y in x.get("inner", []): walk(y)
            for f in self.tu.funcs:
                if f.body is not None and f.name != "main": walk(f.body)
            self.tu.statics_ = {k: ("%s#%s" % (r, k[-6:]), x) for k, (r, x) in out.items()}
        return {k: r for k, (r, x) in self.tu.statics_.items()}
    def make_statics(self, st):
        """they exist before any call and hold what an earlier one left"""
        self.statics()
        for r, x in self.tu.statics_.values():
            if r in st.vars: continue
            v = self.anything(ctype(x["type"]), x["name"])
            if v is not None: st.vars[r] = v
    def anything(self, t, nm):
        t = strip_ref(t or "")
        if t in INTS:
            v = self.eng.fresh("static_" + nm, BOOL if t == "bool" else INT)
            return v
        if t in FLOATS: return self.eng.fresh("static_" + nm, REAL)
        v = default_value(self, t, False) if t.startswith("std::array<") or t.endswith("]") else None
        if not isinstance(v, CVec): return None
        e = t[11:-1].rsplit(",", 1)[0].strip() if t.startswith("std::array<") else t[:t.rindex("[")].strip()
        its = [self.anything(e, nm) for _ in v.items]
        return None if any(i is None for i in its) else CVec(its)
    def declare(self, st, d):
        t = ctype(d["type"])
        raw = d["type"].get("desugaredQualType") or d["type"]["qualType"]
        init = [x for x in d.get("inner", []) if not x["kind"].endswith("Attr")]
        if d.get("storageClass") == "static" and not self.constant(d, init, raw):
            root = self.statics().get(d["id"])       # keeps the value of an earlier call: anything of its type
            if root is None or root not in st.vars: raise Unsupported("static local variable")
            self.frames[-1][d["id"]] = (root,)
            return
        if raw.rstrip().endswith("&"):
            x = init[0]
            path = self.ref_of(st, x) if x.get("valueCategory") in ("lvalue", "xvalue") and x["kind"] not in ("MaterializeTemporaryExpr",) else self.temp(st, x)
            self.frames[-1][d["id"]] = self.resolve(st, path) or path
            return
        root = "%s#%s" % (d["name"], d["id"][-6:] + ("." + str(len(self.funcstack)) if len(self.funcstack) > 1 else ""))
        if init:
            v = self.rv(st, init[0])
            if isinstance(v, Ref): v = self.read(st, v.path)
            if t in INTS and t != "bool" and not INTS[t][1]: v = self.norm(st, v, t)
            if t in FLOATS and is_num(v): v = R(v)
            if isinstance(v, CVec) and t.startswith("std::array") : pass
        else: v = default_value(self, t, False)
        st.vars[root] = v
        self.frames[-1][d["id"]] = (root,)
    def cond_of(self, st, n):
        v = self.rv(st, n)
        if isint(v): return v != 0
        return v
    def s_IfStmt(self, st, n):
        inner = list(n["inner"])
        if n.get("hasInit"):
            o = self.exec(st, inner[0]); inner = inner[1:]; st = o.normal
        if n.get("hasVar"): raise Unsupported("declaration in condition")
        c = self.cond_of(st, inner[0])
        th = inner[1]; el = inner[2] if len(inner) > 2 else None
        return self.branch(st, c, lambda s: self.exec(s, th), (lambda s: self.exec(s, el)) if el is not None else (lambda s: Outcome(s)))
    def branch(self, st, c, fa, fb):
        d = self.eng.decide(st, c, 500) if is_z(unz(c)) else unz(c)
        if d is True: return fa(st)
        if d is False: return fb(st)
        sa = st.copy(); sa.assume(c); oa = fa(sa)
        sb = st.copy(); sb.assume(bnot(c)); ob = fb(sb)
        exits = [(k, band(c, g), s, v) for k, g, s, v in oa.exits] + [(k, band(bnot(c), g), s, v) for k, g, s, v in ob.exits]
        if oa.normal is None: return Outcome(ob.normal, exits)
        if ob.normal is None: return Outcome(oa.normal, exits)
        return Outcome(merge_states(c, oa.normal, ob.normal), exits)
    def s_ReturnStmt(self, st, n):
        v = None
        if n.get("inner"):
            x = n["inner"][0]
            v = self.rv(st, x)
            if isinstance(v, Ref): v = self.read(st, v.path)
        return Outcome(None, [("return", True, st, v)])
    def s_BreakStmt(self, st, n): return Outcome(None, [("break", True, st, None)])
    def s_ContinueStmt(self, st, n): return Outcome(None, [("continue", True, st, None)])
    def loop_body(self, body, inc):
        def f(s):
            o = self.exec(s, body)
            acc = o.normal
            rest = []
            for e in reversed(o.exits):
                if e[0] == "continue":
                    acc = e[2] if acc is None or e[1] is True else merge_states(e[1], e[2], acc)
                else: rest.append(e)
            if acc is not None and inc is not None:
                o2 = self.exec(acc, inc)
                acc = o2.normal
            return Outcome(acc, list(reversed(rest)))
        return f
    def s_ForStmt(self, st, n, parallel=None, private=()):
        init, var, cond, inc, body = n["inner"]
        if init.get("kind"):
            o = self.exec(st, init); st = o.normal
        saved = {}; roots = set()
        if parallel:
            roots = {r for r, u in private}
            saved = self.enter_private(st, private)
            if init.get("kind") == "DeclStmt": roots |= {self.lookup(d["id"])[0] for d in init.get("inner", []) if d.get("kind") == "VarDecl"}
            elif init.get("kind") == "BinaryOperator": roots.add(self.ref_of(st, init["inner"][0])[0])
            if self.omp: roots |= set(st.vars) - self.omp[-1]["shared"]     # declared inside the parallel region: one copy per thread
        cf = (lambda s: self.cond_of(s, cond)) if cond.get("kind") else (lambda s: True)
        bf = self.loop_body(body, inc if inc.get("kind") else None)
        line = self.loc(n)
        o = self.loop(st, cf, bf, "loop in %s" % self.fname, parallel, roots)
        if o.normal is not None: self.leave_private(o.normal, saved)
        return o
    def loop(self, st, cf, bf, name, parallel=None, private=()):
        # iteration over the entries of a finite map: entries that may be absent are skipped
        def bf2(s):
            its = [(r, v) for r, v in s.vars.items() if isinstance(v, MapIter) and not r.startswith("tmp#") and isinstance(s.vars.get(v.path[0]), (Obj, CMap))]
            for r, v in its:
                m = s.read(v.path)
                if isinstance(m, CMap) and isint(v.pos) and v.pos < len(m.keys()) and self.active_iter(r):
                    p = m.entries[m.keys()[v.pos]][0]
                    d = self.eng.decide(s, p, 500) if is_z(p) else p
                    if d is True: continue
                    def skip(x, r=r, v=v):
                        x.vars[r] = MapIter(v.path, v.pos + 1); return Outcome(x)
                    if d is False: return skip(s)
                    return self.branch(s, p, bf, skip)
            for r, v in s.vars.items():
                if isinstance(v, MapIter) and not r.startswith("tmp#") and self.active_iter(r):
                    try: m = s.read(v.path)
                    except Unsupported: continue
                    if isinstance(m, SMap) and getattr(m, "cases", None) is not None and getattr(m, "case", None) is None: return self.by_case(s, v, m, bf)
            return bf(s)
        self.iter_depth = getattr(self, "iter_depth", 0)
        return run_loop(self.eng, st, cf, bf2, name, parallel, private)
    def active_iter(self, r): return True
    def by_case(self, st, v, m, bf):
        """one iteration over a symbolic map whose entries are of one of finitely many shapes"""
        acc = None; exits = []
        before = bnot(True)
        for cond, hyps, mc in m.cases(v.pos):
            s = st.copy(); s.assume(cond)
            for h in hyps: s.assume(h)
            s.write(v.path, mc)
            o = bf(s)
            for k, g, x, val in o.exits: x.write(v.path, m); exits.append((k, band(cond, g), x, val))
            if o.normal is not None:
                o.normal.write(v.path, m)
                acc = o.normal if acc is None else merge_states(cond, o.normal, acc)
        return Outcome(acc, exits)
    def s_WhileStmt(self, st, n):
        cond, body = n["inner"][-2], n["inner"][-1]
        return self.loop(st, lambda s: self.cond_of(s, cond), self.loop_body(body, None), "loop in %s" % self.fname)
    def s_DoStmt(self, st, n):
        body, cond = n["inner"]
        bf = self.loop_body(body, None)
        o = bf(st)
        brk = [e for e in o.exits]
        if o.normal is None: return finish(Outcome(None, brk))
        o2 = self.loop(o.normal, lambda s: self.cond_of(s, cond), bf, "loop in %s" % self.fname)
        return finish(Outcome(o2.normal, brk + o2.exits))
    def s_CXXForRangeStmt(self, st, n):
        ds = [c for c in n["inner"] if c.get("kind") == "DeclStmt"]
        body = n["inner"][-1]
        rng = ds[0]["inner"][0]; x = rng["inner"][0]
        path = self.ref_of(st, x) if x.get("valueCategory") in ("lvalue", "xvalue") else self.temp(st, x)
        path = self.resolve(st, path) or path
        v = st.read(path)
        lv = ds[-1]["inner"][0]
        byref = (lv["type"].get("desugaredQualType") or lv["type"]["qualType"]).rstrip().endswith("&")
        it = self.fresh_root("rng")
        if isinstance(v, (CMap, SMap)) or isinstance(v, Obj) and v.cls == "omap":
            st.vars[it] = MapIter(path, 0)
            end = len(v.keys()) if isinstance(v, CMap) else v.n if isinstance(v, SMap) else v.fields["n"]
            def cf(s): return lt(s.vars[it].pos, end)
            def bf(s):
                q = self.deref(s, s.vars[it], n)
                self.frames[-1][lv["id"]] = q
                o = self.loop_body(body, None)(s)
                if o.normal is not None: o.normal.vars[it] = MapIter(path, add(o.normal.vars[it].pos, 1))
                return o
            return self.loop(st, cf, bf, "loop in %s" % self.fname)
        st.vars[it] = 0
        def cf(s): return lt(s.vars[it], s.read(path).len)
        def bf(s):
            q = path + (("i", s.vars[it]),)
            if byref: self.frames[-1][lv["id"]] = q
            else:
                r = lv["name"] + "#" + lv["id"][-6:]
                s.vars[r] = s.read(q); self.frames[-1][lv["id"]] = (r,)
            o = self.loop_body(body, None)(s)
            if o.normal is not None:
                o.normal.vars[it] = add(o.normal.vars[it], 1)
            return o
        return self.loop(st, cf, bf, "loop in %s" % self.fname)
    # OpenMP
    def captured(self, n):
        """statement under an OpenMP directive"""
        for c in n.get("inner", []):
            if c.get("kind") == "CapturedStmt":
                x = c["inner"][0]
                while x["kind"] == "CapturedDecl" : x = next(y for y in x["inner"] if y["kind"].endswith("Stmt") or y["kind"].endswith("Directive"))
                if x["kind"] == "CapturedStmt": return self.captured({"inner": [x]})
                return x
        for c in n.get("inner", []):
            if c.get("kind", "").endswith("Stmt") or c.get("kind", "").endswith("Directive"): return c
        raise Unsupported("OpenMP directive")
    def omp_clauses(self, n):
        """clauses of the directive, from the source text (clang's tree dump does not name them)"""
        from .directives import clauses
        r = n["range"]; b, e = r["begin"], r["end"]
        t = self.tu.text[b["offset"]:e["offset"]] if "offset" in b and "offset" in e and "includedFrom" not in b else ""
        m = re.match(r"#?\s*(?:pragma\s+)?omp\b", t)
        if not m: raise Unsupported("OpenMP directive outside the main file")
        cl = clauses(t[m.end():].replace("\\\n", " "))
        while cl and cl[0][1] is None and cl[0][0] in ("parallel", "for", "simd", "sections", "single", "master", "critical", "barrier", "atomic", "task"): cl.pop(0)
        return cl
    def omp_private(self, n):
        """[(root, kind)] of the private, lastprivate and reduction variables"""
        roots = {}
        def refs(x):
            if isinstance(x, dict):
                if x.get("kind") == "DeclRefExpr": roots.setdefault(x["referencedDecl"]["name"], x["referencedDecl"]["id"])
                for y in x.get("inner", []): refs(y)
        for c in n.get("inner", []):
            if not c.get("kind"): refs(c)
        out = []
        for nm, arg in self.omp_clauses(n):
            if nm in ("private", "firstprivate", "lastprivate", "reduction"):
                if nm == "reduction": arg = arg.split(":")[-1]
                for v in arg.split(","):
                    v = v.strip()
                    p = self.lookup(roots.get(v)) if v in roots else None
                    if p is None or len(p) != 1: raise Unsupported("%s clause on %s" % (nm, v))
                    out.append((p[0], nm))
            elif nm not in ("schedule", "num_threads", "shared", "default", "nowait", "proc_bind", "simdlen", "safelen", "aligned", "if"):
                raise Unsupported("OpenMP clause " + nm)
        return out
    def s_OMPParallelDirective(self, st, n):
        priv = self.omp_private(n)
        outer = set(st.vars)
        self.omp.append({"kind": "region", "shared": outer - {r for r, u in priv}, "ws": 0})
        saved = self.enter_private(st, priv)
        try: o = self.exec(st, self.captured(n))
        finally: self.omp.pop()
        if o.normal is not None: self.leave_private(o.normal, saved)
        return o
    def enter_private(self, st, priv):
        saved = {}
        for r, kind in priv:
            if kind in ("private", "firstprivate"): saved[r] = st.vars[r]
            if kind in ("private", "lastprivate"): st.vars[r] = undef_deep(st.vars[r])
        return saved
    def leave_private(self, st, saved):
        for r, v in saved.items(): st.vars[r] = v
    def s_OMPForDirective(self, st, n):
        priv = self.omp_private(n)
        nowait = any(nm == "nowait" for nm, a in self.omp_clauses(n))
        if nowait: self.omp_nowait(st, n)
        if self.omp: self.omp[-1]["ws"] += 1
        try: o = self.s_ForStmt(st, self.captured(n), "omp for", priv)
        finally:
            if self.omp: self.omp[-1]["ws"] -= 1
        return o
    def omp_nowait(self, st, n):
        self.eng.oblige(st, "%s: work-sharing loop ends with a barrier (nowait removed it)" % self.fname, "race", False, self.loc(n))
    def s_OMPParallelForDirective(self, st, n):
        return self.s_ForStmt(st, self.captured(n), "omp parallel for", self.omp_private(n))
    def s_OMPSimdDirective(self, st, n): return self.s_ForStmt(st, self.captured(n), "omp simd", self.omp_private(n))
    s_OMPForSimdDirective = s_OMPForDirective
    s_OMPParallelForSimdDirective = s_OMPParallelForDirective
    def s_OMPBarrierDirective(self, st, n): return Outcome(st)

# ---------------------------------------------------------------------- misc
SQRT = z3.Function("sqrt", REAL, REAL); SIN = z3.Function("sin", REAL, REAL); COS = z3.Function("cos", REAL, REAL)
DBLMAX = Fraction((2**53 - 1) * 2**971)
def is_num(v): return is_z(v) or isinstance(v, (int, Fraction))
def ssum(xs):
    r = 0
    for x in xs: r = add(r, x)
    return r
def as_bool(x):
    if isinstance(x, bool): return x
    if isint(x): return {0: False, 1: True}.get(x)
    if is_z(x):
        if x.sort() == BOOL: return x
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            a, b = unz(x.arg(1)), unz(x.arg(2))
            if a == 1 and b == 0 and isint(a) and isint(b): return x.arg(0)
            if isint(a) and isint(b) and a == 0 and b == 1: return bnot(x.arg(0))
            p, q = as_bool(a), as_bool(b)
            if p is not None and q is not None: return ite(x.arg(0), p, q)
    return None
FL32 = z3.Function("to_float", REAL, REAL)
def fl32(v):
    """rounding to single precision: an uninterpreted function (exact on values it can hold)"""
    import struct
    if not is_z(v):
        f = Fraction(struct.unpack("f", struct.pack("f", float(v)))[0]) if abs(v) < 2**127 else None
        if f is not None: return f
    return FL32(Z(R(v)))
def simp_lin(t):
    if not is_z(t): return t
    return unz(z3.simplify(t, som=True, flat=True))
def usual(a, b):
    """usual arithmetic conversions"""
    if a in FLOATS or b in FLOATS: return "float" if "double" not in (a, b) and "long double" not in (a, b) else "double"
    wa, sa = INTS[a]; wb, sb = INTS[b]
    if wa < 32: a, wa, sa = "int", 32, True
    if wb < 32: b, wb, sb = "int", 32, True
    if wa == wb: return a if not sa else b
    return a if wa > wb else b
def key_value(k):
    return CVec(k) if isinstance(k, tuple) else k
def ptr_to(p):
    q = Ptr(p, 0); q.scalar = True
    return q
def undef_deep(v):
    if isinstance(v, CVec): return CVec([undef_deep(x) for x in v.items])
    if isinstance(v, Obj): return Obj(v.cls, {k: undef_deep(x) for k, x in v.fields.items()})
    if isinstance(v, SVec): return SVec(v.len, lambda i: UNDEF, (), None, v.rank)
    return UNDEF
def default_value(I, t, zero):
    t = strip_ref(t or "")
    if I is not None and t in I.defaults: return I.defaults[t](I)
    if t in INTS: return (False if t == "bool" else 0) if zero else UNDEF
    if t in FLOATS: return Fraction(0) if zero else UNDEF
    if t.startswith("std::vector<"): return CVec([])
    tab = getattr(I, "strtab", None)
    if t.startswith("std::map<") and tab is not None: return tab.empty_map(t)
    if t.startswith("std::map<"): return CMap()
    if t.startswith("std::basic_string"): return "" if tab is None else tab.lit("")
    if t.endswith("*") or t.endswith("* const"): return NULL if zero else UNDEF
    if t.startswith("std::array<"):
        a = t[11:-1].rsplit(",", 1)
        return CVec([default_value(I, a[0].strip(), zero)] * int(a[1].strip().rstrip("UL")))
    if t.startswith("std::basic_ofstream") or t.startswith("std::basic_fstream") or t in ("std::fstream", "std::ofstream"): return Stream()
    if t.endswith("]"):
        e, k = t[:t.rindex("[")].strip(), t[t.rindex("[") + 1:-1]
        return CVec([default_value(I, e, zero)] * int(k))
    if t.startswith("std::pair<"): return Obj("pair", {"first": UNDEF, "second": UNDEF})
    if I is not None and t in I.tu.fields:
        return Obj(t, {nm: default_value(I, ft, zero) for nm, ft, d in I.tu.fields[t]})
    if "iterator" in t or t.startswith("std::_Rb_tree"): return UNDEF
    if t in ("MPI_Win", "ompi_win_t *"): return UNDEF
    return UNDEF
Engine.ptr_watch = None
