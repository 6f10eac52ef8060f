"""Fortran front end.  gfortran's own parse of the real source (-fdump-fortran-original, after preprocessing) is read
back into a syntax tree, and the procedures in it are executed symbolically against vcg.core: what is verified is the
program the compiler parsed, not a transcription of it."""
import re, subprocess, tempfile, shutil, os
from .core import *
from .loops import run_loop, finish, Outcome, pname, mkfn, LoopRec, tup
from .directives import clauses
from . import cppfe
from .cppfe import SQRT, SIN, COS, undef_deep

# ----------------------------------------------------------------------------- dump -> tokens -> tree
TOK = re.compile(r"""(?P<ws>\s+)
 |(?P<str>'(?:[^']|'')*')
 |(?P<omp>!\$OMP[^\n]*)
 |(?P<num>-?\d+(?:\.\d*)?(?:[eEdD][+-]?\d+)?(?:_\d+)?)
 |(?P<log>\.(?:true|false)\.(?:_\d+)?)
 |(?P<name>[A-Za-z_][\w@.]*(?::[A-Za-z_]\w*)?)
 |(?P<op>\[\[|\]\]|\(/(?=\s|\d)|/\)|\*\*|//|==|/=|<=|>=|=>|[-+*/<>=()\[\],:%])""", re.X)
class Tk:
    __slots__ = ("k", "s", "sp", "nl")
    def __init__(self, k, s, sp, nl): self.k, self.s, self.sp, self.nl = k, s, sp, nl
    def __repr__(self): return self.s
def lex(text):
    out = []; i = 0; sp = nl = True; prev = None
    while i < len(text):
        m = TOK.match(text, i)
        if not m: raise Unsupported("Fortran dump: %r" % text[i:i + 30])
        k = m.lastgroup; s = m.group()
        if k == "ws":
            sp = True; nl = nl or "\n" in s; i = m.end(); continue
        if k == "num" and s[0] == "-" and not sp and prev is not None and prev.s not in ("(", ":", "=", ","):   # only a sign after an opening
            k = "op"; s = "-"
        if k == "op" and s == "(/": s = "("
        out.append(Tk(k, s, sp, nl)); prev = out[-1]
        i += len(s); sp = nl = False
    out.append(Tk("end", "", True, True))
    return out
OPS = {"+", "-", "*", "/", "**", "//", "==", "/=", "<", "<=", ">", ">=", "U", "AND", "OR", "NOT", "EQV", "NEQV", "parens"}

class Parser:
    def __init__(self, text): self.t = lex(text); self.i = 0
    @property
    def c(self): return self.t[self.i]
    def peek(self, s, k=0): return self.t[min(self.i + k, len(self.t) - 1)].s == s
    def eat(self, s=None):
        t = self.c
        if s is not None and t.s != s: raise Unsupported("Fortran dump: %r instead of %r" % (t.s, s))
        self.i += 1; return t
    def take(self, s):
        if self.c.s == s and self.c.k != "str": self.i += 1; return True
        return False
    # -- expressions
    def expr(self):
        t = self.c
        if t.k == "str": self.eat(); return ("str", t.s[1:-1].replace("''", "'"))
        if t.k == "num":
            self.eat(); s = re.sub(r"_\d+$", "", t.s)
            if re.fullmatch(r"-?\d+", s): return ("num", int(s))
            return ("num", Fraction(repr(float(s.lower().replace("d", "e")))))
        if t.k == "log": self.eat(); return ("num", "true" in t.s)
        if t.s == "(":
            self.eat(); o = self.c
            if o.s == ")": self.eat(); return None
            if o.s == "/" :
                self.eat(); first = self.expr()
                if self.peek(",") or self.peek("/)"):
                    items = [first]
                    while self.take(","): items.append(self.expr())
                    self.eat("/)"); return ("arr", items)
                second = self.expr(); self.eat(")"); return ("op", "/", [first, second])
            if o.s == "U": self.eat(); op = "U" + self.eat().s
            elif o.s in OPS and o.k in ("op", "name"): self.eat(); op = o.s
            elif o.k == "name" and o.s == "arg" and self.peek("not", 1):
                self.eat(); self.eat(); self.eat("-"); self.eat("present"); self.eat(")"); return None
            elif o.k == "num" and o.s.startswith("-") : raise Unsupported("Fortran dump: complex constant")
            else: raise Unsupported("Fortran dump: expression (%s" % o.s)
            args = []
            while not self.peek(")"): args.append(self.expr())
            self.eat(")"); return ("op", op, args)
        if t.k == "name": return self.designator()
        raise Unsupported("Fortran dump: expression %r" % t.s)
    def designator(self):
        name = self.eat().s; parts = []
        while True:
            t = self.c
            if t.s == "(" and not t.sp:
                # structure constructors and null() look like subscripts
                if ":" not in name and not parts: return ("cons", name, self.paren_list())
                parts.append(self.subs())
            elif t.s == "%": self.eat(); parts.append(("f", self.eat().s))
            elif t.s in ("[[", "[") and not t.sp: return ("call", name, parts, self.call_args())
            else: return ("var", name, parts)
    def paren_list(self):
        self.eat("("); out = []
        while not self.take(")"):
            out.append(self.expr()); self.take(",")
        return out
    def subs(self):
        self.eat("(")
        if self.peek("FULL"): self.eat(); self.eat(")"); return ("full",)
        out = []
        while True:
            lo = hi = step = None; rng = False
            if not self.peek(":") and not self.peek(",") and not self.peek(")"): lo = self.expr()
            if self.take(":"):
                rng = True
                if not self.peek(",") and not self.peek(")") and not self.peek(":"): hi = self.expr()
                if self.take(":"): step = self.expr()
            out.append(("range", lo, hi, step) if rng else lo)
            if self.take(")"): return ("sub", out)
            self.eat(",")
    def call_args(self):
        o = self.eat().s; cl = "]]" if o == "[[" else "]"
        if self.peek(cl): self.eat(); return []
        a = self.args(); self.eat(cl); return a
    def args(self):
        """((a) (b) ((arg not-present)))"""
        self.eat("("); out = []
        while not self.take(")"):
            self.eat("(")
            if self.peek(")"): out.append(None); self.eat(); continue
            if self.c.k == "name" and not self.c.s.count(":") and self.peek("=", 1): self.eat(); self.eat()      # keyword
            out.append(self.expr()); self.eat(")")
        return out
    # -- statements
    def block(self, *ends):
        out = []
        while True:
            if self.c.k == "end": return out
            if self.at(ends): return out
            out.append(self.stmt())
    def at(self, ends):
        for e in ends:
            w = e.split()
            if e.startswith("!"):
                if self.c.k == "omp" and re.match(re.escape(e) + r"\b", self.c.s): return True
            elif all(self.peek(x, k) and self.t[self.i + k].k == "name" for k, x in enumerate(w)): return True
        return False
    def eats(self, s):
        for w in s.split(): self.eat(w)
    def stmt(self):
        t = self.c
        if t.k == "omp": return self.omp()
        if t.k != "name": raise Unsupported("Fortran dump: statement %r" % t.s)
        m = getattr(self, "p_" + t.s, None)
        if m is None: raise Unsupported("Fortran statement " + t.s)
        self.eat(); return m()
    def p_ASSIGN(self): l = self.expr(); return ("assign", l, self.expr())
    def p_INIT_ASSIGN(self): return self.p_ASSIGN()
    def p_POINTER(self): self.eat("ASSIGN"); l = self.expr(); return ("ptr", l, self.expr())
    def p_NOP(self): return ("nop",)
    def p_CONTINUE(self): return ("nop",)
    def p_NULLIFY(self):
        out = []
        while self.c.k == "name" and ":" in self.c.s: out.append(self.expr())
        return ("nullify", out)
    def p_ALLOCATE(self):
        opt = {}; objs = []
        while self.c.k == "name":
            if self.peek("=", 1): k = self.eat().s; self.eat("="); opt[k] = self.expr()
            elif ":" in self.c.s: objs.append(self.expr())
            else: break
        return ("allocate", objs, opt)
    def p_DEALLOCATE(self): return ("deallocate",) + self.p_ALLOCATE()[1:]
    def p_DO(self):
        if self.take("WHILE"):
            c = self.expr(); b = self.block("END DO"); self.eats("END DO"); return ("while", c, b)
        if self.take("CONCURRENT"):
            idx = []
            while True:
                v = self.expr(); lo = self.expr(); self.eat(":"); hi = self.expr(); self.eat(":")
                step = None if self.peek("(") and self.peek(")", 1) else self.expr()
                if self.peek("(") and self.peek(")", 1): self.eat(); self.eat()
                idx.append((v, lo, hi, step))
                if not self.take(","): break
            mask = None
            b = self.block("END DO"); self.eats("END DO"); return ("concurrent", idx, b)
        v = self.expr(); self.eat("="); lo = self.expr(); hi = self.expr(); step = self.expr()
        b = self.block("END DO"); self.eats("END DO"); return ("do", v, lo, hi, step, b)
    def p_IF(self):
        c = self.expr(); b = self.block("ELSE", "ENDIF")
        if self.take("ENDIF"): return ("if", c, b, [])
        self.eat("ELSE")
        if self.peek("IF") and not self.c.nl: self.eat(); return ("if", c, b, [self.p_IF()])
        e = self.block("ENDIF"); self.eat("ENDIF"); return ("if", c, b, e)
    def p_CALL(self):
        n = self.designator_call(); return n
    def designator_call(self):
        name = self.eat().s; parts = []
        while self.take("%"): parts.append(("f", self.eat().s))
        return ("callstmt", name, parts, self.args() if self.peek("(") else [])
    def p_SELECT(self):
        if not self.take("CASE"): raise Unsupported("SELECT TYPE")
        e = self.expr(); cases = []
        while self.take("CASE"):
            labels = []
            while self.peek("("):
                self.eat(); lo = self.expr(); hi = self.expr(); self.eat(")"); labels.append((lo, hi))
            cases.append((labels, self.block("CASE", "END SELECT")))
        self.eats("END SELECT"); return ("select", e, cases)
    def p_WHERE(self):
        arms = []; c = self.expr()
        while True:
            b = self.block("ELSE WHERE", "END WHERE"); arms.append((c, b))
            if self.at(("END WHERE",)): self.eats("END WHERE"); return ("where", arms)
            self.eats("ELSE WHERE"); c = self.expr()
    def p_FORALL(self):
        idx = []
        while True:
            v = self.expr(); lo = self.expr(); self.eat(":"); hi = self.expr(); self.eat(":"); st = self.expr(); idx.append((v, lo, hi, st))
            if not self.take(","): break
        b = self.block("END FORALL"); self.eats("END FORALL"); return ("forall", idx, b)
    def p_ASSOCIATE(self):
        ns = []
        while self.c.k == "name" and self.peek("=", 1): n = self.eat().s; self.eat(); ns.append((n, self.expr()))
        b = self.block("END ASSOCIATE"); self.eats("END ASSOCIATE"); return ("associate", ns, b)
    def p_BLOCK(self): b = self.block("END BLOCK"); self.eats("END BLOCK"); return ("block", b)
    def io(self, what):
        opt = {}
        while self.c.k == "name" and self.peek("=", 1): k = self.eat().s; self.eat(); opt[k] = self.expr()
        items = []
        while not self.take("DT_END"): items.append(self.stmt())
        return (what, opt, items)
    def p_WRITE(self): return self.io("write")
    def p_READ(self): return self.io("read")
    def p_TRANSFER(self): return ("transfer", self.expr())
    def opts(self, what):
        opt = {}
        while self.c.k == "name" and self.peek("=", 1): k = self.eat().s; self.eat(); opt[k] = self.expr()
        return (what, opt)
    def p_OPEN(self): return self.opts("open")
    def p_CLOSE(self): return self.opts("close")
    def p_FLUSH(self): return self.opts("flush")
    def p_RETURN(self): return ("return",)
    def p_EXIT(self): return ("exit",)
    def p_CYCLE(self): return ("cycle",)
    def p_ERROR(self): self.eat("STOP"); return self.p_STOP()
    def p_STOP(self):
        if self.c.k in ("str", "num"): self.eat()
        return ("stop",)
    def omp(self):
        s = self.eat().s; m = re.match(r"!\$OMP\s+((?:(?:PARALLEL|DO|SIMD|SINGLE|CRITICAL|ATOMIC|BARRIER|SECTIONS|SECTION|WORKSHARE|MASTER|MASKED|TARGET|TEAMS|DISTRIBUTE|TASK|TASKWAIT|FLUSH|ORDERED|TASKLOOP|LOOP|DATA|ENTER|EXIT|UPDATE)\b\s*)+)(.*)", s)
        if not m: raise Unsupported("directive " + s)
        kind = m.group(1).strip(); rest = m.group(3) if m.lastindex and m.lastindex >= 3 else m.group(2)
        if kind.startswith("ATOMIC"): return ("omp", "ATOMIC", [], [self.stmt()])
        if kind in ("BARRIER", "TASKWAIT", "FLUSH"): return ("omp", kind, [], [])
        end = "!$OMP END " + kind
        b = self.block(end); nowait = False
        if self.c.k == "omp": nowait = "NOWAIT" in self.eat().s
        cl = clauses(rest.lower())
        if nowait: cl.append(("nowait", None))
        return ("omp", kind, cl, b)

class Decl:
    def __init__(self, name): self.name, self.type, self.attr, self.shape, self.value, self.result, self.host, self.args = name, None, set(), None, None, None, None, None
    @property
    def base(self): return self.type[0] if self.type else "UNKNOWN"
class Comp:
    def __init__(self, name, type_, attr, shape): self.name, self.type, self.attr, self.shape = name, type_, attr, shape
class Proc:
    def __init__(self, name): self.name, self.decls, self.code, self.body, self.formals = name, {}, "", None, None; self.blocks = {}
def parse_type(s):
    w = s.strip("()").split()
    return (w[0], w[1].lower() if len(w) > 1 else "")
def class_name(t):
    if t[0] == "CLASS":
        m = re.match(r"__class_(?:\w+_mod_|\w+?_)?(\w+?)_[tap]$", t[1])
        return m.group(1) if m else t[1]
    return t[1]

class Unit:
    """one Fortran source file as gfortran parsed it"""
    def __init__(self, path, flags=("-cpp", "-fopenmp", "-DHAVE_OPENMP")):
        self.path = path
        d = tempfile.mkdtemp(prefix="verif-f-")
        try:
            r = subprocess.run(["gfortran", "-fdump-fortran-original", "-fsyntax-only"] + list(flags) + [path], cwd=d, capture_output=True, text=True, timeout=120)
        finally: shutil.rmtree(d, ignore_errors=True)
        if r.returncode: raise Unsupported("gfortran does not parse %s: %s" % (path, r.stderr[-300:]))
        with open(path) as f: src = f.read()
        self.src = re.sub(r"(?m)!(?!\$).*$", "", src)
        self.named_exit = re.search(r"(?im)^[^'\"\n]*\b(exit|cycle)[ \t]+[a-z_]\w*", self.src) is not None
        self.newunits = [m.group(1).lower() for m in re.finditer(r"(?i)\bopen\s*\([^)]*?newunit\s*=\s*(\w+)", self.src.replace("&\n", ""))]
        self.procs = {}; self.types = {}; self.bindings = {}; self.formals = {}; self.main = None; self.modules = []
        self.read(r.stdout)
    def read(self, text):
        cur = None; mode = None; dec = None; lines = text.split("\n"); i = 0; open_code = None
        while i < len(lines):
            l = lines[i]; s = l.strip(); i += 1
            if s.startswith("Namespace:"):
                cur = None; mode = "ns"; continue
            if mode == "ns" and s.startswith("procedure name ="):
                nm = s.split("=", 1)[1].strip(); cur = Proc(nm); self.procs[nm] = cur; mode = "decl"; dec = None; continue
            if s == "CONTAINS" or re.fullmatch(r"-{10,}", s): mode = None; continue
            if mode == "decl":
                if s == "code:": mode = "code"; continue
                dec = self.decl_line(cur.decls, dec, s)
            elif mode == "code":
                if s.startswith("symtree:") or re.match(r"(type spec :|attributes:|Array spec:|value:|result:)", s):
                    cur.blockdec = self.decl_line(cur.blocks, getattr(cur, "blockdec", None), s)
                    continue
                cur.code += l + "\n"
        for p in self.procs.values():
            for d in p.decls.values():
                if d.args is not None: self.formals[d.name] = d.args
            if "MODULE" in " ".join(p.decls.get(p.name, Decl("")).attr).split() and p.name not in self.formals: pass
        for p in self.procs.values():
            if p.name.startswith("__") : continue
            d = p.decls.get(p.name)
            if d is not None and "PROGRAM" in d.attr or p.decls and any("MAIN-PROGRAM" in x.attr for x in p.decls.values()): self.main = p.name
        if self.main is None and self.procs:
            last = list(self.procs)[-1]
            c = [n for n in self.procs if not n.startswith("__") and n not in self.formals and self.procs[n].code.strip()]
            if c: self.main = c[-1]
    def decl_line(self, table, dec, s):
        if s.startswith("symtree:"):
            m = re.match(r"symtree: '([^']+)'\s*\|\| symbol: '([^']+)'\s*(?:from namespace '(\w+)')?", s)
            dec = Decl(m.group(2)); dec.host = m.group(3); dec.comps = []
            table.setdefault(m.group(1), dec) if m.group(1).lower() == m.group(1) else table.setdefault("type " + m.group(1), dec)
            return dec
        if dec is None: return None
        if s.startswith("type spec"): dec.type = parse_type(s.split(":", 1)[1].strip())
        elif s.startswith("attributes:"): dec.attr = set(s.split(":", 1)[1].strip().strip("()").replace("(", " ").replace(")", " ").split())
        elif s.startswith("Array spec:"): dec.shape = s.split(":", 1)[1]
        elif s.startswith("value:"): dec.value = s.split(":", 1)[1].strip()
        elif s.startswith("result:"): dec.result = s.split(":", 1)[1].strip()
        elif s.startswith("Formal arglist:"): dec.args = [a for a in s.split(":", 1)[1].split()]
        elif s.startswith("components:"): dec.in_comps = True; self.types[dec.name.lower()] = {}
        elif s.startswith("Procedure bindings"): dec.in_comps = False
        elif s.startswith("PROCEDURE") and "=>" in s:
            m = re.search(r"::\s*(\w+)\s*=>\s*(\w+)", s)
            if m: self.bindings[(dec.name.lower(), m.group(1))] = m.group(2)
        elif s.startswith("(") and getattr(dec, "in_comps", False):
            m = re.match(r"\((\w+) (\([^)]*\))(.*)\)\s*$", s)
            if m:
                rest = m.group(3); sh = re.search(r"DIMENSION (\(.*\))", rest)
                self.types[dec.name.lower()][m.group(1)] = Comp(m.group(1), parse_type(m.group(2)), set(re.findall(r"[A-Z]+", re.sub(r"DIMENSION \(.*", "", rest))), sh.group(1) if sh else None)
        return dec
    def body(self, p):
        if p.body is None:
            P = Parser(p.code); p.body = P.block()
            if P.c.k != "end": raise Unsupported("Fortran dump: trailing %r" % P.c.s)
        return p.body
def shape_of(s):
    """(rank, kind, [(lb, ub)]) of an Array spec"""
    m = re.match(r"\s*\(?(-?\d+) \[\d+\] (AS_\w+)\s*(.*?)\)?\s*$", s.strip(), re.S)
    if not m: raise Unsupported("array spec " + s)
    rank = int(m.group(1)); kind = m.group(2)
    P = Parser(m.group(3).strip()) if m.group(3).strip() else None
    b = []
    if P is not None and kind in ("AS_EXPLICIT", "AS_ASSUMED_SHAPE", "AS_ASSUMED_SIZE"):
        for _ in range(rank):
            lo = P.expr(); hi = P.expr() if P.c.k != "end" else None
            b.append((lo, hi))
    return rank, kind, b

# ----------------------------------------------------------------------------- formats
class Ed:
    """one edit descriptor"""
    def __init__(self, k, w=None, d=None, e=None, s=None): self.k, self.w, self.d, self.e, self.s = k, w, d, e, s
    def __repr__(self): return "%s%s.%s" % (self.k, self.w, self.d)
def parse_format(f):
    """('(' list ')') -> (items, position to revert to)"""
    f = f.strip()
    if not (f.startswith("(") and f.endswith(")")): raise Unsupported("format " + f)
    pos = [1]; revert = [None]
    def ws():
        while f[pos[0]] in " ,": pos[0] += 1
    def group(depth):
        out = []
        while True:
            ws(); c = f[pos[0]]
            if c == ")": pos[0] += 1; return out
            if c in "'\"":
                j = pos[0] + 1; s = ""
                while True:
                    if f[j] == c and f[j + 1:j + 2] == c: s += c; j += 2; continue
                    if f[j] == c: break
                    s += f[j]; j += 1
                out.append(Ed("lit", s=s)); pos[0] = j + 1; continue
            m = re.compile(r"(\d+|\*)?\s*").match(f, pos[0]); n = m.group(1); pos[0] = m.end(); c = f[pos[0]].lower()
            if c == "(":
                start = len(out); pos[0] += 1; g = group(depth + 1)
                if n == "*": out.append(Ed("inf", s=g))
                else:
                    if depth == 0: revert[0] = (len(out), int(n or 1), len(g))
                    out += g * int(n or 1)
                continue
            if c == "/": out += [Ed("nl")] * int(n or 1); pos[0] += 1; continue
            if c == ":": out.append(Ed("colon")); pos[0] += 1; continue
            if c == "x": out.append(Ed("x", w=int(n or 1))); pos[0] += 1; continue
            m = re.compile(r"(es|en|ex|ss|sp|s|bn|bz|a|i|f|e|d|g|l)\s*(\d+)?(?:\.(\d+))?(?:e(\d+))?", re.I).match(f, pos[0])
            if not m: raise Unsupported("format " + f)
            pos[0] = m.end(); k = m.group(1).lower()
            if k in ("ss", "sp", "s", "bn", "bz"): continue
            t = lambda x: None if x is None else int(x)
            for _ in range(int(n or 1)): out.append(Ed(k, t(m.group(2)), t(m.group(3)), t(m.group(4))))
    items = group(0)
    return items, (0 if revert[0] is None else revert[0][0])
DATA = ("a", "i", "f", "e", "d", "g", "es", "en", "l")

# ----------------------------------------------------------------------------- values
SMALL = 64
def is_arr(v): return isinstance(v, (CVec, SVec))
def rank_of(v): return getattr(v, "rank", 1) if isinstance(v, SVec) else 1
def lens(v): return v.len if isinstance(v.len, tuple) else (v.len,)
def isreal(x): return isinstance(x, Fraction) or is_z(x) and x.sort() == REAL
def isbool(x): return isinstance(x, bool) or is_z(x) and x.sort() == BOOL
def norm_len(n):
    n = unz(n)
    if is_z(n): n = unz(z3.simplify(n))
    return n
def alloc_value(ns, fill=UNDEF):
    ns = [norm_len(n) for n in ns]
    if len(ns) == 1:
        n = ns[0]
        if isint(n) and n <= SMALL: return CVec([fill] * max(n, 0))
        return SVec(n, lambda i: fill)
    return SVec(tuple(ns), lambda i: fill, (), None, len(ns))
def elementwise(f, *vs):
    arrs = [v for v in vs if is_arr(v)]
    if not arrs: return f(*vs)
    if all(isinstance(v, CVec) for v in arrs):
        n = arrs[0].len
        if any(v.len != n for v in arrs): raise Unsupported("arrays of different lengths in an expression")
        return CVec([f(*[v.get(k) if is_arr(v) else v for v in vs]) for k in range(n)])
    a = next(v for v in arrs if isinstance(v, SVec))
    return SVec(a.len, lambda i: f(*[v.get(i) if is_arr(v) else v for v in vs]), (), None, a.rank)

class Frame:
    def __init__(self, name): self.name, self.vars, self.lb, self.decls, self.dummies, self.locals = name, {}, {}, {}, set(), set()

class FInterp:
    def __init__(self, eng, unit, contracts=None):
        self.eng, self.u, self.contracts = eng, unit, contracts or {}
        self.frames = []; self.complb = {}; self.stack = []; self.fname = ""; self.omp = []; self.par = 0; self.files = []; self.unitn = 0
        self.opened = 0; self.strbools = {}; self.args_model = None; self.atomic = 0
    cdiv = cppfe.Interp.cdiv
    def fresh_root(self, nm): return "%s#%d" % (nm, next(self.eng.names))
    def bound(self, st, what, goal): self.eng.oblige(st, "%s: %s" % (self.fname, what), "bounds", goal)
    def uns(self, m): raise Unsupported(m)
    # ------------------------------------------------------------------ names
    def frame_of(self, proc):
        for f in reversed(self.frames):
            if f.name == proc: return f
        return None
    def lookup(self, st, q):
        """qualified name -> (path, frame, name)"""
        proc, n = q.split(":") if ":" in q else (self.frames[-1].name, q)
        if proc.startswith("block@"):
            for f in reversed(self.frames):
                if q in f.vars: return f.vars[q], f, q
            raise Unsupported("block variable " + q)
        f = self.frame_of(proc)
        if f is None:
            if proc in self.u.procs and proc in self.u.modules_(): f = self.module_frame(st, proc)
            else: raise Unsupported("variable %s is not accessible" % q)
        if n not in f.vars:
            d = f.decls.get(n)
            if d is None: raise Unsupported("variable " + q)
            self.declare(st, f, n, d)
        elif n in f.locals and f.vars[n] and f.vars[n][0] not in st.vars:   # declared while another copy of the state ran
            self.declare(st, f, n, f.decls[n], f.vars[n][0])
        return f.vars[n], f, n
    def module_frame(self, st, name):
        f = Frame(name); f.decls = self.u.procs[name].decls
        self.frames.insert(0, f); return f
    def declare(self, st, f, n, d, root=None):
        root = root or "%s.%s#%d" % (f.name, n, next(self.eng.names))
        f.vars[n] = (root,); f.locals.add(n)
        st.vars[root] = self.kept(st, f, n, d) if self.saved(f, d) else self.initial(st, d.type, d.attr, d.shape, d.value, f, n)
    def saved(self, f, d):
        """a local variable of a procedure which keeps the value of an earlier call"""
        return f.name != self.u.main and f.name not in self.u.modules_() and "PARAMETER" not in d.attr and bool({"EXPLICIT-SAVE", "IMPLICIT-SAVE"} & set(d.attr))
    def kept(self, st, f, n, d):
        if (self.omp or self.par) and n in {q.split(":")[-1] for q in self.assigned(st, self.u.body(self.u.procs[f.name]))}:
            self.eng.oblige(st, "%s: %s, which has one copy for all the threads, is not assigned in a parallel region" % (self.fname, n), "race", False)
        mk = {"INTEGER": INT, "REAL": REAL, "LOGICAL": BOOL}.get(d.type[0])
        if mk is None or {"ALLOCATABLE", "POINTER"} & set(d.attr): raise Unsupported("variable with the SAVE attribute")
        v = self.initial(st, d.type, d.attr, d.shape, None, f, n)
        if d.shape is None: return self.eng.fresh("saved_" + n, mk)
        if isinstance(v, CVec): return CVec([self.eng.fresh("saved_" + n, mk) for _ in v.items])
        raise Unsupported("array with the SAVE attribute")
    def initial(self, st, type_, attr, shape, value, f=None, n=None):
        if "ALLOCATABLE" in attr or "POINTER" in attr: return UNDEF
        if shape is not None:
            rank, kind, b = shape_of(shape)
            if kind != "AS_EXPLICIT": return UNDEF
            los = [self.eval(st, lo) for lo, hi in b]; his = [self.eval(st, hi) for lo, hi in b]
            if f is not None: f.lb[n] = los
            v = alloc_value([add(sub(h, l), 1) for l, h in zip(los, his)], self.scalar_init(type_))
            if value: return self.const_array(st, value, v, type_)
            return v
        if value is not None and type_[0] not in ("DERIVED", "CLASS"):
            return self.convert(type_, self.eval(st, Parser(value).expr()))
        return self.scalar_init(type_)
    def const_array(self, st, value, v, type_):
        e = Parser(value).expr()
        if e[0] == "arr": return CVec([self.convert(type_, self.eval(st, x)) for x in e[1]])
        x = self.convert(type_, self.eval(st, e))
        return elementwise(lambda _: x, v)
    def scalar_init(self, type_):
        if type_[0] in ("DERIVED", "CLASS"):
            t = self.u.types.get(class_name(type_))
            if t is None: return UNDEF
            return Obj(class_name(type_), {c.name: UNDEF if c.attr & {"ALLOCATABLE", "POINTER"} or c.shape is None and c.type[0] not in ("DERIVED",) else self.comp_init(c) for c in t.values()})
        return UNDEF
    def comp_init(self, c):
        if c.shape is not None:
            rank, kind, b = shape_of(c.shape)
            if any(lo[0] != "num" or hi[0] != "num" for lo, hi in b): raise Unsupported("component shape")
            return alloc_value([hi[1] - lo[1] + 1 for lo, hi in b])
        return self.scalar_init(c.type)
    def convert(self, type_, v):
        if v is UNDEF or isinstance(v, (Opaque, Obj, Ptr)): return v
        if is_arr(v): return elementwise(lambda x: self.convert(type_, x), v)
        b = type_[0] if type_ else None
        if b == "REAL" and (isinstance(v, int) and not isinstance(v, bool) or is_z(v) and v.sort() == INT): return R(v)
        if b == "INTEGER" and isreal(v): return self.trunc(v)
        if b == "INTEGER" and len(type_) > 1 and str(type_[1]) in ("1", "2") and (is_z(v) or isint(v)) and not isinstance(v, bool):
            # sizes fit the default integer type, not a shorter one
            if is_z(v): raise Unsupported("integer of %s bytes" % type_[1])
        return v
    def trunc(self, v):
        if isinstance(v, Fraction): return int(v)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL: return v.arg(0)
        return ite(ge(v, 0), z3.ToInt(v), neg(z3.ToInt(neg(v))))
    def type_of(self, name, frame, parts):
        """declared type of a designator"""
        if name.startswith("block@"): d = frame.decls.get(name) or self.blockdecl(name)
        else: d = frame.decls.get(name)
        t = d.type if d is not None else None
        for p in parts:
            if p[0] == "f":
                if t is None: return None
                c = self.u.types.get(class_name(t), {}).get(p[1]); t = c.type if c else None
        return t
    def blockdecl(self, q):
        n = q.split(":")[1]
        for f in reversed(self.frames):
            p = self.u.procs.get(f.name)
            if p and n in p.blocks: return p.blocks[n]
        return None
    # ------------------------------------------------------------------ designators
    def follow(self, st, path):
        for _ in range(8):
            try: v = st.read(path)
            except Unsupported: return path
            if not isinstance(v, Ptr): return path
            path = v.path
            if path is None: raise Unsupported("disassociated pointer")
        raise Unsupported("pointer chain")
    def lbs(self, frame, name, parts_path, path, rank):
        """lower bounds of the array designated"""
        if len(parts_path) == 0 and frame is not None and name in frame.lb: return frame.lb[name]
        return self.complb.get(strip_idx(path), [1] * rank)
    def place(self, st, node, follow_last=True):
        """-> (path, section or None, type)"""
        if node[0] != "var": raise Unsupported("not a designator")
        path, fr, nm = self.lookup(st, node[1])
        parts = node[2]; seen = []; sec = None
        if path is None: raise Unsupported("absent optional argument " + nm)
        for k, p in enumerate(parts):
            last = all(q[0] == "full" for q in parts[k:])
            if sec is not None:
                raise Unsupported("component of an array section")
            if not last or follow_last: path = self.follow(st, path)
            if p[0] == "full": continue
            if p[0] == "f":
                path = path + (("f", p[1]),); seen.append(p[1])
                continue
            v = st.read(path)
            if isinstance(v, str): sec = ("substr", p[1]); continue
            lb = self.lbs(fr, nm, seen, path, len(p[1]))
            if v is UNDEF: raise Unsupported("%s is not allocated" % pname(path))
            if not is_arr(v): raise Unsupported("subscript of %s" % type(v).__name__)
            ns = lens(v)
            if len(ns) != len(p[1]): raise Unsupported("rank of %s" % pname(path))
            if all(not (isinstance(s, tuple) and s[0] == "range") for s in p[1]):
                xs = [self.eval(st, s) for s in p[1]]
                if any(is_arr(x) for x in xs): raise Unsupported("vector subscript")
                idx = [sub(x, l) for x, l in zip(xs, lb)]
                idx = [simp(i) for i in idx]
                for x, n in zip(idx, ns): self.bound(st, "subscript of %s within its bounds" % pname(path), band(ge(x, 0), lt(x, n)))
                path = path + (("i", idx[0] if len(idx) == 1 else tuple(idx)),); seen.append("[]")
            else:
                sec = ("sec", [self.triple(st, s, l, n) for s, l, n in zip(p[1], lb, ns)])
        if follow_last: path = self.follow(st, path)
        return path, sec, self.type_of(nm, fr, parts)
    def triple(self, st, s, l, n):
        """subscript -> ('x', index) or ('r', start, count)"""
        if not (isinstance(s, tuple) and s[0] == "range"):
            x = self.eval(st, s)
            if is_arr(x): raise Unsupported("vector subscript")
            return ("x", simp(sub(x, l)))
        _, lo, hi, step = s
        step = 1 if step is None else self.eval(st, step)
        if step not in (1, -1): raise Unsupported("stride")
        a = sub(self.eval(st, lo), l) if lo is not None else 0 if step == 1 else sub(n, 1)
        b = sub(self.eval(st, hi), l) if hi is not None else sub(n, 1) if step == 1 else 0
        if step == -1: return ("v", simp(a), norm_len(simp(add(sub(a, b), 1))))
        c = norm_len(simp(add(sub(b, a), 1)))
        self.bound(st, "section within the bounds", bor(le(c, 0), band(ge(a, 0), lt(b, n))))
        return ("r", simp(a), c)
    def read_section(self, st, v, tr):
        rs = [t for t in tr if t[0] in ("r", "v")]
        def idx(i):
            i = list(i) if isinstance(i, tuple) else [i]; out = []
            for t in tr:
                if t[0] == "x": out.append(t[1])
                elif t[0] == "v": out.append(sub(t[1], i.pop(0)))
                else: out.append(add(i.pop(0), t[1]))
            return out[0] if len(out) == 1 else tuple(out)
        if len(rs) == 1:
            c = rs[0][2]
            if isint(c) and c <= SMALL: return CVec([v.get(simp_idx(idx(k))) for k in range(c)])
            return SVec(c, lambda i: v.get(idx(i)))
        return SVec(tuple(t[2] for t in rs), lambda i: v.get(idx(i)), (), None, len(rs))
    def write_section(self, st, path, tr, val):
        v = st.read(path)
        rs = [t for t in tr if t[0] in ("r", "v")]
        if any(t[0] == "v" for t in tr): raise Unsupported("assignment to a reversed section")
        if len(tr) == 1 and isinstance(v, CVec) and isint(rs[0][1]) and isint(rs[0][2]):
            for k in range(rs[0][2]): v = v.set(rs[0][1] + k, val.get(k) if is_arr(val) else val)
            st.write(path, v); return
        if isinstance(v, CVec): v = SVec(v.len, lambda i, w=v: w.get(i))
        def guard(i):
            ii = i if isinstance(i, tuple) else (i,); g = []
            for x, t in zip(ii, tr):
                if t[0] == "x": g.append(eq(x, t[1]))
                else: g += [ge(x, t[1]), lt(x, add(t[1], t[2]))]
            return band(*g)
        def value(i):
            if not is_arr(val): return val
            ii = i if isinstance(i, tuple) else (i,)
            r = [sub(x, t[1]) for x, t in zip(ii, tr) if t[0] == "r"]
            return val.get(r[0] if len(r) == 1 else tuple(r))
        point = tuple(t[1] if t[0] == "x" else None for t in tr) if len(tr) > 1 else None
        st.write(path, v.with_layer(Layer(guard, value, point)))
    def read(self, st, path):
        v = st.read(path)
        if v is UNDEF:
            self.eng.oblige(st, "%s: %s is initialised before it is read" % (self.fname, pname(path)), "bounds", False)
            self.eng.oblige(st, "%s: %s is assigned in the iteration (thread) that reads it" % (self.fname, pname(path)), "race", False)
            raise Unsupported("read of an uninitialised variable (%s)" % pname(path))
        return v
    def omp_check(self, st, path):
        if self.omp:
            r = self.omp[-1]
            if r["ws"] == 0 and path[0] in r["shared"] and not isinstance(st.vars.get(path[0]), Stream):
                self.eng.oblige(st, "%s: %s is not written by all the threads of a parallel region" % (self.fname, pname(path)), "race", False)
    def assign(self, st, node, val):
        path, sec, t = self.place(st, node)
        if isinstance(val, str) or isinstance(val, (Opaque, Obj)): pass
        else: val = self.convert(t, val)
        self.omp_check(st, path)
        if sec is not None:
            if sec[0] == "substr": raise Unsupported("assignment to a substring")
            return self.write_section(st, path, sec[1], val)
        old = st.read(path)
        arr_target = is_arr(old) or (node[2] and node[2][-1][0] == "full")
        if arr_target and not is_arr(val):
            if old is UNDEF: raise Unsupported("assignment to an unallocated array")
            if is_arr(old): val = elementwise(lambda _: val, old) if isinstance(old, CVec) else SVec(old.len, lambda i, x=val: x, (), None, old.rank)
        elif is_arr(val):
            if old is UNDEF: pass
            elif is_arr(old):
                same_len = all(self.eng.entails(st, eq(a, b), 2000) for a, b in zip(lens(old), lens(val)))
                if not same_len:
                    self.bound(st, "shapes conform in the assignment to %s" % pname(path), band(*[eq(a, b) for a, b in zip(lens(old), lens(val))]))
                    if isinstance(val, CVec) != isinstance(old, CVec): raise Unsupported("assignment of an array of another shape")
                elif isinstance(old, CVec) and isinstance(val, SVec): val = CVec([val.get(k) for k in range(old.len)])
                elif isinstance(old, SVec) and isinstance(val, CVec): val = SVec(old.len, lambda i, w=val: w.get(i))
                elif isinstance(old, SVec): val = SVec(old.len, lambda i, w=val: w.get(i), (), None, old.rank)
            else: raise Unsupported("array assigned to a scalar")
        st.write(path, val)
    # ------------------------------------------------------------------ expressions
    def eval(self, st, e):
        if e is None: return None
        return getattr(self, "e_" + e[0])(st, e)
    def e_num(self, st, e): return e[1]
    def e_str(self, st, e): return e[1]
    def e_arr(self, st, e):
        out = []
        for x in e[1]:
            v = self.eval(st, x)
            if isinstance(v, CVec): out += list(v.items)
            elif isinstance(v, SVec): raise Unsupported("array constructor of unknown length")
            else: out.append(v)
        if any(isreal(x) for x in out): out = [R(x) for x in out]
        return CVec(out)
    def e_var(self, st, e):
        path, sec, t = self.place(st, e)
        v = self.read(st, path)
        if sec is None: return v
        if sec[0] == "substr": return Opaque("substring")
        return self.read_section(st, v, sec[1])
    def e_cons(self, st, e):
        n = e[1].lower()
        if n == "null": return NULL
        t = self.u.types.get(n)
        if t is None: raise Unsupported("constructor " + n)
        return Obj(n, {c.name: (self.convert(c.type, self.eval(st, x)) if x is not None and x[0] != "cons" else UNDEF) for c, x in zip(t.values(), e[2] + [None] * len(t))})
    def e_op(self, st, e):
        _, op, args = e
        vs = [self.eval(st, a) for a in args]
        if op in ("parens", "U+"): return vs[0]
        if op == "//": return vs[0] + vs[1] if all(isinstance(v, str) for v in vs) else Opaque("string")
        if len(vs) == 1 and op in ("-", "U-"): return elementwise(lambda a: neg(a), vs[0])
        if op == "NOT": return elementwise(lambda a: bnot(a), vs[0])
        if any(isinstance(v, (str, Opaque)) for v in vs): return self.string_cmp(op, vs)
        return elementwise(lambda a, b: self.arith(st, op, a, b), *vs)
    def string_cmp(self, op, vs):
        if all(isinstance(v, str) for v in vs):
            a, b = (v.rstrip() for v in vs)
            return {"==": a == b, "/=": a != b}.get(op) if op in ("==", "/=") else self.uns("string comparison")
        key = tuple(v if isinstance(v, str) else id(v) for v in vs)
        if key not in self.strbools: self.strbools[key] = (z3.Bool("streq!%d" % len(self.strbools)), vs)
        r = self.strbools[key][0]
        return r if op == "==" else bnot(r)
    def arith(self, st, op, a, b):
        if op in ("AND", "OR", "EQV", "NEQV"): return {"AND": band, "OR": bor, "EQV": eq, "NEQV": ne}[op](a, b)
        for x in (a, b):
            if x is UNDEF: self.eng.oblige(st, "%s: operands are initialised" % self.fname, "bounds", False); raise Unsupported("uninitialised operand")
        real = isreal(a) or isreal(b)
        if real: a, b = R(a), R(b)
        if op == "+": return add(a, b)
        if op == "-": return sub(a, b)
        if op == "*": return mul(a, b)
        if op == "/":
            self.eng.oblige(st, "%s: divisor is not zero" % self.fname, "divzero", ne(b, Fraction(0) if real else 0))
            return rdiv(a, b) if real else self.cdiv(st, "/", a, b, True)
        if op == "**":
            if isint(b) and 0 <= b <= 8:
                r = Fraction(1) if real else 1
                for _ in range(b): r = mul(r, a)
                return r
            if real and isinstance(b, Fraction) and b.denominator == 1 and 0 <= b <= 8: return self.arith(st, op, a, int(b))
            raise Unsupported("power")
        f = {"==": eq, "/=": ne, "<": lt, "<=": le, ">": gt, ">=": ge}.get(op)
        if f is None: raise Unsupported("operator " + op)
        return f(a, b)
    # ------------------------------------------------------------------ calls
    def callee(self, name, parts):
        n = name.split(":")[-1]
        if n in self.u.procs and n in self.u.formals or n in self.u.procs: return n
        for p in reversed(parts):
            if p[0] == "f":
                for (t, b), q in self.u.bindings.items():
                    if b == p[1]: return q
        return None
    def e_call(self, st, e):
        _, name, parts, args = e
        c = self.callee(name, parts)
        if c is not None:
            d = self.u.procs[c].decls.get(c)
            host = [p.decls[c] for p in self.u.procs.values() if c in p.decls and p.decls[c].host is None]
            elem = any("ELEMENTAL" in x.attr for x in host)
            if elem:
                vs = [self.eval(st, a) for a in args]
                if any(is_arr(v) for v in vs): return elementwise(lambda *xs: self.call(st.copy(), c, [("val", x) for x in xs]), *vs)
            return self.call(st, c, args)
        return self.intrinsic(st, name, args)
    def e_val(self, st, e): return e[1]
    def call(self, st, name, args):
        ct = self.contracts.get(name)
        if ct is not None: return ct(self, st, args)
        if len(self.stack) > 10: raise Unsupported("call depth in " + name)
        self.eng.inlined.add(name)
        p = self.u.procs[name]; formals = self.u.formals.get(name, [])
        fr = Frame(name); fr.decls = p.decls; copyback = []
        if len(args) > len(formals): raise Unsupported("arguments of " + name)
        for f, a in zip(formals, list(args) + [None] * (len(formals) - len(args))):
            fr.dummies.add(f)
            if a is None: fr.vars[f] = None; continue
            d = p.decls[f]
            if a[0] == "var":
                ptr_dummy = "POINTER" in d.attr
                path, sec, t = self.place(st, a, follow_last=not ptr_dummy)
                if sec is None:
                    if "VALUE" in d.attr:
                        r = self.fresh_root(f); st.vars[r] = st.read(path); path = (r,)
                    fr.vars[f] = path
                    if ("ALLOCATABLE" in d.attr or ptr_dummy): pass
                    elif d.shape is not None:
                        v = st.read(path); rk, kind, b = shape_of(d.shape)
                        if not is_arr(v): raise Unsupported("array argument %s of %s" % (f, name))
                        if rank_of(v) != rk: raise Unsupported("array argument of another rank")
                        fr.lb[f] = [1] * rk
                    continue
                if sec[0] == "sec":
                    r = self.fresh_root(f); st.vars[r] = self.read_section(st, st.read(path), sec[1]); fr.vars[f] = (r,)
                    if "IN" not in d.attr: copyback.append((path, sec, (r,)))
                    fr.lb[f] = [1] * rank_of(st.vars[r]); continue
            v = self.eval(st, a)
            r = self.fresh_root(f); st.vars[r] = self.convert(d.type, v) if d.type[0] in ("REAL", "INTEGER") else v; fr.vars[f] = (r,)
            if is_arr(v): fr.lb[f] = [1] * rank_of(v)
        caller = (self.fname, self.frames)
        keep = [f for f in self.frames if f.name in self.hosts(name) or f.name in self.u.modules_()]
        self.frames = keep + [fr]; self.fname = name; self.stack.append(name)
        try:
            for f in formals:       # bounds of the dummies
                d = p.decls[f]
                if fr.vars.get(f) is not None and d.shape is not None and not (d.attr & {"ALLOCATABLE", "POINTER"}):
                    rk, kind, b = shape_of(d.shape)
                    lo = [1 if x is None else self.eval(st, x) for x, _ in b] or [1] * rk
                    fr.lb[f] = lo
                    if kind == "AS_EXPLICIT":
                        v = st.read(fr.vars[f])
                        for (l, h), n in zip(b, lens(v)):
                            ext = norm_len(add(sub(self.eval(st, h), self.eval(st, l)), 1))
                            if not self.eng.entails(st, eq(ext, n), 2000): raise Unsupported("explicit shape of %s differs from the argument's" % f)
            for n, d in p.decls.items():       # they hold what an earlier call left
                if n not in fr.vars and d.host is None and self.saved(fr, d): self.declare(st, fr, n, d)
            o = self.exec_block(st.copy(), self.u.body(p))
            res = self.join(o)
            if res is None: raise Unsupported("%s never returns" % name)
            st.vars, st.hyps = res.vars, res.hyps
            rv = None
            dd = [q.decls[name] for q in self.u.procs.values() if name in q.decls and q.decls[name].host is None]
            rname = next((x.result for x in dd if x.result), None) or next((n for n, d in p.decls.items() if "RESULT" in d.attr), None)
            if any("FUNCTION" in x.attr for x in dd) or rname:
                rn = rname or name
                if rn not in fr.vars: raise Unsupported("function result of %s is not set" % name)
                rv = self.read(st, fr.vars[rn])
                if is_arr(rv): pass
            for path, sec, r in copyback: self.write_section(st, path, sec[1], st.read(r))
            return rv
        finally:
            self.fname, self.frames = caller; self.stack.pop()
    def hosts(self, name):
        """procedures whose variables an internal procedure sees"""
        out = set()
        for q in self.u.procs.values():
            if name in q.decls and q.decls[name].host is None and q.name != name: out.add(q.name)
        return out
    def join(self, o):
        acc = o.normal
        for k, g, s, v in reversed(o.exits):
            if k == "stop": continue
            if k != "return": raise Unsupported("stray " + k)
            acc = s if acc is None or g is True else merge_states(g, s, acc)
        return acc
    def fold(self, st, v, init, f, name):
        """left fold over an array value"""
        if isinstance(v, CVec):
            acc = init
            for x in v.items: acc = f(st, acc, x)
            return acc
        if v.rank > 1: raise Unsupported("reduction of a matrix")
        a, i = self.fresh_root("acc"), self.fresh_root("k"); st.vars[a] = init; st.vars[i] = 0
        def body(s):
            s.vars[a] = f(s, s.vars[a], v.get(s.vars[i])); s.vars[i] = add(s.vars[i], 1); return Outcome(s)
        o = run_loop(self.eng, st.copy(), lambda s: lt(s.vars[i], v.len), body, name)
        s = o.normal; st.vars, st.hyps = s.vars, s.hyps
        return st.vars[a]
    def intrinsic(self, st, name, args):
        base = re.sub(r"^(_gfortran_|__)", "", name)
        n = re.sub(r"(\d*(_[a-z]*\d+)*)$", "", base) if not base.startswith("omp_") else base
        if base.startswith("convert_"):
            v = self.eval(st, args[0]); m = re.match(r"convert_([a-z])\d+_([a-z])\d+", base)
            if not m: raise Unsupported(name)
            return self.convert({"r": ("REAL",), "i": ("INTEGER",)}.get(m.group(2)) or self.uns(name), v)
        f = getattr(self, "i_" + re.sub(r"\d+$", "", base), None) or getattr(self, "i_" + n.strip("_"), None)
        if f is None: raise Unsupported("procedure " + name)
        return f(st, args)
    def vals(self, st, args): return [self.eval(st, a) if a is not None else None for a in args]
    def i_mod(self, st, a):
        x, y = self.vals(st, a)
        def f(p, q):
            if isreal(p) or isreal(q): raise Unsupported("mod of reals")
            self.eng.oblige(st, "%s: divisor is not zero" % self.fname, "divzero", ne(q, 0))
            return self.cdiv(st, "%", p, q, True)
        return elementwise(f, x, y)
    def i_modulo(self, st, a):
        x, y = self.vals(st, a)
        def f(p, q):
            if isreal(p) or isreal(q): raise Unsupported("modulo of reals")
            self.eng.oblige(st, "%s: divisor is not zero" % self.fname, "divzero", ne(q, 0))
            if isint(q) and q > 0 or self.eng.entails(st, gt(q, 0)): return fmod(p, q)
            raise Unsupported("modulo by a value of unknown sign")
        return elementwise(f, x, y)
    def i_real(self, st, a): return elementwise(lambda x: R(x), self.eval(st, a[0]))
    i_dble = i_real
    def i_idint(self, st, a): return elementwise(lambda x: self.trunc(x) if isreal(x) else x, self.eval(st, a[0]))
    i_int = i_idint; i_ifix = i_idint
    def i_floor(self, st, a): return elementwise(lambda x: z3.ToInt(Z(x)), self.eval(st, a[0]))
    def i_abs(self, st, a): return elementwise(lambda x: ite(ge(x, 0), x, neg(x)), self.eval(st, a[0]))
    i_iabs = i_abs; i_dabs = i_abs
    def i_sqrt(self, st, a): return elementwise(lambda x: SQRT(Z(R(x))), self.eval(st, a[0]))
    def i_sin(self, st, a): return elementwise(lambda x: SIN(Z(R(x))), self.eval(st, a[0]))
    def i_cos(self, st, a): return elementwise(lambda x: COS(Z(R(x))), self.eval(st, a[0]))
    def i_sign(self, st, a):
        def f(x, y):
            ax = ite(ge(x, 0), x, neg(x)); return ite(ge(y, 0), ax, neg(ax))
        return elementwise(f, *self.vals(st, a))
    def nary(self, st, a, f):
        vs = self.vals(st, a); r = vs[0]
        for v in vs[1:]: r = elementwise(f, r, v)
        return r
    def i_max(self, st, a): return self.nary(st, a, lambda x, y: ite(ge(x, y), x, y))
    def i_min(self, st, a): return self.nary(st, a, lambda x, y: ite(le(x, y), x, y))
    def i_merge(self, st, a): return elementwise(lambda t, f, m: merge_value(m, t, f), *self.vals(st, a))
    def i_size(self, st, a):
        v = self.eval_arr(st, a[0])
        if len(a) > 1 and a[1] is not None:
            k = self.eval(st, a[1])
            if not isint(k): raise Unsupported("size along a variable dimension")
            return lens(v)[k - 1]
        r = 1
        for n in lens(v): r = mul(r, n)
        return r
    def eval_arr(self, st, e):
        if e[0] == "var":
            path, sec, t = self.place(st, e)
            v = st.read(path)
            if sec is not None and sec[0] == "sec": v = self.read_section(st, v, sec[1])
        else: v = self.eval(st, e)
        if not is_arr(v): raise Unsupported("not an array")
        return v
    def bnd(self, st, a, up):
        v = self.eval_arr(st, a[0]); e = a[0]; lb = [1] * len(lens(v))
        if e[0] == "var" and not any(p[0] == "sub" for p in e[2]):
            path, fr, nm = self.lookup(st, e[1]); p2, _, _ = self.place(st, e)
            lb = self.lbs(fr, nm, [p for p in e[2] if p[0] == "f"], p2, len(lb))
        out = [sub(add(l, n), 1) if up else l for l, n in zip(lb, lens(v))]
        if len(a) > 1 and a[1] is not None:
            k = self.eval(st, a[1]); return out[k - 1] if isint(k) else self.uns("bound along a variable dimension")
        return CVec(out)
    def i_lbound(self, st, a): return self.bnd(st, a, False)
    def i_ubound(self, st, a): return self.bnd(st, a, True)
    def i_shape(self, st, a): return CVec(lens(self.eval_arr(st, a[0])))
    def no_dim(self, a):
        if any(x is not None for x in a[1:]): raise Unsupported("reduction along a dimension or under a mask")
    def i_sum(self, st, a):
        self.no_dim(a); v = self.eval(st, a[0])
        return self.fold(st, v, self.zero(v), lambda s, acc, x: add(acc, x), "sum in %s" % self.fname)
    def zero(self, v, c=0):
        x = v.get(0) if isinstance(v, SVec) and v.rank == 1 else v.items[0] if isinstance(v, CVec) and v.items else c
        return Fraction(c) if isreal(x) else c
    def i_product(self, st, a):
        self.no_dim(a); v = self.eval(st, a[0])
        return self.fold(st, v, self.zero(v, 1), lambda s, acc, x: mul(acc, x), "product in %s" % self.fname)
    def i_dot_product(self, st, a):
        x, y = self.vals(st, a)
        for p, q in zip(lens(x), lens(y)): self.bound(st, "dot_product of vectors of one length", eq(p, q))
        v = elementwise(lambda p, q: mul(R(p), R(q)) if isreal(p) or isreal(q) else mul(p, q), x, y)
        return self.fold(st, v, self.zero(v), lambda s, acc, t: add(acc, t), "dot_product in %s" % self.fname)
    def i_matmul(self, st, a):
        """the standard's definition: a sum per element, as a recursion over the common dimension"""
        x, y = self.vals(st, a); lx, ly = lens(x), lens(y)
        self.bound(st, "matmul of conforming matrices", eq(lx[-1], ly[0]))
        shape = lx[:-1] + ly[1:]; rk = len(shape); nx = len(lx) - 1
        g = mkfn(self.eng, "matmul_%d" % next(self.eng.names), 1 + rk, REAL); kap = z3.Int("k!mm"); N = lx[-1]
        one = lambda t: t[0] if len(t) == 1 else t
        def term(i, k): return mul(R(x.get(one(tup(i)[:nx] + (k,)))), R(y.get(one((k,) + tup(i)[nx:]))))
        vec = lambda get: SVec(one(tuple(shape)), get, (), None, rk)
        r = LoopRec(kind="array", kap=kap, N=N, path=("matmul",), fn=g, init=vec(lambda i: Fraction(0)), step=vec(lambda i: add(g(kap, *tup(i)), term(i, kap))))
        self.eng.loops.append(LoopRec(name="matmul in %s" % self.fname, kap=kap, N=N, N0=N, exit=False, kinds={}, paths=[], recs={("matmul",): r}, cond=None))
        return vec(lambda i: g(N, *tup(i)))
    def i_maxval(self, st, a): return self.extremum(st, a, ge)
    def i_minval(self, st, a): return self.extremum(st, a, le)
    def extremum(self, st, a, f):
        self.no_dim(a); v = self.eval(st, a[0])
        if not isinstance(v, CVec) or not v.items: raise Unsupported("extremum of an array of unknown length")
        r = v.items[0]
        for x in v.items[1:]: r = ite(f(r, x), r, x)
        return r
    def i_any(self, st, a):
        v = self.eval(st, a[0])
        return bor(*v.items) if isinstance(v, CVec) else self.uns("any")
    def i_all(self, st, a):
        v = self.eval(st, a[0])
        return band(*v.items) if isinstance(v, CVec) else self.uns("all")
    def i_cshift(self, st, a):
        v, k = self.vals(st, a[:2])
        if isinstance(v, CVec) and isint(k): return CVec([v.get((i + k) % v.len) for i in range(v.len)])
        raise Unsupported("cshift")
    def i_present(self, st, a):
        p, f, n = self.lookup(st, a[0][1]); return p is not None
    def i_allocated(self, st, a):
        path, _, _ = self.place(st, a[0]); return st.read(path) is not UNDEF
    def i_associated(self, st, a):
        path, _, _ = self.place(st, a[0], follow_last=False); v = st.read(path)
        return isinstance(v, Ptr) and v.path is not None
    def i_trim(self, st, a):
        v = self.eval(st, a[0]); return v.rstrip() if isinstance(v, str) else v
    i_adjustl = i_trim
    def i_len_trim(self, st, a):
        v = self.eval_any(st, a[0])
        return len(v.rstrip()) if isinstance(v, str) else self.eng.fresh("len_trim", INT)
    def eval_any(self, st, e):
        if e[0] == "var":
            path, sec, t = self.place(st, e); return st.read(path)
        return self.eval(st, e)
    def i_omp_get_num_threads(self, st, a): return self.pos(st, "omp_get_num_threads")
    def i_omp_get_max_threads(self, st, a): return self.pos(st, "omp_get_max_threads")
    def i_omp_get_thread_num(self, st, a): r = self.eng.fresh("omp_get_thread_num", INT); st.assume(r >= 0); return r
    def i_omp_get_wtime(self, st, a): return self.eng.fresh("wtime", REAL)
    def pos(self, st, n): r = self.eng.fresh(n, INT); st.assume(r >= 1); return r
    # ------------------------------------------------------------------ statements
    def exec_block(self, st, body):
        cur = st; exits = []
        for s in body:
            o = self.exec(cur, s); exits += o.exits
            if o.normal is None: return Outcome(None, exits)
            cur = o.normal
        return Outcome(cur, exits)
    def exec(self, st, s): return getattr(self, "s_" + s[0])(st, s)
    def s_nop(self, st, s): return Outcome(st)
    s_flush = s_nop
    def s_assign(self, st, s):
        v = self.eval(st, s[2])
        self.assign(st, s[1], v); return Outcome(st)
    def s_ptr(self, st, s):
        path, sec, t = self.place(st, s[1], follow_last=False)
        if s[2][0] == "cons": st.write(path, NULL); return Outcome(st)
        q, sec2, t2 = self.place(st, s[2])
        if sec is not None or sec2 is not None: raise Unsupported("pointer to a section")
        self.omp_check(st, path)
        st.write(path, Ptr(q)); return Outcome(st)
    def s_nullify(self, st, s):
        for x in s[1]:
            path, _, _ = self.place(st, x, follow_last=False); st.write(path, NULL)
        return Outcome(st)
    def s_allocate(self, st, s):
        src = self.eval(st, s[2]["SOURCE"]) if "SOURCE" in s[2] else None
        for o in s[1]:
            parts = [p for p in o[2]]
            bounds = None
            if parts and parts[-1][0] == "sub": bounds = parts.pop()[1]
            elif parts and parts[-1][0] == "full": parts.pop()
            node = ("var", o[1], parts)
            path, sec, t = self.place(st, node, follow_last=False)
            fr = self.lookup(st, o[1])
            if bounds is None:
                if src is None or not is_arr(src):
                    v = self.scalar_init(t) if src is None else src; los = [1]
                else: v = src; los = [1] * rank_of(src)
            else:
                los, ns = [], []
                for b in bounds:
                    if isinstance(b, tuple) and b[0] == "range": lo, hi = self.eval(st, b[1]), self.eval(st, b[2])
                    else: lo, hi = 1, self.eval(st, b)
                    los.append(lo); ns.append(sub(add(hi, 1), lo) if lo != 1 else hi)
                v = alloc_value(ns, self.scalar_init(t) if src is None else (UNDEF if is_arr(src) else self.convert(t, src)))
                if is_arr(src): v = elementwise(lambda _, x: self.convert(t, x), v, src) if isinstance(v, CVec) else SVec(v.len, lambda i, w=src: self.convert(t, w.get(i)), (), None, v.rank)
            if self.is_pointer(node):
                h = "heap%d" % next(self.eng.names); st.vars[h] = v; st.write(path, Ptr((h,)))
                self.complb[(h,)] = los
            else:
                st.write(path, v); self.complb[strip_idx(path)] = los
                f = fr[1]
                if not parts: f.lb[fr[2]] = los
        return Outcome(st)
    def is_pointer(self, node):
        p, fr, nm = None, self.frame_of(node[1].split(":")[0]), node[1].split(":")[-1]
        fs = [p for p in node[2] if p[0] == "f"]
        if not fs:
            d = fr.decls.get(nm) if fr else None
            return d is not None and "POINTER" in d.attr
        t = self.type_of(nm, fr, [p for p in node[2] if p[0] == "f"][:-1])
        c = self.u.types.get(class_name(t), {}).get(fs[-1][1]) if t else None
        return c is not None and "POINTER" in c.attr
    def s_deallocate(self, st, s):
        for o in s[1]:
            path, sec, t = self.place(st, o, follow_last=False)
            st.write(path, UNDEF)
        return Outcome(st)
    def cond(self, st, e): return self.eval(st, e)
    def s_if(self, st, s):
        c = self.cond(st, s[1])
        return self.branch(st, c, lambda x: self.exec_block(x, s[2]), lambda x: self.exec_block(x, s[3]))
    branch = cppfe.Interp.branch
    def s_select(self, st, s):
        v = self.eval(st, s[1]); default = None; arms = []
        for labels, b in s[2]:
            if any(lo is None and hi is None for lo, hi in labels): default = b; continue
            c = False
            for lo, hi in labels:
                lo_, hi_ = (self.eval(st, lo) if lo is not None else None), (self.eval(st, hi) if hi is not None else None)
                if isinstance(lo_, str): k = self.string_cmp("==", [v, lo_])
                else: k = band(True if lo_ is None else le(lo_, v), True if hi_ is None else le(v, hi_)) if not (lo_ is not None and same(lo_, hi_)) else eq(v, lo_)
                c = bor(c, k)
            arms.append((c, b))
        def go(k):
            if k == len(arms): return lambda x: self.exec_block(x, default or [])
            return lambda x: self.branch(x, arms[k][0], lambda y: self.exec_block(y, arms[k][1]), go(k + 1))
        return go(0)(st)
    def s_where(self, st, s):
        done = None; masks = []
        for c, b in s[1]:
            m = self.eval(st, c) if c is not None else None
            eff = m if done is None else elementwise(lambda d: bnot(d), done) if m is None else elementwise(lambda d, k: band(bnot(d), k), done, m)
            done = m if done is None else done if m is None else elementwise(lambda d, k: bor(d, k), done, m)
            for a in b:
                if a[0] != "assign": raise Unsupported("statement in WHERE")
                old = self.eval_any(st, a[1]); new = self.eval(st, a[2])
                path, sec, t = self.place(st, a[1])
                if sec is not None and sec[0] == "sec": old = self.read_section(st, old, sec[1])
                self.assign(st, a[1], elementwise(lambda k, x, y: merge_value(k, self.convert(t, x), y), eff, new if is_arr(new) else new, old))
        return Outcome(st)
    def s_forall(self, st, s):
        return self.s_concurrent(st, ("concurrent", s[1], s[2]), forall=True)
    def s_associate(self, st, s):
        f = self.frames[-1]; names = []
        blk = self.block_name(s[2])
        for n, e in s[1]:
            q = "%s:%s" % (blk, n) if blk else None
            if q is None: continue
            if e[0] == "var":
                path, sec, t = self.place(st, e)
                if sec is None: f.vars[q] = path; f.decls[q] = Decl(q); f.decls[q].type = t; continue
                raise Unsupported("ASSOCIATE with a section")
            r = self.fresh_root(n); st.vars[r] = self.eval(st, e); f.vars[q] = (r,)
        o = self.exec_block(st, s[2])
        return o
    def block_name(self, body):
        found = []
        def walk(x):
            if isinstance(x, tuple):
                if len(x) > 1 and x[0] in ("var",) and isinstance(x[1], str) and x[1].startswith("block@"): found.append(x[1].split(":")[0])
                for y in x: walk(y)
            elif isinstance(x, list):
                for y in x: walk(y)
        walk(body)
        return found[0] if found else None
    def s_block(self, st, s):
        f = self.frames[-1]; blk = self.block_name(s[1])
        if blk is not None:
            p = self.u.procs.get(f.name)
            for n, d in (p.blocks if p else {}).items():
                q = "%s:%s" % (blk, n)
                if d.type and d.type[0] != "UNKNOWN" and "LABEL" not in d.attr:
                    f.decls[q] = d; r = self.fresh_root(n); f.vars[q] = (r,); st.vars[r] = self.initial(st, d.type, d.attr, d.shape, d.value, f, q); f.locals.add(q)
        return self.exec_block(st, s[1])
    def s_return(self, st, s): return Outcome(None, [("return", True, st, None)])
    def s_exit(self, st, s):
        if self.u.named_exit: raise Unsupported("named exit or cycle")
        return Outcome(None, [("break", True, st, None)])
    def s_cycle(self, st, s):
        if self.u.named_exit: raise Unsupported("named exit or cycle")
        return Outcome(None, [("continue", True, st, None)])
    def s_stop(self, st, s): return Outcome(None, [("stop", True, st, None)])
    def s_callstmt(self, st, s):
        c = self.callee(s[1], s[2])
        if c is not None: self.call(st, c, s[3]); return Outcome(st)
        n = re.sub(r"^(_gfortran_|__)", "", s[1]); n = re.sub(r"(_i\d+|_r\d+)+$", "", n)
        f = getattr(self, "c_" + n, None)
        if f is None: raise Unsupported("procedure " + s[1])
        f(st, s[3]); return Outcome(st)
    def c_get_command_argument(self, st, a):
        if len(a) > 1 and a[1] is not None: self.assign(st, a[1], Opaque("argument"))
    def c_cpu_time(self, st, a): self.assign(st, a[0], self.eng.fresh("time", REAL))
    def c_system_clock(self, st, a):
        for x in a:
            if x is not None: self.assign(st, x, self.eng.fresh("clock", INT))
    # -- loops
    def do_parts(self, st, v, lo, hi, step):
        a = self.eval(st, lo); b = self.eval(st, hi); k = self.eval(st, step) if step is not None else 1
        if not isint(k) or k == 0: raise Unsupported("variable step of a DO loop")
        return a, b, k
    def body_fn(self, body, path, k):
        def f(s):
            o = self.exec_block(s, body); acc = o.normal; rest = []
            for e in reversed(o.exits):
                if e[0] == "continue": acc = e[2] if acc is None or e[1] is True else merge_states(e[1], e[2], acc)
                else: rest.append(e)
            if acc is not None and path is not None: acc.write(path, add(acc.read(path), k))
            return Outcome(acc, list(reversed(rest)))
        return f
    def s_do(self, st, s, parallel=None, private=(), collapse=1):
        _, v, lo, hi, step, body = s
        a, b, k = self.do_parts(st, v, lo, hi, step)
        path, sec, t = self.place(st, v)
        roots = set()
        saved = {}
        if parallel:
            self.touch(st, body)
            roots = {path[0]} | {r for r, _ in private} | self.do_vars(st, body)
            if collapse > 1:
                if len(body) != 1 or body[0][0] != "do": raise Unsupported("collapse of loops that are not nested")
            saved = self.enter(st, private)
            if self.omp: roots |= set(st.vars) - self.omp[-1]["shared"]
        elif self.omp: pass
        st.write(path, a)
        if collapse > 1:
            inner = body[0]; bf0 = lambda x: self.s_do(x, inner, parallel, (), collapse - 1)
            def bf(x):
                o = bf0(x)
                if o.normal is not None: o.normal.write(path, add(o.normal.read(path), k))
                return o
        else: bf = self.body_fn(body, path, k)
        cf = (lambda x: le(x.read(path), b)) if k > 0 else (lambda x: ge(x.read(path), b))
        self.par += bool(parallel)
        try: o = run_loop(self.eng, st, cf, bf, "loop in %s" % self.fname, parallel, roots)
        finally: self.par -= bool(parallel)
        if o.normal is not None: self.leave(o.normal, saved)
        return o
    def do_vars(self, st, body):
        out = set()
        def walk(x):
            if isinstance(x, (tuple, list)):
                if isinstance(x, tuple) and x and x[0] == "do":
                    try: out.add(self.lookup(st, x[1][1])[0][0])
                    except Unsupported: pass
                for y in x: walk(y)
        walk(body); return out
    def touch(self, st, body):
        """variables are declared on first use: those assigned in a body exist before it, and are shared unless said otherwise"""
        for q in self.assigned(st, body):
            if q.startswith("block@"): continue
            try: self.lookup(st, q)
            except Unsupported: pass
    def assigned(self, st, body):
        """names assigned in a body (including actual arguments that may be)"""
        out = []
        def walk(x):
            if isinstance(x, (tuple, list)):
                if isinstance(x, tuple) and x:
                    if x[0] in ("assign", "do"): out.append(x[1][1])
                    if x[0] == "callstmt":
                        for a in x[3]:
                            if a is not None and a[0] == "var": out.append(a[1])
                    if x[0] == "read":
                        for a in x[2]:
                            if a[0] == "transfer" and a[1][0] == "var": out.append(a[1][1])
                        for a in x[1].values():
                            if isinstance(a, tuple) and a[0] == "var": out.append(a[1])
                for y in x: walk(y)
        walk(body); return out
    def s_concurrent(self, st, s, forall=False):
        _, idx, body = s
        saved_lo = []
        private = []
        for q in self.assigned(st, body):
            if q.startswith("block@"): continue
            try: path, fr, nm = self.lookup(st, q)
            except Unsupported: continue
            if path is None or len(path) > 1 or nm not in fr.locals or fr is not self.frames[-1]: continue
            v = st.vars.get(path[0])
            if isinstance(v, (SVec, Ptr, Obj)): continue
            if (path[0], "private") not in private: private.append((path[0], "private"))
        roots = {r for r, _ in private} | self.do_vars(st, body)
        # a temporary of an iteration has no value when the iteration starts
        def level(n):
            def run(x):
                if n == len(idx):
                    for r, _ in private:
                        if r not in roots_idx: x.vars[r] = undef_deep(x.vars[r])
                    return self.body_fn(body, None, 1)(x)
                v, lo, hi, step = idx[n]
                a, b, k = self.do_parts(x, v, lo, hi, step)
                path, _, _ = self.place(x, v); roots_idx.add(path[0]); x.write(path, a)
                def bf(y):
                    o = level(n + 1)(y)
                    if o.normal is not None: o.normal.write(path, add(o.normal.read(path), k))
                    return o
                cf = (lambda y: le(y.read(path), b)) if k > 0 else (lambda y: ge(y.read(path), b))
                return run_loop(self.eng, x, cf, bf, "loop in %s" % self.fname, "do concurrent", roots | roots_idx)
            return run
        roots_idx = set()
        keep = {}
        for v, lo, hi, step in idx:
            p, _, _ = self.place(st, v); keep[p[0]] = st.vars.get(p[0])
        self.par += 1
        try: o = level(0)(st)
        finally: self.par -= 1
        if o.normal is not None:
            for r, x in keep.items(): o.normal.vars[r] = x if x is not None else UNDEF     # the index is local to the construct
            for r, _ in private:
                if r not in keep: o.normal.vars[r] = undef_deep(o.normal.vars[r])
        return o
    def s_while(self, st, s):
        if self.mentions(s[2], "get_command_argument"): return self.arg_loop(st, s)
        return run_loop(self.eng, st, lambda x: self.cond(x, s[1]), self.body_fn(s[2], None, 1), "loop in %s" % self.fname)
    def mentions(self, body, name):
        found = []
        def walk(x):
            if isinstance(x, str):
                if name in x: found.append(1)
            elif isinstance(x, (tuple, list)):
                for y in x: walk(y)
        walk(body); return bool(found)
    def arg_loop(self, st, s):
        """reading the command line: afterwards the variables assigned in the loop have arbitrary values of their types"""
        for q in self.assigned(st, s[2]):
            path, fr, nm = self.lookup(st, q)
            d = fr.decls.get(nm); v = st.read(path)
            mk = lambda b=d.base: {"INTEGER": lambda: self.eng.fresh(nm, INT), "REAL": lambda: self.eng.fresh(nm, REAL), "LOGICAL": lambda: self.eng.fresh(nm, BOOL)}.get(b, lambda: Opaque(nm))()
            if isinstance(v, CVec): st.write(path, CVec([mk() for _ in v.items]))
            elif is_arr(v): raise Unsupported("array assigned while reading the command line")
            else: st.write(path, mk())
        return Outcome(st)
    # -- OpenMP
    def omp_private(self, st, cl):
        out = []
        for nm, a in cl:
            if nm in ("private", "firstprivate", "lastprivate", "reduction", "linear") and a:
                a = a.split(":")[-1] if nm == "reduction" else a
                for v in a.split(","):
                    path, fr, n = self.lookup(st, v.strip())
                    out.append((path[0], nm))
        return out
    def enter(self, st, priv):
        saved = {}
        for r, kind in priv:
            if kind in ("private", "firstprivate"): saved[r] = st.vars[r]
            if kind in ("private", "lastprivate"): st.vars[r] = undef_deep(st.vars[r])
        return saved
    def leave(self, st, saved):
        for r, v in saved.items(): st.vars[r] = undef_deep(v) if False else v
    def s_omp(self, st, s):
        _, kind, cl, body = s
        if kind in ("BARRIER", "TASKWAIT", "FLUSH"): return Outcome(st)
        kind = re.sub(r"(TARGET )?TEAMS (DISTRIBUTE|LOOP)( PARALLEL DO)?( SIMD)?|TARGET PARALLEL (DO|LOOP)( SIMD)?|PARALLEL LOOP", "PARALLEL DO", kind)
        priv = self.omp_private(st, cl)
        collapse = next((int(a) for n, a in cl if n == "collapse"), 1)
        if kind in ("PARALLEL DO", "PARALLEL DO SIMD", "DO", "DO SIMD", "SIMD"):
            if any(n == "nowait" for n, _ in cl): self.eng.oblige(st, "%s: work-sharing loop ends with a barrier (nowait removed it)" % self.fname, "race", False)
            if len(body) != 1 or body[0][0] != "do": raise Unsupported("work sharing of something else than a DO loop")
            if kind in ("DO", "DO SIMD") and not self.omp: return self.s_do(st, body[0])
            if self.omp: self.omp[-1]["ws"] += 1
            try: return self.s_do(st, body[0], "omp " + kind.lower(), priv, collapse)
            finally:
                if self.omp: self.omp[-1]["ws"] -= 1
        if kind == "PARALLEL":
            # variables created so far are shared unless listed; loop variables are private
            self.touch(st, body)
            outer = set(st.vars)
            p = priv + [(r, "private") for r in self.do_vars(st, body) if r not in {x for x, _ in priv}]
            self.omp.append({"shared": outer - {r for r, _ in p}, "ws": 0})
            saved = self.enter(st, p)
            try: o = self.exec_block(st, body)
            finally: self.omp.pop()
            if o.normal is not None: self.leave(o.normal, saved)
            return o
        if kind in ("SINGLE", "CRITICAL", "MASTER", "MASKED", "ATOMIC"):
            if kind in ("CRITICAL", "ATOMIC"):
                # executed by every thread: only harmless when nothing shared is accumulated; the order of updates is not determined
                self.eng.oblige(st, "%s: no update whose order depends on the schedule" % self.fname, "race", not self.omp) if self.omp else None
            if self.omp: self.omp[-1]["ws"] += 1
            try: return self.exec_block(st, body)
            finally:
                if self.omp: self.omp[-1]["ws"] -= 1
        if kind in ("TARGET", "TARGET DATA", "DATA"): return self.exec_block(st, body)
        raise Unsupported("OpenMP " + kind)
    # -- input and output
    def unit_root(self, st, u):
        u = norm_len(u)
        if not isint(u): raise Unsupported("unit number is not known")
        return "stdout" if u == 6 else "unit%d" % u
    def s_open(self, st, s):
        opt = s[1]; nm = self.eval_any(st, opt["FILE"]) if "FILE" in opt else "?"
        if "UNIT" in opt: u = self.eval(st, opt["UNIT"])
        else:
            if not self.u.newunits: raise Unsupported("OPEN without a unit")
            v = self.u.newunits[min(self.opened, len(self.u.newunits) - 1)] if len(set(self.u.newunits)) > 1 else self.u.newunits[0]
            self.opened += 1; u = -10 - self.opened
            self.assign(st, ("var", "%s:%s" % (self.frames[-1].name, v), []), u)
        for k in ("ACCESS", "POSITION", "FORM"):
            if k in opt and str(self.eval(st, opt[k])).strip().lower() not in ("sequential", "rewind", "asis", "formatted"): raise Unsupported("OPEN %s" % k)
        for k in ("IOSTAT", "IOMSG", "ERR"):
            if k in opt: raise Unsupported("OPEN %s" % k)
        r = self.unit_root(st, u); self.files.append(r)
        st.vars[r] = Stream((("open", nm),)); return Outcome(st)
    def s_close(self, st, s):
        r = self.unit_root(st, self.eval(st, s[1]["UNIT"])) if "UNIT" in s[1] else None
        if r in st.vars: st.vars[r] = st.vars[r].put(("close",))
        return Outcome(st)
    def s_read(self, st, s):
        for k in ("IOSTAT", "SIZE"):
            if k in s[1]: self.assign(st, s[1][k], self.eng.fresh(k.lower(), INT))
        for x in s[2]:
            if x[0] != "transfer" or x[1][0] != "var": raise Unsupported("READ")
            path, sec, t = self.place(st, x[1])
            srt = {"INTEGER": INT, "REAL": REAL, "LOGICAL": BOOL}.get(t[0] if t else None)
            self.assign(st, x[1], self.eng.fresh("read", srt) if srt is not None else Opaque("read"))
        return Outcome(st)
    def transfers(self, st, items):
        """the values transferred: scalars, or ('many', SVec)"""
        out = []
        for x in items:
            if x[0] == "transfer":
                v = self.eval(st, x[1])
                if isinstance(v, CVec): out += list(v.items)
                elif isinstance(v, SVec):
                    if v.rank > 1: raise Unsupported("output of a matrix")
                    out.append(("many", v.len, lambda i, w=v: w.get(i)))
                else: out.append(v)
            elif x[0] == "do":
                a, b, k = self.do_parts(st, x[1], x[2], x[3], x[4])
                if len(x[5]) != 1 or x[5][0][0] != "transfer" or k != 1: raise Unsupported("implied DO")
                path, _, _ = self.place(st, x[1])
                n = norm_len(simp(add(sub(b, a), 1)))
                def get(i, a=a, path=path, e=x[5][0][1]):
                    s2 = st.copy(); s2.write(path, add(a, i)); s2.assume(i >= 0) if is_z(i) else None; s2.assume(Z(lt(i, n)))
                    r = self.eng.record; self.eng.record = 0
                    try: return self.eval(s2, e)
                    finally: self.eng.record = r
                if isint(n) and n <= SMALL: out += [get(i) for i in range(max(n, 0))]
                else: out.append(("many", n, get))
            else: raise Unsupported("output list")
        return out
    def s_write(self, st, s):
        _, opt, items = s
        if "UNIT" not in opt or "REC" in opt: raise Unsupported("WRITE")
        ux = self.eval_any(st, opt["UNIT"])
        if isinstance(ux, (str, Opaque)) or ux is UNDEF:      # internal file
            self.assign(st, opt["UNIT"], Opaque("internal write")); return Outcome(st)
        root = self.unit_root(st, ux)
        if root not in st.vars:
            if root == "stdout": st.vars[root] = Stream(())
            else:
                self.eng.oblige(st, "%s: the unit written to is connected to the file" % self.fname, "post", False)
                raise Unsupported("unit written to is not open")
        vals = self.transfers(st, items)
        fmt = self.eval(st, opt["FMT"]) if "FMT" in opt else None
        adv = str(self.eval(st, opt["ADVANCE"])).strip().lower() if "ADVANCE" in opt else "yes"
        if isinstance(fmt, str): out = self.formatted(st, fmt, vals, root)
        elif fmt == -1 or fmt is None and False: out = self.listed(vals)
        else: raise Unsupported("unformatted or labelled WRITE")
        if adv != "no": out.append("\n")
        st.vars[root] = st.vars[root].put(*out)
        return Outcome(st)
    def listed(self, vals):
        out = []; prev = None
        for v in vals:
            if isinstance(v, tuple) and v[0] == "many":
                k = z3.Int("w!%d" % next(self.eng.names)); x = v[2](k); out.append(Rep(v[1], k, [" ", self.tok(x)])); prev = "n"; continue
            if isinstance(v, (str, Opaque)):
                if prev != "s": out.append(" ")
                out.append(v if isinstance(v, str) else Tok(v, "str")); prev = "s"
            else: out += [" ", self.tok(v)]; prev = "n"
        if vals and prev == "s" and False: pass
        return out
    def tok(self, v):
        if isinstance(v, str): return v
        if isinstance(v, Opaque): return Tok(v, "str")
        if isbool(v): return Tok(v, "str")
        return Tok(v, "real" if isreal(v) else "int")
    def fits(self, st, cond, what, root):
        if root == "stdout": return
        self.eng.oblige(st, "%s: %s" % (self.fname, what), "post", cond)
    def edit(self, st, ed, v, root):
        """pieces a value is printed as"""
        if ed.k == "a":
            if not isinstance(v, (str, Opaque)): raise Unsupported("edit descriptor a for a number")
            if isinstance(v, Opaque): return [Tok(v, "str")]
            if ed.w is not None: v = v.rjust(ed.w) if len(v) < ed.w else v[:ed.w]
            return [v]
        if isinstance(v, (str, Opaque)): raise Unsupported("edit descriptor %s for a string" % ed.k)
        if ed.k == "l": return [Tok(v, "str")]
        if ed.k == "i":
            if isreal(v): self.fits(st, False, "an integer is written with an integer edit descriptor", root); return [Tok(v, "real")]
            if not ed.w: return [Tok(v, "int")]
            w = ed.w; c = lambda w: band(lt(-10 ** (w - 1), v), lt(v, 10 ** w)) if w > 0 else False
            self.fits(st, c(w), "the value fits in the %d columns it is written in" % w, root)
            lead = w > 1 and self.eng.entails(st, c(w - 1), 2000)
            return ([" "] if lead else []) + [Tok(v, "int")]
        if ed.k == "g" and not isreal(v):
            return self.edit(st, Ed("i", ed.w), v, root)
        if not isreal(v):
            self.fits(st, False, "a real is written with a real edit descriptor", root); return [Tok(v, "int")]
        w = ed.w or 0
        if ed.k == "g" and w == 0: return [Tok(v, "real")]
        if ed.d is None: raise Unsupported("real edit descriptor without digits")
        if ed.k in ("e", "d", "es", "en", "g"):
            d = ed.d
            self.fits(st, d >= (6 if ed.k in ("e", "d", "g") else 5), "at least six significant digits are written", root)
            e = ed.e if ed.e is not None else 2
            need = d + e + (5 if ed.k in ("e", "d") else 5)          # sign, digit, point, digits, E, sign, exponent
            self.fits(st, w == 0 or w >= need - (1 if w == need - 1 and False else 0), "the value fits in the %d columns it is written in" % w, root)
            if e < 3:
                big = Fraction(10) ** 99; small = Fraction(1, 10 ** 99)
                self.fits(st, bor(eq(v, Fraction(0)), band(lt(v, big), lt(neg(v), big), bor(ge(v, small), le(v, neg(small))))), "the exponent of every value fits the digits it is given (else its letter is left out)", root)
            return ([" "] if w > need else []) + [Tok(v, "real")]
        if ed.k == "f":
            self.fits(st, False, "a fixed number of decimals keeps the significant digits of every value", root)
            return [" ", Tok(v, "real")] if w > ed.d + 8 else [Tok(v, "real")]
        raise Unsupported("edit descriptor " + ed.k)
    def formatted(self, st, fmt, vals, root):
        items, rev = parse_format(fmt)
        inf = next((k for k, x in enumerate(items) if x.k == "inf"), None)
        ndata = sum(x.k in DATA for x in items)
        out = []; pos = 0; vs = list(vals)
        def literal(x):
            if x.k == "lit": out.append(x.s)
            elif x.k == "x": out.append(" " * x.w)
            elif x.k == "nl": out.append("\n")
            else: return False
            return True
        def skip():
            nonlocal pos
            while pos < len(items) and items[pos].k not in DATA and items[pos].k != "inf":
                if items[pos].k == "colon":
                    if not vs: return
                else: literal(items[pos])
                pos += 1
        cur = items; count = 0
        skip()
        while vs:
            if pos >= len(items):
                out.append("\n"); pos = rev
                if not any(x.k in DATA for x in items[rev:]): raise Unsupported("values left over by format " + fmt)
                skip()
            if items[pos].k == "inf":
                g = items[pos].s
                if sum(x.k in DATA for x in g) != 1: raise Unsupported("unlimited repeat in format")
                v = vs.pop(0); lits = [x for x in g]
                def pieces(x):
                    r = []
                    for y in g:
                        if y.k == "lit": r.append(y.s)
                        elif y.k == "x": r.append(" " * y.w)
                        elif y.k == "nl": r.append("\n")
                        elif y.k == "colon": pass
                        else: r += self.edit(st, y, x, root)
                    return r
                if isinstance(v, tuple): out.append(self.many(st, v, pieces))
                else: out += pieces(v)
                continue
            v = vs.pop(0)
            if isinstance(v, tuple) and v[0] == "many":
                # every record is one pass over a format with a single data descriptor
                tail = items[rev:]
                if sum(x.k in DATA for x in items) != 1 or rev != 0 or vs: raise Unsupported("array output with format " + fmt)
                pre = out; out = []
                def pieces(x):
                    r = []
                    for y in items:
                        if y.k in DATA: r += self.edit(st, y, x, root)
                        elif y.k == "lit": r.append(y.s)
                        elif y.k == "x": r.append(" " * y.w)
                        elif y.k == "nl": r.append("\n")
                    return r + ["\n"]
                return [self.many(st, v, pieces)]
            out += self.edit(st, items[pos], v, root); pos += 1
            skip()
        return out
    def many(self, st, v, pieces):
        k = z3.Int("w!%d" % next(self.eng.names))
        s2 = st; h = list(st.hyps); st.assume(z3.And(k >= 0, k < Z(v[1])))
        try: return Rep(v[1], k, pieces(v[2](k)))
        finally: st.hyps = h
def strip_idx(path): return tuple(a for a in path if not (isinstance(a, tuple) and a[0] == "i"))
def simp(t):
    if not is_z(t): return t
    return unz(z3.simplify(t)) if z3.is_int_value(z3.simplify(t)) else cppfe.simp_lin(t)
def simp_idx(i): return tuple(simp(x) for x in i) if isinstance(i, tuple) else simp(i)
def _modules(self):
    return {p.name for p in self.procs.values() if p.name in p.decls and "MODULE" in p.decls[p.name].attr}
Unit.modules_ = _modules
