"""Files as sequences of words: the terms a function writes to a stream (literal text, formatted values, segments repeated
by loops) are read back symbolically, so that a contract speaks about words and numbers and not about how they were
printed.  White space is only required where two words would otherwise run together."""
from .core import *

class BadText(Exception): pass
def is_ws(s): return s.strip() == ""
class Word:
    def __init__(self, s): self.s = s
    def __repr__(self): return "Word(%r)" % self.s
class Glue:
    def __init__(self, parts): self.parts = parts
    def __repr__(self): return "Glue%r" % (self.parts,)
class WRep:
    def __init__(self, n, k, items): self.n, self.k, self.items = n, k, items
    def __repr__(self): return "WRep(%s;%s;%r)" % (self.n, self.k, self.items)
class Sep:
    """white space present under a condition"""
    def __init__(self, c): self.c = c

def atoms(items):
    """separators and pieces of words, in order"""
    out = []
    for x in items:
        if isinstance(x, str):
            i = 0
            while i < len(x):
                j = i
                if x[i].isspace():
                    while j < len(x) and x[j].isspace(): j += 1
                    out.append(Sep(True))
                else:
                    while j < len(x) and not x[j].isspace(): j += 1
                    out.append(x[i:j])
                i = j
        elif isinstance(x, Tok): out.append(x)
        elif isinstance(x, Rep): out.append(Rep(x.n, x.k, x.items))
        elif isinstance(x, Opt):
            a, b = atoms(x.a), atoms(x.b)
            out += merge_atoms(x.c, a, b)
        elif isinstance(x, tuple): continue
        else: raise Unsupported("stream item %r" % (x,))
    return out
def merge_atoms(c, a, b):
    if not is_z(c): return a if c else b
    ka, kb = [x for x in a if not isinstance(x, Sep)], [x for x in b if not isinstance(x, Sep)]
    if len(ka) != len(kb): raise Unsupported("text written under a condition")
    out = []; i = j = 0
    def seps(L, i):
        s = False
        while i < len(L) and isinstance(L[i], Sep): s = bor(s, L[i].c); i += 1
        return s, i
    for k in range(len(ka) + 1):
        sa, i = seps(a, i); sb, j = seps(b, j)
        s = bor(band(c, sa), band(bnot(c), sb))
        if s is not False: out.append(Sep(s))
        if k == len(ka): break
        x, y = ka[k], kb[k]; i += 1; j += 1
        if isinstance(x, str) and x == y: out.append(x)
        elif isinstance(x, Tok) and isinstance(y, Tok) and x.kind == y.kind: out.append(Tok(ite(c, x.v, y.v), x.kind))
        elif isinstance(x, Rep) and isinstance(y, Rep):
            m = [map_value(z, lambda t: subst(t, [(y.k, x.k)])) for z in y.items]
            out.append(Rep(ite(c, x.n, y.n), x.k, [Opt(c, x.items, m)]))
        else: raise Unsupported("different text under a condition")
    return out

class Reader:
    """words of a stream; separation that depends on conditions becomes obligations (hyps, condition, name)"""
    def __init__(self): self.obls = []
    def words(self, items, hyps):
        """-> (words, head separation, tail separation, has words)"""
        out = []; sep = False; head = None; last = None        # last: hyps under which the previous element ended, if any
        for x in atoms(items):
            if isinstance(x, Sep): sep = bor(sep, x.c); continue
            if isinstance(x, Rep):
                k = x.k; n = x.n
                kh = hyps + [Z(ge(k, 0)), Z(lt(k, n))]
                ws, h, t, some = self.words(x.items, kh)
                if not some:
                    if isint(n) and n > 0 or t is True and False: sep = bor(sep, True if t is True else t)
                    continue
                # between iterations
                nxt = subst(h, [(k, add(k, 1))]) if is_z(h) else h
                self.need(kh + [Z(lt(add(k, 1), n))], bor(t, nxt), "consecutive words written by a loop are separated")
                h0 = subst(h, [(k, z3.IntVal(0))]) if is_z(h) else h
                if head is None: head = bor(sep, h0)
                else: self.need(hyps + [Z(gt(n, 0))], bor(sep, h0), "words are separated")
                out.append(WRep(n, k, ws))
                # if the loop does not run at all, what came before meets what comes after
                tn = subst(t, [(k, sub(n, 1))]) if is_z(t) else t
                sep = bor(band(gt(n, 0), tn), band(le(n, 0), sep)) if not (tn is True and (sep is True or isint(n) and n > 0)) else True
                continue
            w = Word(x) if isinstance(x, str) else x
            if head is None: head = sep; out.append(w)
            elif sep is False:
                p = out.pop() if out and not isinstance(out[-1], WRep) else None
                if p is None: self.need(hyps, False, "words are separated"); out.append(w)
                elif isinstance(p, Word) and isinstance(w, Word): out.append(Word(p.s + w.s))
                else: out.append(Glue((p.parts if isinstance(p, Glue) else [p]) + [w]))
            else:
                self.need(hyps, sep, "words are separated"); out.append(w)
            sep = False
        if head is None: return out, sep, sep, False
        return out, head, sep, True
    def need(self, hyps, c, name):
        if c is True: return
        self.obls.append((list(hyps), c, name))

class Seq:
    """a sequence of numbers: pieces are Tok / number words / WRep of such"""
    def __init__(self, pieces): self.pieces = pieces; self.len = seq_len(pieces)
    def get(self, i): return seq_get(self.pieces, i)
def seq_len(ps):
    n = 0
    for p in ps: n = add(n, mul(p.n, seq_len(p.items)) if isinstance(p, WRep) else 1)
    return unz(z3.simplify(n)) if is_z(n) else n
def seq_get(ps, i):
    if len(ps) == 1 and isinstance(ps[0], WRep):
        p = ps[0]; m = seq_len(p.items)
        if is_z(m) and p.k is not None and uses_var(m, p.k): raise Unsupported("segments of different lengths")
        if m == 1: q, r = i, 0
        else: q, r = fdiv(i, m), fmod(i, m)
        sub_ = [map_value(x, lambda t: subst(t, [(p.k, Z(q))])) if not isinstance(x, WRep) else WRep(map_value(x.n, lambda t: subst(t, [(p.k, Z(q))])), x.k, [map_words(y, p.k, q) for y in x.items]) for x in p.items]
        return seq_get(sub_, r)
    pos = 0; res = None; parts = []
    for p in ps:
        n = mul(p.n, seq_len(p.items)) if isinstance(p, WRep) else 1
        parts.append((pos, n, p)); pos = add(pos, n)
    for a, n, p in reversed(parts):
        v = (lambda: seq_get([p], sub(i, a))) if isinstance(p, WRep) else (lambda: num(p))
        c = lt(i, add(a, n))
        if c is False: continue
        if c is True and (ge(i, a) is True): res = v(); continue
        if res is None: res = v()
        else: res = ite(c, v(), res)
    return res
def nest_path(ps, idx, j):
    """element j of the innermost body at the given loop indices of a nest of loops: (position, range condition, value), or None"""
    if len(idx) == 0:
        if any(isinstance(p, WRep) for p in ps) or j >= len(ps): return None
        return j, True, num(ps[j])
    k0 = idx[0]
    if len(ps) > 1 and all(isinstance(p, WRep) for p in ps):        # the outermost loop was unrolled
        off = 0; R = []
        for p in ps:
            r = nest_path([p], idx[1:], j)
            if r is None: return None
            R.append((add(off, r[0]), r[1], r[2])); off = add(off, seq_len([p]))
        pos, c, v = R[-1]
        for q in reversed(range(len(R) - 1)):
            g = eq(k0, q); pos, c, v = ite(g, R[q][0], pos), ite(g, R[q][1], c) if not same(R[q][1], c) else c, ite(g, R[q][2], v)
        return pos, band(ge(k0, 0), lt(k0, len(ps)), c), v
    if len(ps) != 1 or not isinstance(ps[0], WRep): return None
    p = ps[0]
    body = [map_words(x, p.k, k0) for x in p.items]
    r = nest_path(body, idx[1:], j)
    if r is None: return None
    m = seq_len(p.items)
    if is_z(m) and uses_var(m, p.k): return None
    return add(mul(k0, m), r[0]), band(ge(k0, 0), lt(k0, p.n), r[1]), r[2]
def map_words(x, k, q):
    if isinstance(x, WRep): return WRep(map_value(x.n, lambda t: subst(t, [(k, Z(q))])), x.k, [map_words(y, k, q) for y in x.items])
    if isinstance(x, Tok): return map_value(x, lambda t: subst(t, [(k, Z(q))]))
    return x
def uses_var(t, k):
    seen = set(); st = [t]
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if u.eq(k): return True
        st += u.children()
    return False
def is_number(w):
    if isinstance(w, Tok): return w.kind in ("int", "real")
    if isinstance(w, Word):
        try: float(w.s); return True
        except ValueError: return False
    if isinstance(w, WRep): return all(is_number(x) for x in w.items)
    return False
def num(w):
    if isinstance(w, Tok): return w.v
    return Fraction(w.s) if not ("e" in w.s.lower() and "." not in w.s) else Fraction(float(w.s)) if True else None

def header_lines(items, n):
    """the first n lines, which must be literal text; and the remaining items"""
    lines = []; rest = list(items); buf = ""
    while len(lines) < n:
        while rest and isinstance(rest[0], tuple): rest.pop(0)
        if not rest or not isinstance(rest[0], str): raise BadText("the first %d lines are not constant text" % n)
        buf += rest.pop(0)
        while "\n" in buf and len(lines) < n:
            l, buf = buf.split("\n", 1); lines.append(l)
    return lines, ([buf] if buf else []) + rest

class VtkDoc:
    """the legacy VTK file a stream denotes; raises BadText when it is none"""
    def __init__(self, items, hyps):
        self.R = Reader()
        lines, rest = header_lines(items, 2)
        import re
        if not re.fullmatch(r"# vtk DataFile Version \d+\.\d+\s*", lines[0]): raise BadText("first line %r" % lines[0])
        if len(lines[1]) > 255: raise BadText("title too long")
        W, h, t, some = self.R.words(rest, hyps)
        self.w = W; self.i = 0
        self.need("ASCII"); self.need("DATASET")
        k = self.word()
        self.kind = k
        self.need("DIMENSIONS"); self.dims = [self.number() for _ in range(3)]
        if k == "RECTILINEAR_GRID":
            self.axes = []
            for nm in ("X_COORDINATES", "Y_COORDINATES", "Z_COORDINATES"):
                self.need(nm); n = self.number(); self.type(); self.axes.append((n, self.numbers()))
        elif k == "STRUCTURED_GRID":
            self.need("POINTS"); self.npoints = self.number(); self.type(); self.points = self.numbers()
        else: raise BadText("dataset kind %r" % k)
        self.need("CELL_DATA"); self.ncells = self.number()
        self.need("SCALARS"); self.name = self.next(); self.type()
        w = self.next()
        if isinstance(w, Word) and w.s == "LOOKUP_TABLE": self.i -= 1
        elif not (isinstance(w, Word) and w.s == "1" or isinstance(w, Tok) and w.v == 1): raise BadText("number of components %r" % (w,))
        self.need("LOOKUP_TABLE"); self.need("default")
        self.values = self.numbers()
        if self.i != len(self.w): raise BadText("after the values: %r" % (self.w[self.i],))
    def next(self):
        if self.i >= len(self.w): raise BadText("the file ends early")
        self.i += 1; return self.w[self.i - 1]
    def word(self):
        w = self.next()
        if isinstance(w, Word): return w.s
        raise BadText("a keyword expected, %r found" % (w,))
    def need(self, k):
        w = self.next()
        if not isinstance(w, Word) or w.s != k: raise BadText("%s expected, %r found" % (k, w))
    def number(self):
        w = self.next()
        if isinstance(w, WRep) or not is_number(w): raise BadText("a number expected, %r found" % (w,))
        return num(w)
    def type(self):
        w = self.word()
        if w not in ("double", "float"): raise BadText("type %r" % w)
    def numbers(self):
        i = self.i
        while self.i < len(self.w) and is_number(self.w[self.i]): self.i += 1
        if i == self.i: return Seq([])
        return Seq(self.w[i:self.i])
