"""Contracts of CmdLineArgParser (cxx/CmdLineArgParser.h).  Strings are terms: a string is identified by an
integer, equality of strings is equality of the identifiers, length and characters are functions of it;
atof and atoi are uninterpreted functions of the string."""
from .cxx_lib import *
from vcg.loops import LoopRec
from vcg.lemma import Tactic

SLEN = z3.Function("strlen", INT, INT); SCH = z3.Function("strch", INT, INT, INT)
CAT = z3.Function("strcat", INT, INT, INT)
class Find:
    """position of a key in a map: the entry's position, or the number of entries"""
    def __init__(self, f, tag): self.f, self.tag = f, tag
    def __call__(self, x): return self.f(x)
    def map_terms(self, g): return self
    def merge_with(self, c, o): return Find(lambda x: ite(c, self.f(x), o.f(x)), self.tag) if o.tag != self.tag else self
    def same_as(self, o): return self.tag == o.tag
class StrTab:
    def __init__(self): self.ids = {}; self.n = 0
    def lit(self, s):
        if s not in self.ids: self.ids[s] = len(self.ids) + 1
        return self.ids[s]
    def facts(self):
        out = []
        for s, i in self.ids.items():
            out += [SLEN(z3.IntVal(i)) == len(s)] + [SCH(z3.IntVal(i), z3.IntVal(k)) == ord(c) for k, c in enumerate(s)]
        return out
    def fn(self, nm, sort): return z3.Function(nm, INT, sort)
    def concat(self, a, b): return CAT(Z(a), Z(b))
    def char_at(self, I, st, v, i, n):
        st.assume(SLEN(Z(v)) >= 0); st.assume(SCH(Z(v), SLEN(Z(v))) == 0)
        I.safety(st, "character within the string", band(ge(i, 0), le(i, SLEN(Z(v)))), n)
        return SCH(Z(v), Z(i))
    def str_method(self, I, st, v, nm, args, n):
        if nm in ("c_str", "data"): return v
        if nm in ("size", "length"): st.assume(z3.And(SLEN(Z(v)) >= 0, SLEN(Z(v)) < 2**62)); return SLEN(Z(v))
        if nm == "empty": return eq(SLEN(Z(v)), 0)
        if nm == "compare" and len(args) == 1: return ite(eq(v, I.rv(st, args[0])), 0, 1)
        raise Unsupported("string method " + nm)
    def empty_map(self, t):
        el = t.rstrip(">").rsplit(",", 1)[1].strip() if t.count(",") == 1 else t
        self.n += 1
        return Obj("omap", {"n": 0, "keys": SVec(0, lambda i: z3.IntVal(0)), "vals": SVec(0, (lambda i: z3.RealVal(0)) if "double" in el else (lambda i: z3.BoolVal(False)) if "bool" in el else (lambda i: z3.IntVal(0))), "find": Find(lambda x: 0, "empty%d" % self.n)})
    def sym_map(self, name, sort):
        """arbitrary map: distinct keys; returns the value and the facts about it"""
        n = z3.Int("n_" + name); K = z3.Function("key_" + name, INT, INT); V = z3.Function("val_" + name, INT, sort); F = z3.Function("find_" + name, INT, INT)
        p, x = z3.Int("mp"), z3.Int("mx")
        facts = [n >= 0, n <= 2**31, QFact((x,), z3.And(F(x) >= 0, F(x) <= n, z3.Implies(F(x) < n, K(F(x)) == x)), [F(x)], "find"),
                 QFact((p,), z3.Implies(z3.And(p >= 0, p < n), F(K(p)) == p), [K(p)], "keys are distinct")]
        return Obj("omap", {"n": n, "keys": SVec(n, lambda i: K(Z(i))), "vals": SVec(n, lambda i: V(Z(i))), "find": Find(lambda x: F(Z(x)), "find_" + name)}), facts, (n, K, V, F)
    def entry(self, I, st, base, m, key):
        """operator[]: the entry of a key, created when missing"""
        n, F = m.fields["n"], m.fields["find"]; found = lt(F(key), n)
        n2 = ite(found, n, add(n, 1)); pos = ite(found, F(key), n)
        self.n += 1
        ks, vs = m.fields["keys"], m.fields["vals"]
        zero = {REAL: z3.RealVal(0), BOOL: z3.BoolVal(False)}.get(Z(vs.get(z3.Int("ph!z"))).sort(), z3.IntVal(0))
        k2 = ks.with_layer(Layer(lambda i: band(bnot(found), eq(i, n)), lambda i: key, None), n2)
        v2 = vs.with_layer(Layer(lambda i: band(bnot(found), eq(i, n)), lambda i: zero, None), n2)
        F2 = Find(lambda x: ite(found, F(x), ite(eq(x, key), n, ite(lt(F(x), n), F(x), add(n, 1)))), "ins%d" % self.n)
        st.write(base, Obj("omap", {"n": n2, "keys": k2, "vals": v2, "find": F2}))
        return base + (("f", "vals"), ("i", pos))
    def map_method(self, I, st, base, m, nm, args, n, want_ref):
        from vcg.core import MapIter
        if nm in ("begin", "cbegin"): return MapIter(base, 0)
        if nm in ("end", "cend"): return MapIter(base, m.fields["n"])
        if nm == "find": return MapIter(base, m.fields["find"](I.rv(st, args[0])))
        if nm == "count": return ite(lt(m.fields["find"](I.rv(st, args[0])), m.fields["n"]), 1, 0)
        if nm == "size": return m.fields["n"]
        if nm == "empty": return eq(m.fields["n"], 0)
        if nm == "at":
            p = m.fields["find"](I.rv(st, args[0])); I.safety(st, "map::at finds the key", lt(p, m.fields["n"]), n)
            q = base + (("f", "vals"), ("i", p)); from vcg.cppfe import Ref
            return Ref(q) if want_ref else st.read(q)
        raise Unsupported("map method " + nm)

MAPS = {"doubleArg": ("double", REAL), "intArg": ("int", INT), "stringArg": ("std::basic_string<char>", INT), "boolArg": ("bool", BOOL)}
ARGV = z3.Function("argv", INT, INT)
def setup(U, fn):
    tu = load('#include "CmdLineArgParser.cpp"\n', ["CmdLineArgParser"])
    eng = U.engine(fn); I = Interp(eng, tu); I.strtab = T = StrTab(); T.lit("")
    st = State(); o = default_value(I, "CmdLineArgParser", True); sym = {}
    for k, (t, s) in MAPS.items():
        if k not in o.fields: raise Unsupported("member %s not found" % k)
        m, f, sym[k] = T.sym_map(k, s)
        o = o.with_(k, m)
        for x in f: st.assume(x)
        if k + "Help" in o.fields:
            m, f, _ = T.sym_map(k + "Help", INT); o = o.with_(k + "Help", m)
            for x in f: st.assume(x)
    for f in ("execName", "purpose", "footer"):
        if f in o.fields: o = o.with_(f, z3.Int("str_" + f))
    # a name is registered in one map only
    x = z3.Int("rx")
    return tu, eng, I, T, st, o, sym

def run_parse(U):
    tu, eng, I, T, st, o, sym = setup(U, "CmdLineArgParser::parse")
    st.vars["self"] = o; st.vars["argvec"] = SVec(z3.Int("argc"), lambda i: ARGV(Z(i))); argc = z3.Int("argc")
    st.assume(argc >= 1); st.assume(argc <= 2**31 - 1)
    U.vacuity(eng, st.hyps, "parse")
    st.vars["g:cout"] = Stream(); st.vars["g:cerr"] = Stream()
    r = invoke(I, st, method(tu, "CmdLineArgParser", "parse"), ("self",), argc, Ptr(("argvec",), 0))
    for f in T.facts(): st.assume(f)
    return tu, eng, I, T, st, o, sym, r, argc
def rec_of(eng, t):
    """the (last recorded) recursion whose application t is"""
    hit = None
    for L in eng.loops:
        for p, r in getattr(L, "recs", {}).items():
            if r.kind == "scalar" and is_z(t) and z3.is_app(t) and Z(r.fn(0)).decl().eq(t.decl()) and hasattr(r, "step"): hit = r
    return hit
def bad_token(T, a, sym):
    """looks like an option name and is not registered"""
    t = ARGV(Z(a))
    unreg = [sym[k][3](t) == sym[k][0] for k in MAPS]
    return z3.And(SLEN(t) >= 2, SCH(t, 0) == ord("-"), z3.Not(z3.And(SCH(t, 1) >= 48, SCH(t, 1) <= 57)), *unreg)
def parse_unit(which):
    def run(U):
        tu, eng, I, T, st, o, sym, r, argc = run_parse(U)
        hy = st.hyps
        after = st.vars["self"]
        n, K, V, F = sym[which]
        p = z3.Int("p"); rng = [p >= 0, p < n]
        m = after.fields[which]
        if which == "doubleArg":
            U.discharge(eng)
            # validation
            a = z3.Int("a"); ex = [L for L in eng.loops if is_z(L.exit)]
            inst = []
            for L in ex:
                for sft in (0, 1, 2):
                    k = a - sft
                    inst.append(Z(implies(band(ge(k, 0), lt(k, L.N)), bnot(subst(L.exit, [(L.kap, k)])))))
            U.goal(eng, hy + inst + [a >= 1, a < argc, bad_token(T, a, sym)] + [z3.And(SLEN(ARGV(a)) >= 0, SLEN(ARGV(a)) < 2**62)], "a token that looks like an option name and is not registered makes the parse fail", bnot(r))
            if is_z(unz(r)):
                cand = [bad_token(T, add(L.N, s), sym) for L in ex for s in (0, 1)]
                U.goal(eng, hy + [Z(bnot(r))], "the parse fails only on such a token", bor(*[band(lt(add(L.N, s), argc), ge(add(L.N, s), 1), bad_token(T, add(L.N, s), sym)) for L in ex for s in (0, 1)]))
        ok = hy + rng + [Z(r)]
        no = hy + rng + [Z(bnot(r))]
        U.goal(eng, hy, "%s: no option is added or removed" % which, eq(m.fields["n"], n))
        U.goal(eng, hy + rng, "%s: names stay" % which, eq(m.fields["keys"].get(p), K(p)))
        if eng.prover.check(no, z3.BoolVal(False), 2000)[0] != "proved":
            U.goal(eng, no, "%s: a failed parse changes no value" % which, eq(m.fields["vals"].get(p), V(p)))
        v = m.fields["vals"].get(p)
        Tq = Tactic(eng, ok); v = Tq.rewrite(v)
        rec = rec_of(eng, v)
        if rec is None:
            if is_z(v) and same(unz(z3.simplify(Z(v))), V(p)): U.fact("%s: the values are updated" % which, False, detail="the value after the parse is the value before"); return
            raise Unsupported("%s: the new value is not computed by a loop over the arguments (%s)" % (which, str(v)[:200]))
        # outer counter := p
        kap = rec.kap; app = rec.fn(kap)
        outer = [x for x in app.children() if not x.eq(kap)]
        sub_ = [(x, p) for x in outer]
        fn = lambda k: subst(rec.fn(k), sub_)
        step = subst(Z(rec.step), sub_); init = subst(Z(rec.init), sub_)
        N = subst(rec.N, sub_) if is_z(rec.N) else rec.N
        k = z3.Int("k"); key = K(p)
        occ = lambda i: ARGV(Z(i)) == key
        kk = [k >= 0, Z(lt(k, N))]
        st_k = subst(step, [(kap, k)])
        base = hy + rng
        U.goal(eng, ok, "%s: the value left is the one the loop over the arguments computes" % which, eq(v, fn(N)))
        if which == "boolArg":
            PAR = z3.Function("odd_occurrences", INT, INT, BOOL)          # parity of the occurrences of the name among the arguments 1..j
            defs = lambda j: [z3.Not(PAR(p, 0)), PAR(p, j + 1) == z3.Xor(PAR(p, j), occ(j + 1))]
            spec = lambda j: z3.Xor(V(p), PAR(p, Z(j)))
            U.goal(eng, base + defs(k), "flag: before the first argument", eq(init, spec(0)))
            U.goal(eng, base + kk + defs(k) + [fn(k) == spec(k)], "flag: flipped by each occurrence of its name and by nothing else", eq(st_k, spec(k + 1)))
            U.goal(eng, base + [Z(r)], "flag: every argument is examined", eq(N, sub(argc, 1)))
            return
        conv = {"doubleArg": T.fn("atof", REAL), "intArg": T.fn("atoi", INT), "stringArg": lambda x: x}[which]
        LAST = z3.Function("last_occurrence", INT, INT, INT)               # last j >= 1 below the bound with argv[j] the name, 0 when none
        def defs(j): return [LAST(p, 0) == 0, LAST(p, 1) == 0, z3.Implies(j >= 1, LAST(p, j + 1) == z3.If(occ(j), j, LAST(p, j))), z3.Implies(j + 1 >= 1, LAST(p, j + 2) == z3.If(occ(j + 1), j + 1, LAST(p, j + 1)))]
        spec = lambda j: z3.If(LAST(p, Z(j)) > 0, conv(ARGV(LAST(p, Z(j)) + 1)), V(p))
        off = 0
        for s in (0, 1):
            if eng.prover.check(base + defs(0) + [Z(r)], Z(eq(spec(add(N, s)), spec(sub(argc, 1)))), 2000)[0] == "proved": off = s; break
        U.goal(eng, base + defs(0) + [Z(r)], "%s: every argument is examined" % which, eq(spec(add(N, off)), spec(sub(argc, 1))))
        U.goal(eng, base + defs(k), "%s: before the first argument" % which, eq(init, spec(off)))
        U.goal(eng, base + kk + defs(k) + [fn(k) == spec(add(k, off))] + [LAST(p, k) >= 0], "%s: the value is converted from the token after the last occurrence of the name" % which, eq(st_k, spec(add(k, off + 1))))
    return run
def access_unit(U):
    """get: the value of a registered name, the sentinel otherwise; set: registers the name with its default"""
    SENT = {"doubleArg": -Fraction(2)**1023 * (2 - Fraction(1, 2**52)), "intArg": -(2**31 - 1), "stringArg": None, "boolArg": False}
    for k, (t, s) in MAPS.items():
        tu, eng, I, T, st, o, sym = setup(U, "CmdLineArgParser::get<%s>" % t); st.vars["self"] = o; before = o
        nm = z3.Int("name"); st.vars["nm"] = nm; n, K, V, F = sym[k]
        fs = [f for f in tu.funcs if f.cls == "CmdLineArgParser" and f.name == "get" and canon_ret(f) == t]
        if not fs: raise Unsupported("get<%s> not found" % t)
        r = invoke(I, st, fs[-1], ("self",), nm); U.discharge(eng)
        same_object(U, "get<%s> changes nothing" % t, before, st.vars["self"])
        U.goal(eng, st.hyps + [F(nm) < n], "get<%s> of a registered name is its value" % t, eq(r, V(F(nm))))
        U.goal(eng, st.hyps + [F(nm) >= n], "get<%s> of an unregistered name is the documented sentinel" % t, eq(r, SENT[k] if SENT[k] is not None else T.lit("")))
        # set
        tu, eng, I, T, st, o, sym = setup(U, "CmdLineArgParser::set(%s)" % t); st.vars["self"] = o
        n, K, V, F = sym[k]
        dv = z3.Const("dflt", s)
        fs = [f for f in tu.funcs if f.cls == "CmdLineArgParser" and f.name == "set" and canon_str(strip_ref(ctype(f.params[1]["type"]))) == t]
        if not fs: raise Unsupported("set(%s) not found" % t)
        invoke(I, st, fs[0], ("self",), nm, dv, z3.Int("hlp")); U.discharge(eng)
        m = st.vars["self"].fields[k]; x = z3.Int("x"); F2 = m.fields["find"]
        U.goal(eng, st.hyps, "set(%s) registers the name" % t, lt(F2(nm), m.fields["n"]))
        U.goal(eng, st.hyps, "set(%s) stores the default" % t, eq(m.fields["vals"].get(F2(nm)), dv))
        U.goal(eng, st.hyps + [x != nm, F(x) < n], "set(%s) leaves the other options" % t, band(lt(F2(x), m.fields["n"]), eq(m.fields["vals"].get(F2(x)), V(F(x)))))
        U.goal(eng, st.hyps + [x != nm, F(x) >= n], "set(%s) registers no other name" % t, ge(F2(x), m.fields["n"]))
        ch = [q for q in changed(State({"o": o}), State({"o": st.vars["self"]})) if q[1][1] not in (k, k + "Help")]
        U.fact("set(%s) changes only the options of its type" % t, not ch, detail=str(ch))
    # constructor: -h registered, nothing else
    tu = load('#include "CmdLineArgParser.cpp"\n', ["CmdLineArgParser"])
    eng = U.engine("CmdLineArgParser::CmdLineArgParser"); I = Interp(eng, tu); I.strtab = T = StrTab(); T.lit(""); st = State()
    st.vars["self"] = default_value(I, "CmdLineArgParser", False)
    invoke(I, st, method(tu, "CmdLineArgParser", "CmdLineArgParser", nparams=0), ("self",)); U.discharge(eng)
    o = st.vars["self"]; h = T.lit("-h"); x = z3.Int("x")
    for k in MAPS:
        m = o.fields[k]
        U.goal(eng, st.hyps + [x != h], "a new parser knows no option but -h (%s)" % k, ge(m.fields["find"](x), m.fields["n"]))
    m = o.fields["boolArg"]
    U.goal(eng, st.hyps, "a new parser knows -h, off", band(lt(m.fields["find"](h), m.fields["n"]), bnot(m.fields["vals"].get(m.fields["find"](h)))))
    U.goal(eng, st.hyps, "-h is a flag only", band(*[ge(o.fields[k].fields["find"](h), o.fields[k].fields["n"]) for k in MAPS if k != "boolArg"]))
def canon_ret(f):
    from vcg.cppfe import canon
    return canon_str(canon(f.type.split("(")[0].strip()))
def canon_str(t):
    return {"std::string": "std::basic_string<char>", "string": "std::basic_string<char>", "basic_string<char>": "std::basic_string<char>"}.get(t, t)
def help_unit(U):
    """help(): every registered option has a help text (class invariant: set() and the constructor register both)"""
    tu, eng, I, T, st, o, sym = setup(U, "CmdLineArgParser::help"); st.vars["self"] = o; st.vars["g:cout"] = Stream(); st.vars["g:cerr"] = Stream()
    x = z3.Int("hx")
    for k in MAPS:
        if k + "Help" not in o.fields: raise Unsupported("member %sHelp not found" % k)
        m = o.fields[k + "Help"]; n, K, V, F = sym[k]; q = z3.Int("hq")
        st.assume(QFact((q,), z3.Implies(z3.And(q >= 0, q < n), Z(lt(m.fields["find"](K(q)), m.fields["n"]))), [K(q)], "a registered option has a help text"))
    before = o
    invoke(I, st, method(tu, "CmdLineArgParser", "help"), ("self",)); U.discharge(eng)
    same_object(U, "help changes nothing", before, st.vars["self"])
    # the invariant: kept by set
    for k, (t, s) in MAPS.items():
        tu, eng, I, T, st, o, sym = setup(U, "CmdLineArgParser::set(%s)" % t); st.vars["self"] = o; nm = z3.Int("name")
        fs = [f for f in tu.funcs if f.cls == "CmdLineArgParser" and f.name == "set" and canon_str(strip_ref(ctype(f.params[1]["type"]))) == t]
        if not fs: raise Unsupported("set(%s) not found" % t)
        h = o.fields[k + "Help"]; n, K, V, F = sym[k]; y = z3.Int("y")
        st.assume(z3.Implies(F(y) < n, Z(lt(h.fields["find"](y), h.fields["n"]))))
        invoke(I, st, fs[0], ("self",), nm, z3.Const("dflt", s), z3.Int("hlp")); U.discharge(eng)
        m, h = st.vars["self"].fields[k], st.vars["self"].fields[k + "Help"]
        U.goal(eng, st.hyps + [Z(lt(m.fields["find"](y), m.fields["n"]))], "set(%s): every registered option has a help text" % t, lt(h.fields["find"](y), h.fields["n"]), kind="invariant")
