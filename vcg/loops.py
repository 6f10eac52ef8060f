"""Loop contracts.  A loop with a symbolic trip count is replaced by an inferred invariant, indexed by
the number k of completed iterations, which is checked (initiation and consecution are proof
obligations, or hold by construction for a definitional recursion) and then used at exit.

Invariant forms, per modified location x:
  affine        x(k) = x0 + d*k
  memoryless    x(k) = ite(k=0, x0, e(k-1))
  recursion     x(0) = x0, x(k+1) = e(k, x(k), ...)        (e.g. sums)
  map (arrays)  a(k)[i] = v(i) for the cells written by iterations < k, a0[i] elsewhere
  collect       conditional push_back
  array recursion  a(0)=a0, a(k+1)[i] = e(k, a(k), i)
  stream        one segment per iteration
"""
from .core import *

class Outcome:
    """result of executing a statement: the normal continuation and the early exits in order"""
    def __init__(self, normal=None, exits=()): self.normal, self.exits = normal, list(exits)   # exits: (kind, guard, state, value)

SCALAR = (int, bool, Fraction)
def is_scalar(v): return is_z(v) or isinstance(v, SCALAR)

def leaves(v, pre=()):
    if isinstance(v, Obj):
        for k, x in v.fields.items(): yield from leaves(x, pre + (("f", k),))
    elif isinstance(v, CVec):
        for i, x in enumerate(v.items): yield from leaves(x, pre + (("i", i),))
    elif isinstance(v, CMap):
        for k in v.keys():
            yield pre + (("mp", k),), v.entries[k][0]
            yield from leaves(v.entries[k][1], pre + (("k", k),))
    elif isinstance(v, (MapIter, VecIter)): yield pre + (("pos",),), v.pos
    elif isinstance(v, Ptr) and v.path is not None: yield pre + (("off",),), v.off
    else: yield pre, v
def lget(v, accs):
    for a in accs:
        if a[0] == "mp": v = v.entries.get(a[1], (False, UNDEF))[0]
        elif a[0] == "k": v = v.entries.get(a[1], (False, UNDEF))[1]
        elif a[0] == "pos": v = v.pos
        elif a[0] == "off": v = v.off
        else: v = acc_get(v, a)
    return v
def lset(v, accs, val):
    if not accs: return val
    a = accs[0]
    if a[0] == "mp":
        x = v.entries.get(a[1], (False, UNDEF)); return v.with_(a[1], val, x[1])
    if a[0] == "k":
        x = v.entries.get(a[1], (False, UNDEF)); return v.with_(a[1], x[0], lset(x[1], accs[1:], val))
    if a[0] == "pos": return type(v)(v.path, val)
    if a[0] == "off": return Ptr(v.path, val)
    if a[0] == "f": return v.with_(a[1], lset(v.fields[a[1]], accs[1:], val))
    if a[0] == "i": return CVec(v.items[:a[1]] + (lset(v.items[a[1]], accs[1:], val),) + v.items[a[1] + 1:])
    raise Unsupported("leaf accessor")
def st_lget(st, p): return lget(st.vars[p[0]], p[1:])
def st_lset(st, p, v): st.vars[p[0]] = lset(st.vars[p[0]], p[1:], v)

def same_leaf(a, b):
    if a is b: return True
    if is_scalar(a) and is_scalar(b): return same(unz(a), unz(b))
    if isinstance(a, SVec) and isinstance(b, SVec):
        return a.base == b.base and a.layers == b.layers and (same(a.len, b.len) if not isinstance(a.len, tuple) else all(same(x, y) for x, y in zip(a.len, b.len)))
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.path == b.path and same(a.off, b.off)
    if isinstance(a, Opaque) and isinstance(b, Opaque): return a.name == b.name
    if isinstance(a, str) and isinstance(b, str): return a == b
    if isinstance(a, CondPtr) and isinstance(b, CondPtr): return same_leaf(a.a, b.a) and same_leaf(a.b, b.b) and same(a.cond, b.cond)
    if hasattr(a, "same_as"): return a.same_as(b)
    return False

def changed(st0, st1):
    """leaf paths of st0 whose value differs in st1"""
    out = []
    for root, v0 in st0.vars.items():
        v1 = st1.vars.get(root, UNDEF)
        if v0 is v1: continue
        out += [(root,) + p for p in diff(v0, v1)]
    return out
def diff(v0, v1, pre=()):
    if v0 is v1: return
    if v0 is UNDEF or v1 is UNDEF: yield pre; return
    if isinstance(v0, Obj) and isinstance(v1, Obj):
        for k in v0.fields: yield from diff(v0.fields[k], v1.fields.get(k, UNDEF), pre + (("f", k),))
        return
    if isinstance(v0, CVec) and isinstance(v1, CVec) and v0.len == v1.len:
        for i in range(v0.len): yield from diff(v0.items[i], v1.items[i], pre + (("i", i),))
        return
    if isinstance(v0, CMap) and isinstance(v1, CMap):
        for k in sorted({**v0.entries, **v1.entries}):
            p0, x0 = v0.entries.get(k, (False, UNDEF)); p1, x1 = v1.entries.get(k, (False, UNDEF))
            if not same(unz(p0), unz(p1)): yield pre + (("mp", k),)
            if x0 is UNDEF and x1 is not UNDEF: yield pre + (("k", k),)
            else: yield from diff(x0, x1, pre + (("k", k),))
        return
    if isinstance(v0, (MapIter, VecIter)) and type(v0) is type(v1) and v0.path == v1.path:
        if not same(unz(v0.pos), unz(v1.pos)): yield pre + (("pos",),)
        return
    if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.path is not None and v0.path == v1.path:
        if not same(unz(v0.off), unz(v1.off)): yield pre + (("off",),)
        return
    if isinstance(v0, Stream) and isinstance(v1, Stream):
        if v0.items is not v1.items and not (len(v0.items) == len(v1.items) and all(x is y for x, y in zip(v0.items, v1.items))): yield pre
        return
    if not same_leaf(v0, v1): yield pre

def symbols_in(e, names):
    """does the value mention any of the uninterpreted symbols (by declaration name)?"""
    found = [False]
    def f(t):
        if found[0]: return t
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().name() in names: found[0] = True; return t
                stack.extend(x.children())
        return t
    if isinstance(e, SVec):
        ph = fresh_ph(0 if e.rank == 1 else (0,) * e.rank)
        map_value(e.get(ph), f); f_any(e.len, f)
    else: map_value(e, f)
    return found[0]
def mentions(t, c):
    if not is_z(t): return False
    return symbols_in(t, {c.decl().name()})

def sort_of(v):
    if isinstance(v, bool): return BOOL
    if isinstance(v, int): return INT
    if isinstance(v, Fraction): return REAL
    return v.sort()
def shape_fn(eng, v, nargs, name):
    """function of nargs ints returning fresh values of the shape of v"""
    if isinstance(v, CVec):
        fs = [shape_fn(eng, x, nargs, name) for x in v.items]
        return lambda *a: CVec([f(*a) for f in fs])
    if is_scalar(v): return eng.fresh_fn(name, nargs, sort_of(v))
    if isinstance(v, Obj):
        fs = {k: shape_fn(eng, x, nargs, name) for k, x in v.fields.items()}
        return lambda *a: Obj(v.cls, {k: f(*a) for k, f in fs.items()})
    raise Unsupported("shape of %r" % type(v).__name__)
def elem_sample(a):
    i = fresh_ph(0 if a.rank == 1 else (0,) * a.rank)
    return a.get(i)
def to_svec(v): return SVec(v.len, (lambda i: v.get(i)) if v.items else (lambda i: UNDEF))
def tup(i): return i if isinstance(i, tuple) else (i,)

def fn_names(fn, nargs):
    v = fn(*[z3.Int("ph!n%d" % j) for j in range(nargs)])
    out = set()
    map_value(v, lambda t: (out.add(t.decl().name()), t)[1])
    return out

def simp(t):
    if not is_z(t): return t
    return unz(z3.simplify(t, som=True)) if t.sort() != BOOL else unz(z3.simplify(t))

class LoopRec:
    def __init__(self, **kw): self.__dict__.update(kw)

MAXUNROLL = 4100

def run_loop(eng, st, cond_fn, body_fn, name="loop", parallel=None, private=(), post_test=False):
    """cond_fn(st) -> term (may update st); body_fn(st) -> Outcome (includes the increment; 'continue'
    already resolved).  parallel: None or a description of the parallel construct."""
    exits = []
    cur = st
    n = 0
    if not parallel:
        while True:
            if post_test and n == 0: c = True
            else:
                probe = cur.copy(); c = cond_fn(probe)
                c = unz(c)
                if is_z(c): c = unz(z3.simplify(c))
                if is_z(c) and n > 0 and eng.entails(cur, c, 300): c = True
                elif is_z(c) and eng.entails(cur, bnot(c), 300): c = False
                if is_z(c): break
                cur = probe
            if c is False:
                return finish(Outcome(cur, exits))
            o = body_fn(cur)
            for e in o.exits: exits.append(e)
            if o.normal is None: return finish(Outcome(None, exits))
            cur = o.normal
            n += 1
            if n > MAXUNROLL: raise Unsupported("loop %s: more than %d iterations" % (name, MAXUNROLL))
    o = summarize(eng, cur, cond_fn, body_fn, name, parallel, private)
    return finish(Outcome(o.normal, exits + o.exits))

def finish(o):
    """breaks become normal continuations"""
    normal = o.normal; rest = []
    ex = list(o.exits)
    # fold from the last exit backwards: exits are ordered, a later one presumes the earlier did not happen
    out = []
    acc = normal
    pend = []
    for kind, g, s, v in reversed(ex):
        if kind == "break":
            acc = s if acc is None else merge_states(g, s, acc) if is_z(g) else s
        else: pend.append((kind, g, s, v))
    return Outcome(acc, list(reversed(pend)))

class Wrapped(Exception): pass
def summarize(eng, st0, cond_fn, body_fn, name, parallel, private):
    n0 = len(eng.obls), len(eng.loops)
    names = next(eng.names); eng.names = itertools.count(names)
    try: return summarize1(eng, st0, cond_fn, body_fn, name, parallel, private, True)
    except Wrapped:
        del eng.obls[n0[0]:], eng.loops[n0[1]:]
        eng.names = itertools.count(names)
        return summarize1(eng, st0, cond_fn, body_fn, name, parallel, private, False)
def summarize1(eng, st0, cond_fn, body_fn, name, parallel, private, bounded):
    kap = z3.Int("k!%d" % next(eng.names))
    mark = next(eng.names)
    def reset(): eng.names = itertools.count(mark + 1)
    saved_record = eng.record
    st0 = st0.copy()

    def run(at, hyps, record=False):
        """one iteration from the given leaf values; returns (cond, outcome, start state)"""
        reset()
        s = st0.copy(); s.hyps = list(st0.hyps) + [Z(h) if not isinstance(h, QFact) else h for h in hyps if h is not True]
        for p, v in at.items(): st_lset(s, p, v)
        start = s.copy()
        rec, eng.record = eng.record, (saved_record if record else 0)
        par = eng.parallel; nl = len(eng.loops)
        eng.ctx.append(kap)
        try:
            c = cond_fn(s)
            if c is False: raise Unsupported("loop %s: condition false in the generic iteration" % name)
            if is_z(c): s.assume(c)
            o = body_fn(s)
        finally:
            eng.ctx.pop(); eng.record = rec
            if not record: del eng.loops[nl:]           # recursions of a trial run
        return c, o, start, s

    # ---- 1. which locations does the body modify?
    mod = {}            # path -> ('s', symbol) etc
    def havoc_value(p, v):
        if v is UNDEF: return UNDEF
        if is_scalar(v): return eng.fresh("u_" + str(p[-1][-1] if len(p) > 1 else p[0]), sort_of(v)) if False else z3.Const("u!%s!%d" % (abs(hash(p)) % 100000, mark), sort_of(v))
        if isinstance(v, SVec):
            f = shape_havoc(v, p)
            ln = v.len
            return SVec(ln, f, (), None, v.rank)
        if isinstance(v, Stream): return Stream(())
        if isinstance(v, CVec): return CVec([havoc_value(p + (("i", i),), x) for i, x in enumerate(v.items)])
        if type(v).__name__ == "LStr": return v.havoc(p, mark)
        if hasattr(v, "havoc"): return v.havoc(p, mark)
        return v
    def shape_havoc(v, p):
        sm = elem_sample(v)
        cnt = [0]
        def mk(x):
            if is_scalar(x):
                cnt[0] += 1
                f = z3.Function("ua!%s!%d!%d" % (abs(hash(p)) % 100000, mark, cnt[0]), *([INT] * v.rank + [sort_of(x)]))
                return lambda *a: f(*[Z(q) for q in a])
            if isinstance(x, CVec):
                fs = [mk(y) for y in x.items]
                return lambda *a: CVec([g(*a) for g in fs])
            if x is UNDEF: return lambda *a: UNDEF
            raise Unsupported("array of %r" % type(x).__name__)
        g = mk(sm)
        return lambda i: g(*tup(i))
    krange0 = [Z(kap) >= 0] + ([Z(kap) <= 2**62] if bounded else []); redo = False    # fewer than 2^62 iterations: confirmed by the trip count
    for it in range(12):
        at = {p: havoc_value(p, leaf0(st0, p)) for p in mod}
        c, o, start, after_cond = run(at, krange0)
        outs = [o.normal] if o.normal is not None else []
        new = False
        for s1 in outs + [e[2] for e in o.exits if e[0] in ("break", "return")]:
            for p in changed(start, s1):
                if p in mod: continue
                # a prefix already there?
                if any(p[:len(q)] == q for q in mod): continue
                for q in [q for q in mod if q[:len(p)] == p]: del mod[q]
                mod[p] = True; new = True
        if not new: break
    else: raise Unsupported("loop %s: modified set does not stabilise" % name)
    # sequences of constant length that grow in the loop become sequences of symbolic length
    for p in list(mod):
        v = leaf0(st0, p)
        if isinstance(v, CVec) and o.normal is not None:
            x = leaf0(o.normal, p)
            if isinstance(x, (CVec, SVec)) and not (isinstance(x, CVec) and x.len == v.len):
                st_lset(st0, p, to_svec(v)); redo = True
    if redo:
        at = {p: havoc_value(p, leaf0(st0, p)) for p in mod}
        c, o, start, after_cond = run(at, krange0)
    paths = list(mod)
    if o.normal is None: raise Unsupported("loop %s: body never continues" % name)
    for p in paths:
        v = leaf0(st0, p)
        if not (is_scalar(v) or isinstance(v, (SVec, Stream)) or v is UNDEF or isinstance(v, CVec) or hasattr(v, "havoc")):
            raise Unsupported("loop %s modifies %s of kind %s" % (name, p, type(v).__name__))

    # ---- 2. closed forms
    known, kinds = {}, {}
    unk = {p: havoc_value(p, leaf0(st0, p)) for p in paths}
    def names_of(p):
        v = unk[p]
        if is_z(v): return {v.decl().name()}
        if isinstance(v, SVec):
            out = set(); map_value(v.get0(fresh_ph(0 if v.rank == 1 else (0,) * v.rank)), lambda t: (out.add(t.decl().name()), t)[1]); return out
        if hasattr(v, "havoc_names"): return v.havoc_names()
        return set()
    uname = {p: names_of(p) for p in paths}
    def unknown_names(): 
        s = set()
        for p in paths:
            if p not in known: s |= uname[p]
        return s
    def at_state():
        return {p: (known[p] if p in known else unk[p]) for p in paths}
    cells = {}         # arrays of which the loop writes one fixed cell: path -> index
    def after_of(o, p):
        v = st_lget(o.normal, p) if p[0] in o.normal.vars else UNDEF
        if p in cells and isinstance(v, SVec):
            if not all(L.point is not None and same_point(L.point, cells[p]) for L in v.layers[len(leaf0(st0, p).layers):]): raise Unsupported("loop %s: writes to %s outside the fixed cell" % (name, pname(p)))
            return v.get(cells[p])
        return v
    for p in paths:
        if leaf0(st0, p) is UNDEF: known[p] = UNDEF; kinds[p] = ("undef",)
    cellrec = {}
    N0 = None
    scan_done = False
    small = False      # second attempt: unsigned counters assumed not to wrap (the closed form is then an obligation)
    for rnd in range(14):
        c, o, start, _ = run(at_state(), krange0 + ([Z(band(ge(unk[p], 0), le(unk[p], 2**62))) for p in paths if p not in known and is_z(unk[p]) and unk[p].sort() == INT] if small else []))
        prog = False
        un = unknown_names()
        for p in paths:
            if p in known: continue
            v0 = leaf0(st0, p); x1 = after_of(o, p)
            if isinstance(v0, Stream): continue
            if is_scalar(v0) and sort_of(v0) in (INT, REAL):
                d = simp(sub(x1, unk[p])) if is_scalar(x1) else None
                if d is not None and not (is_z(d) and (symbols_in(d, un) or mentions(d, kap) or has_ctx_fresh(d, mark))):
                    kk = kap if sort_of(v0) == INT else z3.ToReal(kap)
                    known[p] = add(v0, mul(d, kk)) if sort_of(v0) == INT else add(R(v0), mul(R(d), kk))
                    kinds[p] = ("affine", d); prog = True
        if prog: small = False; continue
        if small: c, o, start, _ = run(at_state(), krange0); break
        for p in paths:
            if p in known: continue
            v0 = leaf0(st0, p); x1 = after_of(o, p)
            if is_scalar(v0):
                x1s = simp(x1)
                if not symbols_in(x1s, un):
                    if same(x1s, unz(v0)): known[p] = v0; kinds[p] = ("const",)
                    else:
                        prev = subst(x1s, [(kap, kap - 1)])
                        known[p] = ite(eq(kap, 0), v0, prev); kinds[p] = ("memoryless", x1s)
                    prog = True
            elif isinstance(v0, SVec):
                pt = fixed_cell(v0, x1, unk[p], kap, un)
                if pt is not None:
                    cells[p] = pt; f = mkfn(eng, "rec_%s_c%d" % (mark, len(cells)), 1, sort_of(v0.get(pt)))
                    cellrec[p] = LoopRec(kind="scalar", fn=f, init=v0.get(pt), path=p, cell=pt)
                    known[p] = v0.with_layer(cell_layer(pt, f(kap))); kinds[p] = ("cell",); prog = True
                    break
                r = closed_array(eng, st0, p, v0, unk, x1, kap, un, run, at_state, krange0, parallel)
                if r is not None:
                    known[p] = r[0]; kinds[p] = r[1]; prog = True
                    break
            elif hasattr(v0, "havoc") and not isinstance(v0, (SVec,)):
                r = v0.loop_closed(x1, unk[p], kap, un)
                if r is not None: known[p] = r; kinds[p] = ("memoryless", x1); prog = True
        if prog: continue
        if any(is_z(unk[p]) and unk[p].sort() == INT for p in paths if p not in known): small = True; continue
        break
    # ---- 2b. recursions for the rest
    rec_paths = [p for p in paths if p not in known and not isinstance(leaf0(st0, p), Stream)]
    recs = dict(cellrec)
    for p in rec_paths:
        v0 = leaf0(st0, p)
        if is_scalar(v0):
            reset_name = "x%d" % len(recs)
            f = mkfn(eng, "rec_%s_%s" % (mark, reset_name), 1, sort_of(v0))
            recs[p] = LoopRec(kind="scalar", fn=f, init=v0, path=p)
            known[p] = f(kap); kinds[p] = ("rec",)
        elif isinstance(v0, SVec):
            x1 = after_of(o, p)
            ln_changes = not same_leaf_len(x1.len, unk[p].len)
            sm = elem_sample(v0)
            if ln_changes:
                r = collect_array(eng, st0, p, v0, unk[p], x1, kap, mark, len(recs))
                recs[p] = r; known[p] = r.at(kap); kinds[p] = ("collect",)
            else:
                f = shape_mk(eng, "arec_%s_%d" % (mark, len(recs)), sm, 1 + v0.rank)
                recs[p] = LoopRec(kind="array", fn=f, init=v0, path=p)
                fr = array_frame(v0, x1, unk[p], kap, un)
                if fr is None:
                    known[p] = SVec(v0.len, (lambda f: lambda i: f(kap, *tup(i)))(f), (), None, v0.rank)
                else:
                    known[p] = v0.with_layer(Layer(fr[0], (lambda f: lambda i: f(kap, *tup(i)))(f), fr[1]))
                    recs[p].frame = fr
                kinds[p] = ("arec",)
        elif hasattr(v0, "loop_rec"):
            recs[p] = v0.loop_rec(eng, "srec_%s_%d" % (mark, len(recs)), p)
            known[p] = recs[p].at(kap); kinds[p] = ("srec",)
        else: raise Unsupported("loop %s: no invariant for %s" % (name, p))
    streams = [p for p in paths if isinstance(leaf0(st0, p), Stream)]
    for p in streams: known[p] = Stream(()); kinds[p] = ("stream",)

    # ---- 3. trip count
    def condition(extra):
        reset()
        eng.ctx.append(kap)
        rec, eng.record = eng.record, 0
        try:
            s = st0.copy(); s.hyps = st0.hyps + [Z(h) for h in [kap >= 0] + extra]
            for p, v in known.items(): st_lset(s, p, v)
            return cond_fn(s)
        finally: eng.ctx.pop(); eng.record = rec
    got = None
    for bound in (None, 2**31, 2**62):
        # with a bound: the counter is assumed not to have wrapped, which the resulting trip count then has to confirm
        c = condition([] if bound is None else [kap <= bound])
        try: got = trip_count(eng, st0, c, kap, mark, bound is None and False)
        except Unsupported: continue
        if bound is not None and not eng.entails(st0_with(st0, [Z(f) for f in got[1]]), le(got[0], bound), 3000): got = None; continue
        break
    if got is None:
        c = condition([]); got = trip_count(eng, st0, c, kap, mark, True)
    N, nfacts, term = got
    if bounded and not (isint(N) and N <= 2**62) and not eng.entails(st0_with(st0, [Z(f) for f in nfacts]), le(N, 2**62), 3000): raise Wrapped()
    # ---- 4. candidate invariants (kept when inductive)
    facts_at = []      # formulas over kap known to hold at every 0<=kap<=N
    rng = [Z(kap) >= 0]
    inr = [Z(le(kap, N))]
    cands = []
    for p, r in recs.items():
        if r.kind == "scalar" and sort_of(r.init) == INT:
            x = r.fn(kap)
            cands += [ge(x, r.init), le(x, add(r.init, kap)), ge(x, 0)]
        if r.kind == "scalar" and sort_of(r.init) == REAL:
            cands += [ge(r.fn(kap), 0)]
        if r.kind == "collect":
            x = r.L(kap); cands += [ge(x, r.init.len), le(x, add(r.init.len, kap))]
    view0 = {p: leaf0(st0, p) for p in paths}
    for h in getattr(eng, "loop_hints", []):
        try: cands += [f for f in h(eng, st0, known, kap, N) if f is not None]
        except Unsupported: pass
        except KeyError: pass
    cands = [z for z in cands if is_z(z)]
    base_hyps = nfacts + rng + [Z(eq(r.fn(0), r.init)) for r in recs.values() if r.kind == "scalar"]
    def at0(f): return subst_rec(f, kap, 0, recs, eng)
    if cands:
        # initiation
        s = st0.copy(); s.hyps = s.hyps + [Z(f) for f in nfacts]
        cands = [f for f in cands if eng.entails(s, at0(f), 2000)]
        for it in range(6):
            if not cands: break
            hy = base_hyps + [Z(lt(kap, N))] + cands
            cc, oo, start, _ = run({p: known[p] for p in paths}, hy)
            if oo.normal is None: break
            keep = []
            nxt = {}
            for p, r in recs.items():
                x1 = after_of(oo, p)
                r.step_terms(nxt, x1, kap) if hasattr(r, "step_terms") else rec_step_terms(r, nxt, x1, kap)
            for f in cands:
                g = next_inst(f, kap, nxt, recs)
                if eng.entails(oo.normal, g, 3000): keep.append(f)
            if len(keep) == len(cands): break
            cands = keep
        facts_at = cands
    # ---- 5. recording pass
    hy = base_hyps + [Z(lt(kap, N))] + facts_at
    eng.loopstack = getattr(eng, "loopstack", [])
    eng.reads = {}
    cc, o, start, s_c = run({p: known[p] for p in paths}, hy, record=True)
    if o.normal is None: raise Unsupported("loop %s: body never continues" % name)
    brk = [e for e in o.exits]
    send = o.normal
    # consecution obligations
    for p in paths:
        x1 = after_of(o, p); k = kinds[p][0]
        if k == "affine":
            v0 = leaf0(st0, p)
            eng.oblige(send, "%s: invariant preserved (induction variable %s)" % (name, pname(p)), "invariant", eq(x1, subst(known[p], [(kap, kap + 1)])))
        elif k == "memoryless" and is_scalar(x1):
            eng.oblige(send, "%s: invariant preserved (%s)" % (name, pname(p)), "invariant", eq(x1, kinds[p][1]))
        elif k in ("rec", "cell"):
            recs[p].step = x1
        elif k == "arec":
            recs[p].step = x1
            fr = getattr(recs[p], "frame", None)
            if fr is not None:
                ph = fresh_ph(0 if x1.rank == 1 else (0,) * x1.rank)
                eng.oblige(send, "%s: invariant preserved (cells of %s written)" % (name, pname(p)), "invariant", implies(bor(*[L.guard(ph) for L in new_layers(x1, known[p])]), fr[0](ph)))
        elif k == "collect": recs[p].finish(eng, st0, x1, kap, N, o, send)
        elif k == "srec": recs[p].step = x1
    if parallel:
        for p in paths:
            if p[0] in private or kinds[p][0] == "stream": continue
            if kinds[p][0] == "map":
                eng.oblige(send, "%s (%s): iterations write disjoint cells of %s and read no cell another one writes" % (name, parallel, pname(p)), "race", True)
                continue
            if kinds[p][0] == "const": continue
            eng.oblige(send, "%s (%s): no two iterations share %s" % (name, parallel, pname(p)), "race", False)
    for f in facts_at:
        nxt = {}
        for p, r in recs.items():
            x1 = after_of(o, p)
            r.step_terms(nxt, x1, kap) if hasattr(r, "step_terms") else rec_step_terms(r, nxt, x1, kap)
        eng.oblige(send, "%s: invariant preserved" % name, "invariant", next_inst(f, kap, nxt, recs))
    if term is not None: eng.oblige(st0_with(st0, nfacts), "%s terminates" % name, "termination", term)
    # ---- 6. state after the loop
    post = st0.copy()
    for f in nfacts: post.assume(f)
    exit_c = False
    exits = []
    NN = N
    if brk:
        # early exits: NN is the number of completed iterations
        gs = [e[1] for e in brk]
        ex = bor(*gs) if gs else False
        if not is_z(ex): raise Unsupported("loop %s: unconditional exit" % name)
        NN = mkfn0(eng, "exitk_%d" % mark)
        exN = subst(ex, [(kap, NN)])
        post.assume(band(ge(NN, 0), le(NN, N)))
        exit_c = lt(NN, N)
        post.assume(implies(exit_c, exN))
        trig = [t for t in trigger_apps(ex, kap)]
        post.assume(QFact((kap,), z3.Implies(z3.And(kap >= 0, Z(lt(kap, NN))), Z(bnot(ex))), trig, "no earlier exit"))
        eng.loops.append(LoopRec(name=name, kap=kap, N=NN, N0=N, exit=ex, kinds=kinds, paths=paths))
    else:
        eng.loops.append(LoopRec(name=name, kap=kap, N=N, N0=N, exit=False, kinds=kinds, paths=paths, recs=recs, cond=cc))
    # facts established inside the body about symbols created there, generalised over kap
    base_len = len(start.hyps)
    def lift(state, extra=True):
        for h in state.hyps[base_len:]:
            if isinstance(h, QFact):
                if any(mentions(t, kap) for t in h.triggers) or mentions(h.body, kap):
                    trig = [t for t in h.triggers if mentions(t, kap)]
                    if trig: post.assume(QFact(h.params + (kap,), implies(band(ge(kap, 0), lt(kap, N)), h.body), trig, h.name))
                else: post.assume(h)
            else:
                trig = trigger_apps(h, kap, mark)
                if trig: post.assume(QFact((kap,), z3.Implies(z3.And(kap >= 0, Z(lt(kap, N))), h), trig, "body"))
    lift(send)
    for f in facts_at:
        post.assume(subst(f, [(kap, NN)]))
        trig = trigger_apps(f, kap)
        if trig: post.assume(QFact((kap,), z3.Implies(z3.And(kap >= 0, Z(le(kap, NN))), f), trig, "invariant"))
    for p, r in recs.items():
        if r.kind == "scalar": post.assume(eq(r.fn(0), r.init))
        r.N, r.kap, r.name = NN, kap, name
        if r.kind == "collect":
            for q in r.facts(N): post.assume(q)
    heap_new = [k for k in send.vars if k not in st0.vars and isinstance(k, str) and k.startswith("heap")]
    if heap_new: raise Unsupported("loop %s allocates memory in a symbolic number of iterations" % name)
    def final(v): return map_value(v, lambda t: subst(t, [(kap, NN)]))
    for p in paths:
        k = kinds[p]; v0 = leaf0(st0, p)
        if k[0] in ("affine", "rec"): st_lset(post, p, final(known[p]))
        elif k[0] == "memoryless":
            if is_scalar(known[p]): st_lset(post, p, final(known[p]))
            else: st_lset(post, p, known[p].map_terms(lambda t: subst(t, [(kap, NN)])))
        elif k[0] == "cell": st_lset(post, p, v0.with_layer(cell_layer(cells[p], recs[p].fn(NN))))
        elif k[0] == "const": pass
        elif k[0] == "undef": st_lset(post, p, UNDEF)
        elif k[0] == "map": st_lset(post, p, k[1](NN, post))
        elif k[0] == "arec":
            r = recs[p]
            f = r.fn; fr = getattr(r, "frame", None)
            if fr is None: a = SVec(v0.len, (lambda f: lambda i: f(NN, *tup(i)))(f), (), None, v0.rank, meta=r)
            else: a = v0.with_layer(Layer(fr[0], (lambda f: lambda i: f(NN, *tup(i)))(f), fr[1])); a.meta = r
            st_lset(post, p, a)
        elif k[0] == "collect": st_lset(post, p, recs[p].final(NN))
        elif k[0] == "srec": st_lset(post, p, recs[p].at(NN))
        elif k[0] == "stream":
            x1 = after_of(o, p)
            st_lset(post, p, v0.put(Rep(NN, kap, x1.items)))
    exit_list = []
    if brk:
        acc = None
        for kind, g, s, v in brk:
            se = post.copy()
            # state at the exiting iteration NN
            for root in s.vars:
                if root in post.vars:
                    se.vars[root] = s.vars[root] if s.vars[root] is start.vars.get(root, None) and not touched(root, paths) else map_value(s.vars[root], lambda t: subst(t, [(kap, NN)])) if not same_root(s, start, root) or touched(root, paths) else post.vars[root]
            for p in streams:
                x1 = st_lget(s, p); v0 = leaf0(st0, p)
                st_lset(se, p, v0.put(Rep(NN, kap, after_of(o, p).items), *[map_value(x, lambda t: subst(t, [(kap, NN)])) for x in x1.items]))
            for h in s.hyps[base_len:]:
                if isinstance(h, QFact): continue
                se.assume(subst(h, [(kap, NN)]))
            se.assume(exit_c)
            gg = band(exit_c, subst(g, [(kap, NN)]))
            exit_list.append((kind, gg, se, map_value(v, lambda t: subst(t, [(kap, NN)])) if v is not None and (is_z(v) or hasattr(v, "map_terms")) else v))
        post.assume(bnot(exit_c))
    return Outcome(post, exit_list)

def same_root(a, b, root): return a.vars.get(root) is b.vars.get(root)
def touched(root, paths): return any(p[0] == root for p in paths)
def st0_with(st0, facts):
    s = st0.copy(); s.hyps = s.hyps + [Z(f) for f in facts if f is not True]; return s
def pname(p): return p[0].split("#")[0] + "".join("." + str(a[1]) if len(a) > 1 else "" for a in p[1:])
def same_leaf_len(a, b):
    if isinstance(a, tuple): return all(same(unz(x), unz(y)) for x, y in zip(a, b))
    return same(unz(a), unz(b)) or same(simp(a), simp(b))
def leaf0(st, p):
    try: return lget(st.vars.get(p[0], UNDEF), p[1:])
    except Unsupported: return UNDEF
def mkfn(eng, nm, nargs, sort):
    c = list(eng.ctx)
    f = z3.Function(nm, *([INT] * (len(c) + nargs) + [sort]))
    return lambda *a: f(*(c + [Z(x) for x in a]))
def mkfn0(eng, nm, sort=INT):
    c = list(eng.ctx)
    if not c: return z3.Const(nm, sort)
    return z3.Function(nm, *([INT] * len(c) + [sort]))(*c)
def shape_mk(eng, nm, sm, nargs):
    cnt = [0]
    def mk(x):
        if is_scalar(x):
            cnt[0] += 1
            return mkfn(eng, "%s_%d" % (nm, cnt[0]), nargs, sort_of(x))
        if isinstance(x, CVec):
            fs = [mk(y) for y in x.items]
            return lambda *a: CVec([g(*a) for g in fs])
        if x is UNDEF: return lambda *a: UNDEF
        raise Unsupported("array of %r" % type(x).__name__)
    return mk(sm)
def trigger_apps(e, kap, mark=None):
    """applications of uninterpreted functions having kap as a direct argument"""
    out = []
    ap = apps(e)
    for nm, ts in ap.items():
        if nm in ("idiv", "imod"): continue
        for t in ts:
            if any(a.eq(kap) for a in t.children()) and not has_other_params(t, kap): out.append(t)
    return out
def has_other_params(t, kap): return False
def has_ctx_fresh(d, mark): return False

def subst_rec(f, kap, val, recs, eng):
    """f with kap replaced; recursion functions at 0 replaced by their initial values"""
    g = subst(f, [(kap, val)])
    if not is_z(g): return g
    pairs = []
    for p, r in recs.items():
        if r.kind == "scalar": pairs.append((Z(r.fn(0)), Z(r.init)))
        elif r.kind == "collect": pairs.append((Z(r.L(0)), Z(r.init.len)))
        elif hasattr(r, "init_pairs"): pairs += r.init_pairs()
    if pairs: g = z3.substitute(g, *[(a, b if a.sort() == b.sort() else z3.ToReal(b)) for a, b in pairs])
    return unz(g)
def rec_step_terms(r, nxt, x1, kap):
    if r.kind == "scalar": nxt[Z(r.fn(kap + 1))] = x1
    elif r.kind == "collect": nxt[Z(r.L(kap + 1))] = x1.len
def next_inst(f, kap, nxt, recs):
    g = z3.substitute(f, (kap, kap + 1))
    pairs = []
    for a, b in nxt.items():
        b = Z(b)
        if a.sort() != b.sort(): b = z3.ToReal(b)
        pairs.append((a, b))
    return unz(z3.substitute(g, *pairs)) if pairs else g

# ----------------------------------------------------------------------------- trip counts
def lin_coeff(d, kap):
    """(d at kap=0, coefficient) when d is affine in kap with constant coefficient"""
    s = simp(sub(subst(d, [(kap, kap + 1)]), d))
    if isint(s): return unz(z3.simplify(Z(subst(d, [(kap, 0)])))), s
    return None
def conjuncts(c):
    if z3.is_and(c): return [y for x in c.children() for y in conjuncts(x)]
    if z3.is_not(c) and z3.is_or(c.arg(0)): return [y for x in c.arg(0).children() for y in conjuncts(z3.Not(x))]
    return [c]
def trip_count(eng, st0, c, kap, mark, general=True):
    """(N, facts, termination goal)"""
    c = Z(c)
    bounds = []
    rest = []
    for a in conjuncts(c):
        b = bound_of(eng, st0, a, kap)
        if b is None: rest.append(a)
        else: bounds.append(b)
    if rest or not bounds:
        if not general: raise Unsupported("loop condition without a closed form")
        N = mkfn0(eng, "trip_%d" % mark)
        facts = [Z(ge(N, 0)), Z(bnot(subst(c, [(kap, N)])))]
        trig = trigger_apps(c, kap)
        # cond holds before N
        if not trig: raise Unsupported("loop condition without a closed form")
        q = QFact((kap,), z3.Implies(z3.And(kap >= 0, kap < N), c), trig, "loop condition")
        return N, facts, z3.BoolVal(False) if not bounds else None
    N = None; term = True
    for b, t in bounds:
        b0 = ite(le(b, 0), 0, b) if is_z(b) else max(0, b)
        if is_z(b) and eng.entails(st0, ge(b, 0), 500): b0 = b
        N = b0 if N is None else ite(lt(b0, N), b0, N)
        if t is not True: term = band(term, t)
    if is_z(N) and z3.is_app_of(N, z3.Z3_OP_ITE): pass
    return N, [ge(N, 0)] if is_z(N) and z3.is_app_of(N, z3.Z3_OP_ITE) else [], (None if term is True else term)
def bound_of(eng, st0, a, kap):
    """number of iterations for which the comparison holds: (bound, termination condition)"""
    negated = False
    while z3.is_not(a): negated = not negated; a = a.arg(0)
    k = a.decl().kind() if z3.is_app(a) else None
    OPS = {z3.Z3_OP_LT: "<", z3.Z3_OP_LE: "<=", z3.Z3_OP_GT: ">", z3.Z3_OP_GE: ">=", z3.Z3_OP_EQ: "=="}
    if k not in OPS or a.arg(0).sort() != INT: return None
    op = OPS[k]
    if negated: op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!="}[op]
    x, y = unz(a.arg(0)), unz(a.arg(1))
    if op in (">", ">="): x, y, op = y, x, {">": "<", ">=": "<="}[op]
    d = simp(sub(y, x))          # cond: 0 < d or 0 <= d or d != 0
    lc = lin_coeff(Z(d), kap)
    if lc is None: return None
    d0, s = lc
    if op == "!=":
        if s == -1: return d0, ge(d0, 0)
        if s == 1: return neg(d0), le(d0, 0)
        return None
    if op == "==": return None
    if s >= 0: return None
    m = -s
    if op == "<": return (d0 if m == 1 else fdiv(add(d0, m - 1), m)), True
    return (add(d0, 1) if m == 1 else add(fdiv(d0, m), 1)), True

# ----------------------------------------------------------------------------- arrays
def affine_point(pt, kap):
    """index component of a written point that determines kap: (component, offset, sign)"""
    comps = tup(pt)
    for j, e in enumerate(comps):
        if e is None: continue
        lc = lin_coeff(Z(e), kap)
        if lc is not None and lc[1] in (1, -1): return j, lc[0], lc[1]
    return None
def closed_array(eng, st0, p, v0, unk, x1, kap, un, run, at_state, krange0, parallel):
    """map pattern: every iteration writes its own cells and reads only cells not written by earlier ones"""
    u = unk[p]
    if not isinstance(x1, SVec) or x1.base != u.base: return None
    if not same_leaf_len(x1.len, u.len): return None
    if not x1.layers: return None
    for L in x1.layers:
        if L.point is None: return None
        ap = affine_point(L.point, kap)
        if ap is None: return None
        if symbols_in(tuple(x for x in tup(L.point) if x is not None), un): return None
    sols = [affine_point(L.point, kap) for L in x1.layers]
    j0, s0 = sols[0][0], sols[0][2]
    # all layers must determine kap identically
    for (j, o, s) in sols[1:]:
        if j != j0 or s != s0 or not same(simp(sub(o, sols[0][1])), 0): return None
    def hit(i):   # iteration that writes cell i
        x = tup(i)[j0]
        return sub(x, sols[0][1]) if s0 == 1 else sub(sols[0][1], x)
    bad = []
    def checked(i):
        """cell i of the array at the start of iteration kap, when no earlier iteration wrote it"""
        if any(is_z(x) and z3.is_const(x) and x.decl().name().startswith("ph!") for x in tup(i)): return u.get(i)   # sample: must not reach the result
        h = simp(hit(i))
        q = z3.Int("kq!%d" % 0)
        s = st0.copy(); s.hyps = s.hyps + krange0 + [x for x in hyps_now]
        cond = le(kap, h) if parallel is None else bor(eq(h, kap), lt(h, 0))
        if not eng.entails(s, bor(cond, lt(h, 0)), 2000): bad.append(i)
        return v0.get(i)
    hyps_now = []
    a = SVec(v0.len, checked, (), None, v0.rank)
    at = at_state(); at[p] = a
    try: c, o, start, _ = run(at, krange0)
    except Unsupported: return None
    if o.normal is None: return None
    x2 = st_lget(o.normal, p)
    if bad or not isinstance(x2, SVec) or x2.base != a.base: return None
    layers = x2.layers
    for L in layers:
        if L.point is None or affine_point(L.point, kap) is None: return None
    # the value of a cell after its iteration must not depend on other still unknown locations
    ph = fresh_ph(0 if v0.rank == 1 else (0,) * v0.rank)
    if any(symbols_in(L.value(ph), un) or (is_z(L.guard(ph)) and symbols_in(L.guard(ph), un)) for L in layers): return None
    full = SVec(v0.len, v0.get, (), None, v0.rank)
    def at_kap():
        def get(i):
            return checked(i)
        return SVec(v0.len, get, (), None, v0.rank)
    rest_point = tuple(None if j == j0 else c for j, c in enumerate(tup(layers[0].point)))
    multi = any(not all((x is None and y is None) or same(x, y) for x, y in zip(tup(L.point), tup(layers[0].point))) for L in layers)
    newpoint = None
    if v0.rank > 1:
        rp = [None if j == j0 else c for j, c in enumerate(tup(layers[0].point))]
        if multi or any(c is not None and mentions(Z(c), kap) for c in rp): rp = [None] * v0.rank
        newpoint = tuple(rp)
    rec = LoopRec(kind="map", kap=kap, layers=layers)
    def build(N, post, layers=layers):
        # layers here come from the run whose symbols carry the facts (same names)
        new = []
        for L in layers:
            def guard(i, L=L):
                h = hit(i)
                ph = fresh_ph(i)
                g = L.guard(ph)
                g = subst(g, [(kap, h)] ) if is_z(g) else g
                g = subst_any(g, list(zip(tup(ph), tup(i)))) if is_z(g) else g
                g = unz(z3.simplify(g)) if is_z(g) else g
                return band(ge(h, 0), lt(h, N), g)
            def value(i, L=L):
                h = hit(i)
                ph = fresh_ph(i)
                v = L.value(ph)
                v = map_value(v, lambda t: subst(t, [(kap, h)]))
                return map_value(v, lambda t: subst(t, list(zip(tup(ph), tup(i)))))
            new.append(Layer(guard, value, newpoint))
        return SVec(v0.len, v0.get0, v0.layers + tuple(new), v0.base, v0.rank, meta=None)
    return at_kap(), ("map", build, rec)
def new_layers(x1, at):
    if x1.base != at.base or len(x1.layers) < len(at.layers): raise Unsupported("array replaced in a loop")
    return x1.layers[len(at.layers):]
def array_frame(v0, x1, u, kap, un):
    """(guard, point) of the cells every iteration writes, when they are the same in every iteration"""
    if not isinstance(x1, SVec) or x1.base != u.base or not x1.layers or not same_leaf_len(x1.len, u.len): return None
    ph = fresh_ph(0 if v0.rank == 1 else (0,) * v0.rank)
    for L in x1.layers:
        g = L.guard(ph)
        if is_z(g) and (mentions(g, kap) or symbols_in(g, un)): return None
    ls = x1.layers
    point = None
    if all(L.point is not None for L in ls):
        pts = [tup(L.point) for L in ls]
        point = tuple(c if c is not None and all(q[j] is not None and same(q[j], c) for q in pts) and not mentions(Z(c), kap) and not symbols_in(c, un) else None for j, c in enumerate(pts[0]))
        if all(c is None for c in point): point = None
        elif v0.rank == 1: point = point[0]
    if point is None and v0.rank == 1: return None          # nothing an enclosing loop could use
    return (lambda i: bor(*[L.guard(i) for L in ls])), point
def same_point(a, b): return len(tup(a)) == len(tup(b)) and all(x is not None and same(x, y) for x, y in zip(tup(a), tup(b)))
def fixed_cell(v0, x1, u, kap, un):
    """the one cell of the array the body writes, when it is the same in every iteration"""
    if not isinstance(x1, SVec) or x1.base != u.base or not x1.layers or not same_leaf_len(x1.len, u.len): return None
    pt = x1.layers[0].point
    if pt is None or any(c is None for c in tup(pt)): return None
    if not all(L.point is not None and same_point(L.point, pt) for L in x1.layers): return None
    if symbols_in(tup(pt), un) or any(mentions(Z(c), kap) for c in tup(pt)): return None
    if not is_scalar(v0.get(pt)): return None
    return pt
def cell_layer(pt, v):
    return Layer(lambda i: band(*[eq(a, b) for a, b in zip(tup(i), tup(pt))]), lambda i: v, pt)
def _names(u):
    out = set(); map_value(u.get0(fresh_ph(0 if u.rank == 1 else (0,) * u.rank)), lambda t: (out.add(t.decl().name()), t)[1]); return out

def decl_names(t):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if not is_z(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            todo += x.children()
    return out
def collect_array(eng, st0, p, v0, u, x1, kap, mark, idx):
    """conditional push_back: one element appended per iteration at most"""
    L = mkfn(eng, "cnt_%s_%d" % (mark, idx), 1, INT)
    sm = None
    d = simp(sub(x1.len, u.len)); d = unz(z3.simplify(d)) if is_z(d) else d
    always = isint(d) and d == 1                  # exactly one element in every iteration: its position is known
    if always: L = lambda k: add(v0.len, k)
    new = x1.layers
    if not new: raise Unsupported("vector length changes without a push")
    sm = new[-1].value(z3.Int("ph!c"))
    RES = shape_mk(eng, "coll_%s_%d" % (mark, idx), sm, 1)
    SRC = mkfn(eng, "src_%s_%d" % (mark, idx), 1, INT) if not always else lambda q: Z(sub(q, v0.len))
    r = LoopRec(kind="collect", L=L, init=v0, path=p, RES=RES, SRC=SRC)
    def at(k):
        return SVec(L(k), lambda i: merge_value(lt(i, v0.len), v0.get(i), RES(i)) if not (isint(v0.len) and v0.len == 0) else RES(i), (), "c%s_%d" % (mark, idx), 1)
    r.at = at
    def finish(eng, st0, x1, kap, N, o, send):
        c = simp(sub(x1.len, L(kap)))
        r.cond = eq(x1.len, add(L(kap), 1))
        r.cond = unz(z3.simplify(Z(r.cond))) if is_z(r.cond) else r.cond
        eng.oblige(send, "collect loop pushes at most once per iteration", "invariant", bor(eq(x1.len, L(kap)), eq(x1.len, add(L(kap), 1))))
        lay = x1.layers
        for l in lay:
            if l.point is None: raise Unsupported("collect: unexpected write")
            eng.oblige(send, "collect loop writes only the new element", "invariant", implies(l.guard(L(kap)) if True else True, eq(l.point, L(kap))))
        v = lay[-1].value(L(kap))
        for l in reversed(lay[:-1]): v = merge_value(lay[-1].guard(L(kap)), v, l.value(L(kap)))
        r.val = v
        r.step_len = x1.len
    r.finish = finish
    def vals_eq(a, b):
        if isinstance(a, CVec): return band(*[vals_eq(x, y) for x, y in zip(a.items, b.items)])
        return eq(a, b)
    r.vals_eq = vals_eq
    def facts(N):
        p_ = z3.Int("pos!%s_%d" % (mark, idx))
        s = SRC(p_)
        c_s = subst(r.cond, [(kap, s)]) if is_z(r.cond) else r.cond
        v_s = map_value(r.val, lambda t: subst(t, [(kap, s)]))
        body = implies(band(ge(p_, v0.len), lt(p_, L(N))), band(ge(s, 0), lt(s, N), c_s, eq(L(s), p_), vals_eq(RES(p_), v_s)))
        trig = []
        map_value(RES(p_), lambda t: (trig.append(t), t)[1])
        out = [QFact((p_,), body, trig[:1], "collect: every element comes from an iteration"), eq(L(0), v0.len)]
        if is_z(out[1]): out[1] = Z(out[1])
        out = [x for x in out if x is not True]
        return out
    r.facts = facts
    def forward(k):
        """iteration k with the push condition appended its value at position L(k)"""
        return implies(band(ge(k, 0), lt(k, r.N), subst(r.cond, [(kap, k)]) if is_z(r.cond) else r.cond),
                       band(ge(L(k), v0.len), lt(L(k), L(r.N)), vals_eq(RES(L(k)), map_value(r.val, lambda t: subst(t, [(kap, k)])))))
    r.forward = forward
    r.kap0 = kap
    def final(N):
        a = at(N); a.meta = r
        if always:
            names = set(); map_value(r.val, lambda t: (names.update(decl_names(t)), t)[1])
            res = set(); map_value(RES(z3.Int("ph!c")), lambda t: (res.update(decl_names(t)), t)[1])
            if not names & res:
                g = lambda i: map_value(r.val, lambda t: subst(t, [(kap, Z(sub(i, v0.len)))]))
                a = SVec(L(N), lambda i: merge_value(lt(i, v0.len), v0.get(i), g(i)) if not (isint(v0.len) and v0.len == 0) else g(i), (), None, 1); a.meta = r
        return a
    r.final = final
    return r
