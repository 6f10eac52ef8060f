"""Runs the contract units of one property, the replay harness, and writes the evidence file."""
import json, multiprocessing, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback
from .core import *
from .lemma import Tactic, OutOfTime

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"

class UnitCtx:
    """collects the obligations of one function under contract"""
    def __init__(self, name, kinds, tmul=1):
        self.name, self.kinds = name, kinds
        self.obls = []; self.engines = []; self.functions = []; self.inlined = set(); self.called = set()
        self.notes = []; self.assumed = []; self.bounded = []
        self.tmul = tmul
    def want(self, kind): return self.kinds is None or kind in self.kinds
    def add(self, name, kind, status, backend=None, detail=None, loc=None, counter=None):
        self.obls.append({"unit": self.name, "name": name, "kind": kind, "status": status, "backend": backend,
                          "detail": None if detail is None else str(detail)[:3000], "line": loc, "counter": counter})
    def engine(self, fn):
        e = Engine(fn); self.engines.append(e); self.functions.append(fn); return e
    def discharge(self, eng, extra=(), timeout=6000):
        """every obligation generated by symbolic execution, of the kinds this property is about"""
        seen = {}
        for o in eng.obls:
            if not self.want(o.kind): continue
            key = (o.name, o.goal.get_id(), tuple(h.get_id() if is_z(h) else id(h) for h in o.hyps))
            if key in seen: continue
            seen[key] = 1
            st, be = eng.prover.check(o.hyps, o.goal, timeout * self.tmul, extra=extra)
            if st != "proved" and o.kind in ("safety", "termination", "invariant", "divzero"):
                if normal_proof(eng, o.hyps, o.goal): st, be = "proved", "ring+z3"
            if st == "proved": self.add(o.name, o.kind, "proved", be, loc=o.loc)
            else:
                self.add(o.name, o.kind, st, None, o.goal, o.loc, model_str(be) if st == "refuted" else None)
    def goal(self, eng, hyps, name, goal, kind="post", timeout=6000, extra=(), rounds=3):
        if not self.want(kind): return True
        goal = unz(goal)
        if goal is True: self.add(name, kind, "proved", "constant folding"); return True
        st, be = eng.prover.check(hyps, goal, timeout * self.tmul, rounds=rounds, extra=extra)
        if st == "proved": self.add(name, kind, "proved", be); return True
        self.add(name, kind, st, None, goal, None, model_str(be) if st == "refuted" else None)
        return False
    def equal(self, eng, hyps, name, a, b, splits=(), hints=(), kind="post", timeout=4000):
        if not self.want(kind): return True
        T = Tactic(eng, hyps, timeout * self.tmul, hints)
        try: r = T.equal(a, b, list(splits))
        except OutOfTime: self.add(name, kind, "unknown", None, "time limit of the equational prover"); return False
        if r is None: self.add(name, kind, "proved", "ring+z3"); return True
        self.add(name, kind, "refuted", None, " / ".join(str(x) for x in r))
        return False
    def fact(self, name, ok, kind="post", detail=None):
        if not self.want(kind): return ok
        self.add(name, kind, "proved" if ok else "refuted", "syntactic" if ok else None, detail); return ok
    def vacuity(self, eng, hyps, name):
        """the assumptions of a contract must be satisfiable"""
        g, q = eng.prover.split(hyps)
        s = z3.Solver(); s.set("timeout", 4000)
        for f in g: s.add(f)
        r = s.check()
        self.add("assumptions of %s are satisfiable" % name, "vacuity", "proved" if r == z3.sat else "refuted" if r == z3.unsat else "skipped", "z3 (model)")

def model_str(m):
    try: return {str(d): str(m[d])[:200] for d in m.decls()[:60]}
    except Exception: return None
def normal_proof(eng, hyps, goal):
    """second chance for nonlinear goals: div/mod eliminated by exhibited quotients"""
    try:
        T = Tactic(eng, hyps, 3000)
        g = T.rewrite(goal)
        if g is True: return True
        if g is False: return False
        return T.ent(g)
    except Unsupported: return False
    except Exception: return False

def _run_unit(args):
    name, fn, kinds, tmul = args
    t0 = time.time()
    U = UnitCtx(name, kinds, tmul)
    res = {"unit": name, "unsupported": None}
    try: fn(U)
    except Unsupported as e: res["unsupported"] = str(e) or "unsupported"
    except RecursionError: res["unsupported"] = "recursion limit"
    except Exception as e:
        res["unsupported"] = "verifier error: " + traceback.format_exc()[-1500:]
    res.update(obligations=U.obls, functions=U.functions, inlined=sorted(U.inlined | set().union(*[e.inlined for e in U.engines]) if U.engines else U.inlined),
               called=sorted(set().union(*[e.called for e in U.engines]) if U.engines else []),
               solver_s=round(sum(e.prover.time for e in U.engines), 2), queries=sum(e.prover.queries for e in U.engines),
               notes=sorted(set(U.notes))[:20], assumed=U.assumed, wall_s=round(time.time() - t0, 2))
    return res

def run_units(units, kinds, tmul=1, limit=600, jobs=8, harness=None):
    """units in parallel processes, each with a time limit; the replay harness runs alongside in its own process"""
    ctx = multiprocessing.get_context("fork")
    pend = list(units); live = {}; out = {}
    H = None; herr = None; hp = None
    stop_at = None
    def spawn(f):
        r, w = ctx.Pipe(False)
        def child():
            sys.setrecursionlimit(20000)
            try: x = f()
            except BaseException: x = {"error": traceback.format_exc()[-2000:]}
            w.send_bytes(json.dumps(x, default=str).encode()); w.close(); os._exit(0)
        p = ctx.Process(target=child); p.start(); w.close()
        return p, r, time.time()
    if harness is not None: hp = spawn(lambda: harness(None).__dict__)
    while pend or live or hp:
        while pend and len(live) < jobs:
            u = pend.pop(0)
            live[u[0]] = spawn(lambda u=u: _run_unit((u[0], u[1], u[2] if len(u) > 2 else kinds, tmul)))
        if hp is not None:
            p, r, t0 = hp
            x = None
            if r.poll(0.02):
                try: x = json.loads(r.recv_bytes().decode())
                except EOFError: x = {"error": "harness process ended unexpectedly"}
                p.join()
            elif not p.is_alive() and not r.poll(0): x = {"error": "harness process ended unexpectedly"}
            elif time.time() - t0 > limit: p.kill(); p.join(); x = {"error": "harness time limit"}
            if x is not None:
                hp = None
                if "error" in x: herr = x["error"]
                else:
                    H = Harness(); H.__dict__.update(x)
                    if H.fail is not None: stop_at = time.time() + 60      # the answer is known: do not wait for long proofs
        for nm in list(live):
            p, r, t0 = live[nm]
            if r.poll(0.02):
                try: out[nm] = json.loads(r.recv_bytes().decode())
                except EOFError: out[nm] = dead(nm, "verifier process ended unexpectedly")
                if "error" in out[nm]: out[nm] = dead(nm, out[nm]["error"])
                p.join(); del live[nm]
            elif not p.is_alive() and not r.poll(0):
                out[nm] = dead(nm, "verifier process ended unexpectedly"); del live[nm]
            elif time.time() - t0 > limit or (stop_at is not None and time.time() > stop_at):
                p.kill(); p.join(); out[nm] = dead(nm, "time limit" if stop_at is None else "stopped: the replay had found a failing input"); del live[nm]
        if stop_at is not None and time.time() > stop_at:
            for u in pend: out[u[0]] = dead(u[0], "stopped: the replay had found a failing input")
            pend = []
    return [out[u[0]] for u in units], H, herr
def dead(nm, why):
    return {"unit": nm, "unsupported": why, "obligations": [], "functions": [], "inlined": [], "called": [], "solver_s": 0, "queries": 0, "notes": [], "assumed": [], "wall_s": 0}

class Harness:
    """what a replay harness reports"""
    def __init__(self): self.cases = 0; self.fail = None; self.inconclusive = None; self.samples = []; self.rule = ""; self.known = []

TRUSTED = ["vcg: the verification-condition generator in /verif/vcg (semantics of the source language subset, loop-invariant inference is untrusted: its invariants are obligations)",
           "z3 and cvc5 (unsat answers)", "the front end that parses the source (clang 18 / gfortran 13 / CPython ast)"]

def scratch(): 
    d = tempfile.mkdtemp(prefix="verif-"); return d

def run_check(pid, title, units, kinds, harness, assumptions, trusted=(), limit=400, tmul=None):
    t0 = time.time()
    tmul = tmul or (4 if THOROUGH else 1)
    results, H, herr = run_units(units, kinds, tmul, limit if not THOROUGH else 3000, harness=harness)
    known = load_known(pid)
    obls = [o for r in results for o in r["obligations"]]
    vac = [o for o in obls if o["kind"] == "vacuity"]
    pr = [o for o in obls if o["kind"] != "vacuity"]
    failed = [o for o in pr if o["status"] != "proved"]
    badvac = [o for o in vac if o["status"] == "refuted"]
    unsup = [(r["unit"], r["unsupported"]) for r in results if r["unsupported"]]
    failed_units = sorted({o["unit"] for o in failed})
    violation = None
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + ".json")
    if os.path.exists(rpath): os.unlink(rpath)
    detail = {"property": pid, "failed_obligations": failed[:40], "undecided_units": unsup}
    lines = []
    if H is not None:
        for k in H.known: lines.append("KNOWN-FINDING: property=%s %s" % (pid, k))
    if H is not None and H.fail is not None:
        detail["failing_input"] = H.fail
        violation = "VIOLATION property=%s replay=%s" % (pid, rpath)
    elif failed:
        detail["replay"] = "no failing input found in %d cases" % (H.cases if H else 0)
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath)
    if violation:
        with open(rpath, "w") as f: json.dump(detail, f, indent=1, default=str)
    backends = {}
    for o in pr:
        if o["status"] == "proved": backends[o["backend"] or "z3"] = backends.get(o["backend"] or "z3", 0) + 1
    cov = {"obligations": len(pr), "discharged": len(pr) - len(failed),
           "checker_cmd": "python3-vt %s/check.py %s" % (VERIF, pid), "trusted_base": TRUSTED + list(trusted),
           "functions_under_contract": sorted({f for r in results for f in r["functions"]}),
           "functions_inlined_into_their_callers": sorted({f for r in results for f in r["inlined"]}),
           "callee_contracts_used": sorted({f for r in results for f in r["called"]}),
           "backends": backends, "solver_seconds": round(sum(r["solver_s"] for r in results), 1), "solver_queries": sum(r["queries"] for r in results),
           "vacuity_checks": len(vac), "vacuity_failures": len(badvac),
           "units": [{"unit": r["unit"], "obligations": len([o for o in r["obligations"] if o["kind"] != "vacuity"]), "discharged": len([o for o in r["obligations"] if o["kind"] != "vacuity" and o["status"] == "proved"]),
                      "wall_s": r["wall_s"], "undecided": r["unsupported"]} for r in results],
           "bounded_not_proved": [{"unit": u, "why": w, "stand_in": "replay harness, %d cases" % (H.cases if H else 0)} for u, w in unsup],
           "obligation_samples": [o["unit"] + ": " + o["name"] for o in pr[:12]],
           "failed_obligations": [o["unit"] + ": " + o["name"] for o in failed[:40]]}
    if H is not None:
        cov["replay_harness"] = {"cases": H.cases, "rule": H.rule, "samples": H.samples[:4], "inconclusive": H.inconclusive, "note": "cross-check of the compiled code against an independent oracle; not counted as proof"}
    if herr: cov["replay_harness_error"] = herr
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof", "coverage": cov,
          "assumptions": list(assumptions) + sorted({a for r in results for a in r["assumed"]}), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    for l in lines: print(l)
    print("%s: %d obligations, %d discharged, %d undecided units, %s harness cases, %.1f s" % (pid, len(pr), len(pr) - len(failed), len(unsup), H.cases if H else 0, time.time() - t0))
    for o in failed[:12]: print("  FAILED [%s] %s: %s" % (o["kind"], o["unit"], o["name"]))
    for u, w in unsup: print("  UNDECIDED %s: %s" % (u, w[-700:]))
    if herr: print("  harness error:", herr)
    if H is not None and H.inconclusive: print("  harness inconclusive:", str(H.inconclusive)[:600])
    if H is not None and H.fail is not None: print("  failing input:", json.dumps(H.fail, default=str)[:1500])
    if violation:
        print(violation); return 1
    return 0

def load_known(pid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f: return [k for k in json.load(f)["findings"] if k["property"] == pid]
    except FileNotFoundError: return []

# ----------------------------------------------------------------------------- helpers for harnesses
def sh(cmd, timeout=120, inp=None, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, env=env, start_new_session=True)
    try:
        o, e = p.communicate(inp, timeout=timeout); return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate(); return -9, o, e + "\n[time limit]"
