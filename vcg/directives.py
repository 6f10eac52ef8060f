"""Mechanical translation of accelerator directives to their OpenMP host equivalent, so that one front end
and one runtime cover them.  Only `#pragma` lines change (line numbers are kept):
  acc parallel loop / acc kernels loop / omp target teams distribute [parallel for]  ->  omp parallel for
  acc parallel / acc kernels -> omp parallel;  acc loop -> omp for;  data directives -> removed
The data clauses (copy, copyin, create, map, ...) are dropped from the directive and returned."""
import re
DATA = ("copy", "copyin", "copyout", "create", "present", "present_or_copyin", "present_or_copy", "present_or_create", "present_or_copyout", "pcopy", "pcopyin", "pcopyout", "pcreate", "map", "deviceptr", "use_device", "attach", "no_create", "delete")
DROP = DATA + ("num_gangs", "num_workers", "vector_length", "async", "wait", "gang", "worker", "vector", "independent", "default", "device", "num_teams", "thread_limit", "dist_schedule", "is_device_ptr", "defaultmap", "if")

def clauses(s):
    """[(name, argument or None)]"""
    out, i = [], 0
    while i < len(s):
        m = re.compile(r"\s*,?\s*([A-Za-z_]\w*)\s*").match(s, i)
        if not m: break
        nm = m.group(1); i = m.end(); arg = None
        if i < len(s) and s[i] == "(":
            d, j = 0, i
            while j < len(s):
                d += s[j] == "("; d -= s[j] == ")"
                j += 1
                if d == 0: break
            arg = s[i + 1:j - 1]; i = j
        out.append((nm, arg))
    return out
def strip_sections(a): return re.sub(r"\[[^\]]*\]", "", a)

def translate(text, data=None):
    lines = text.split("\n"); out = []; i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r"\s*#\s*pragma\s+(acc|omp)\b(.*)", l)
        if not m: out.append(l); i += 1; continue
        n = 1
        full = l
        while full.rstrip().endswith("\\") and i + n < len(lines):
            full = full.rstrip()[:-1] + " " + lines[i + n]; n += 1
        m = re.match(r"\s*#\s*pragma\s+(acc|omp)\b(.*)", full)
        kind, cl = m.group(1), clauses(re.sub(r"//.*|/\*.*?\*/", "", m.group(2)))
        names = []
        while cl and cl[0][1] is None and cl[0][0] in ("parallel", "kernels", "loop", "data", "target", "teams", "distribute", "for", "simd", "enter", "exit", "update", "serial", "routine", "wait"):
            names.append(cl.pop(0)[0])
        if data is not None:
            for nm, a in cl:
                if nm in DATA and a is not None: data.append((i + 1, nm, a))
        keep = " ".join(nm if a is None else "%s(%s)" % (nm, strip_sections(a)) for nm, a in cl if nm not in DROP and nm not in ("seq", "private") or nm == "reduction")
        priv = [strip_sections(a) for nm, a in cl if nm == "private" and a]
        if priv: keep = (keep + " private(%s)" % ", ".join(priv)).strip()
        seq = any(nm == "seq" for nm, a in cl)
        d = None
        if kind == "acc":
            if "loop" in names and ("parallel" in names or "kernels" in names): d = "omp parallel for " + keep
            elif "parallel" in names or "kernels" in names: d = "omp parallel " + keep
            elif "loop" in names: d = None if seq else "omp for " + keep
        elif "target" in names or "teams" in names or "distribute" in names:
            if "distribute" in names or "loop" in names or "for" in names: d = "omp parallel for " + keep
            elif "parallel" in names: d = "omp parallel " + keep
        else: d = "omp " + full[full.index("omp") + 3:].strip()
        out.append("" if d is None else "#pragma " + d)
        out += [""] * (n - 1)
        i += n
    return "\n".join(out)
if __name__ == "__main__":
    import sys
    dat = []
    t = translate(open(sys.argv[1]).read(), dat)
    print("\n".join(l for l in t.split("\n") if "#pragma" in l)); print(dat)
