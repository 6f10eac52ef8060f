"""Runs the programs themselves (their mains) in a scratch directory and reads the VTK files they write."""
import os, re
from vcg.frame import *
STUB = os.path.join(VERIF, "replay/stub")
CXX = {"upwind": "up1.vtk", "upwindOMPTasks": "up1.vtk", "upwindAcc": "up.vtk", "upwindAcc2": "up.vtk", "upwindOMP5": "up.vtk"}
FORTRAN = ("upwind", "upwindF03", "upwindF08", "upwindF08Gpu")
MPIMAIN = '''#include <mpi.h>
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <vector>
#include <unistd.h>
#define main prog_main
#include SRC
#undef main
int main(int c, char** v) {
  int P = atoi(v[1]); std::ostringstream out; std::cout.rdbuf(out.rdbuf());
  std::vector<std::string> a; a.push_back("prog"); for (int i = 2; i < c; ++i) a.push_back(v[i]);
  snprintf(stub_case, sizeof stub_case, "%d processes", P);
  stub_run(P, 0, [&](int) { std::vector<std::string> b = a; std::vector<char*> w; for (auto& x : b) w.push_back(&x[0]); w.push_back(0); prog_main((int) b.size(), w.data()); });
  fputs(out.str().c_str(), stdout); fflush(stdout); _exit(0);
}
'''
def build_cxx(d, prog, src=None):
    exe = os.path.join(d, prog)
    rc, o, e = sh(["g++", "-std=c++17", "-O1", "-g", "-w", "-fopenmp", "-DHAVE_OPENMP", "-I" + REPO + "/cxx", "-I" + REPO + "/upwind/cxx", src or os.path.join(REPO, "upwind/cxx", prog + ".cxx"), REPO + "/cxx/CmdLineArgParser.cpp", "-o", exe], 240)
    return (exe, None) if rc == 0 else (None, e[-800:])
def build_mpi(d, src, name):
    p = os.path.join(d, name + "_main.cpp")
    with open(p, "w") as f: f.write("#include <cstdio>\n#include <string>\n#include <functional>\n" + MPIMAIN)
    exe = os.path.join(d, name)
    rc, o, e = sh(["g++", "-std=c++17", "-O1", "-g", "-w", "-I" + STUB, "-I" + REPO + "/cxx", '-DSRC="%s"' % os.path.join(REPO, src), p, STUB + "/stub_mpi.cpp"] + [REPO + "/cxx/" + x for x in ("Filter.cpp", "CubeDecomp.cpp", "MultiArrayIter.cpp", "writeVTK.cpp", "CmdLineArgParser.cpp")] + ["-o", exe, "-lpthread"], 240)
    return (exe, None) if rc == 0 else (None, e[-800:])
def build_fortran(d, prog, flags=("-fopenmp", "-DHAVE_OPENMP")):
    exe = os.path.join(d, "f_" + prog); m = os.path.join(d, "mod_" + prog); os.makedirs(m, exist_ok=True)
    rc, o, e = sh(["gfortran", "-cpp", "-O1", "-g", "-w", "-J" + m] + list(flags) + [os.path.join(REPO, "upwind/fortran", prog + ".F90"), "-o", exe], 240)
    return (exe, None) if rc == 0 else (None, e[-800:])
PY = "/opt/vp/venv/bin/python" if os.path.exists("/opt/vp/venv/bin/python") else "python3-vt"
class Vtk:
    """strict reading of the part of the legacy format the programs write"""
    def __init__(self, path, text=None):
        self.err = None
        try:
            if text is not None: t = text
            else:
                with open(path) as f: t = f.read()
        except OSError as e: self.err = "no file: %s" % e; return
        try: self.parse(t)
        except (ValueError, IndexError) as e: self.err = "malformed: %s" % e
    def parse(self, t):
        L = t.split("\n", 4)
        if len(L) < 5: raise ValueError("too short")
        if not re.match(r"# vtk DataFile Version \d\.\d\s*$", L[0]): raise ValueError("first line %r" % L[0])
        if len(L[1]) > 255: raise ValueError("title too long")
        if L[2].strip() != "ASCII": raise ValueError("format %r" % L[2])
        m = re.match(r"\s*DATASET\s+(RECTILINEAR_GRID|STRUCTURED_GRID)\s*$", L[3])
        if not m: raise ValueError("dataset %r" % L[3])
        self.kind = m.group(1); w = L[4].split(); i = 0
        def need(k):
            nonlocal i
            if w[i] != k: raise ValueError("%s expected, found %r" % (k, w[i]))
            i += 1
        def num():
            nonlocal i
            x = float(w[i]); i += 1; return x
        def cnt():
            nonlocal i
            if not re.fullmatch(r"\d+", w[i]): raise ValueError("count %r" % w[i])
            i += 1; return int(w[i - 1])
        need("DIMENSIONS"); self.dims = [cnt(), cnt(), cnt()]
        if self.kind == "RECTILINEAR_GRID":
            self.axes = []
            for a, nm in enumerate(("X_COORDINATES", "Y_COORDINATES", "Z_COORDINATES")):
                need(nm); n = cnt(); i += 1
                if w[i - 1] not in ("double", "float"): raise ValueError("type %r" % w[i - 1])
                if n != self.dims[a]: raise ValueError("%s: %d coordinates for %d nodes" % (nm, n, self.dims[a]))
                self.axes.append([num() for _ in range(n)])
        else:
            need("POINTS"); n = cnt(); i += 1
            if n != self.dims[0] * self.dims[1] * self.dims[2]: raise ValueError("%d points for dimensions %s" % (n, self.dims))
            self.points = [(num(), num(), num()) for _ in range(n)]
        need("CELL_DATA"); n = cnt(); self.ncell = n
        m = 1
        for d in self.dims: m *= max(d - 1, 1)
        if n != m: raise ValueError("%d cells for dimensions %s" % (n, self.dims))
        need("SCALARS"); i += 1
        if w[i] not in ("double", "float"): raise ValueError("type %r" % w[i])
        i += 1
        if w[i] != "LOOKUP_TABLE": 
            if w[i] != "1": raise ValueError("components %r" % w[i])
            i += 1
        need("LOOKUP_TABLE"); need("default")
        self.vals = [float(x) for x in w[i:]]
        if len(self.vals) != n: raise ValueError("%d values for %d cells" % (len(self.vals), n))

def near(a, b): return abs(a - b) <= 2e-5 * (1e-3 + abs(b))
def close(a, b): return abs(a - b) <= 2e-5 * abs(b) + 1e-300
def judge_rectilinear(v, n, L, vals, order=(2, 1, 0)):
    """n, L per axis of the program; the file's axes are the program's in the given order"""
    if v.err: return v.err
    if v.kind != "RECTILINEAR_GRID": return "kind %s" % v.kind
    for a, j in enumerate(order):
        if v.dims[a] != n[j] + 1: return "axis %s: %d nodes for %d cells" % ("XYZ"[a], v.dims[a], n[j])
        for i, x in enumerate(v.axes[a]):
            if not near(x, L[j] * i / n[j]): return "axis %s: coordinate %d is %g, not %g" % ("XYZ"[a], i, x, L[j] * i / n[j])
    if len(v.vals) != len(vals): return "%d values for %d cells" % (len(v.vals), len(vals))
    for i, (x, y) in enumerate(zip(v.vals, vals)):
        if not near(x, y): return "value %d is %.9g, the field's is %.9g" % (i, x, y)
    return None
def judge_any(v, n, L, vals):
    """as judge_rectilinear for one to three axes: the file's axes of more than one node are the program's, last one first"""
    if v.err: return v.err
    if v.kind != "RECTILINEAR_GRID": return "kind %s" % v.kind
    live = [a for a in range(3) if v.dims[a] > 1]
    if len(live) != len(n): return "dimensions %s for cells %s" % (v.dims, n)
    for a, j in zip(live, reversed(range(len(n)))):
        if v.dims[a] != n[j] + 1: return "axis %s: %d nodes for %d cells" % ("XYZ"[a], v.dims[a], n[j])
        for i, x in enumerate(v.axes[a]):
            if not close(x, L[j] * i / n[j]): return "axis %s: coordinate %d is %g, not %g" % ("XYZ"[a], i, x, L[j] * i / n[j])
    if len(v.vals) != len(vals): return "%d values for %d cells" % (len(v.vals), len(vals))
    for i, (x, y) in enumerate(zip(v.vals, vals)):
        if not close(x, y): return "value %d is %.9g, the field's is %.9g" % (i, x, y)
    return None
def judge_structured(v, n, lo, hi, vals):
    if v.err: return v.err
    if v.kind != "STRUCTURED_GRID": return "kind %s" % v.kind
    nd = len(n)
    for j in range(3):
        if j < nd and v.dims[j] != n[j] + 1 or j >= nd and v.dims[j] not in (1, 2): return "axis %d: %d nodes" % (j, v.dims[j])
    for p, x in enumerate(v.points):
        q = p
        for j in range(nd):
            i = q % v.dims[j]; q //= v.dims[j]
            w = lo[j] + (hi[j] - lo[j]) * i / n[j]
            if not near(x[j], w) and abs(x[j] - w) > 1e-5 * max(abs(lo[j]), abs(hi[j])): return "point %d: coordinate %d is %g, not %g" % (p, j, x[j], w)
    if len(v.vals) != len(vals): return "%d values for %d cells" % (len(v.vals), len(vals))
    for i, (x, y) in enumerate(zip(v.vals, vals)):
        if not near(x, y): return "value %d is %.9g, the field's is %.9g" % (i, x, y)
    return None
