"""Runs problems through the distributed Python upwind class under mpiexec; one JSON line per case and process.
arguments: directory of the program, cases (JSON), output prefix"""
import json, os, sys, traceback
sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True
import numpy, mpinum
from mpi4py import MPI
rk, sz = MPI.COMM_WORLD.Get_rank(), MPI.COMM_WORLD.Get_size()
cases = json.load(open(sys.argv[2])); out = open("%s.%d" % (sys.argv[3], rk), "w"); sys.stdout = open(os.devnull, "w")
def emit(r): out.write(json.dumps(r, default=lambda x: x.item()) + "\n"); out.flush()
try: import upwindMPI
except Exception as e: emit({"error": "import: %s: %s" % (type(e).__name__, e)}); MPI.COMM_WORLD.Abort(3)
for c in cases:
    if c["P"] != sz: continue
    v, L, n = numpy.array(c["v"], numpy.float64), numpy.array(c["L"], numpy.float64), [int(x) for x in c["n"]]
    d = mpinum.CubeDecomp(sz, n); slab = d.getSlab(rk); lo = [s.start for s in slab]; hi = [s.stop for s in slab]
    r = {"rank": rk, "lo": lo, "hi": hi}
    flat = lambda a: [float(x) for x in numpy.array(a).reshape(-1)]
    try:
        u = upwindMPI.Upwind(v, L, n)
        r["shape"] = list(u.f.shape); r["init"] = flat(u.f)
        if c["f"]: u.f[...] = numpy.array(c["f"]).reshape(n)[slab]
        r["fields"] = []
        for dt in c["dts"]: u.advect(dt); r["fields"].append(flat(u.f))
        s = u.checksum(); r["sum"] = None if s is None or rk != 0 else float(s)
        r["after"] = flat(u.f)
        g = u.gatherRoot(); r["gather"] = None if g is None else {"shape": list(g.shape), "vals": flat(g)}
        r["args"] = [[float(x) for x in v], [float(x) for x in L], [int(x) for x in n]]
    except BaseException as e:
        r["error"] = "%s: %s" % (type(e).__name__, e); r["trace"] = traceback.format_exc()[-1500:]; emit(r); MPI.COMM_WORLD.Abort(4)
    emit(r); MPI.COMM_WORLD.Barrier()
out.close()
