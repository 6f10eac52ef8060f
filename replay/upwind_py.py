"""Runs problems through the Python upwind class: a JSON list of cases on stdin, one JSON line per case on stdout."""
import json, os, sys
sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True
import numpy, upwind
out = sys.stdout; sys.stdout = open(os.devnull, "w")
for c in json.load(sys.stdin):
    v, L, n = numpy.array(c["v"], numpy.float64), numpy.array(c["L"], numpy.float64), [int(x) for x in c["n"]]
    r = {}
    try:
        u = upwind.Upwind(v, L, n)
        r["init"] = [float(x) for x in u.f]
        if c["f"]: u.f[:] = c["f"]
        for dt in c["dts"]: u.advect(dt)
        r["field"] = [float(x) for x in u.f]; r["diag"] = float(u.checksum()); r["after"] = [float(x) for x in u.f]
        r["args"] = [[float(x) for x in v], [float(x) for x in L], [int(x) for x in n]]
        if c.get("vtk"): u.saveVTK(c["vtk"])
    except Exception as e: r["error"] = "%s: %s" % (type(e).__name__, e)
    out.write(json.dumps(r) + "\n"); out.flush()
