"""Generic replay: a C++ driver in /verif/replay linked with sources of the repository prints 'CASES n', 'FAIL ...' lines."""
import os
from vcg.frame import *
INC = ["-I" + os.path.join(REPO, "cxx"), "-I" + os.path.join(REPO, "upwind/cxx")]
def build(d, driver, srcs, flags=("-O1", "-g"), name="h"):
    exe = os.path.join(d, name)
    rc, o, e = sh(["g++", "-std=c++17", "-w", "-fno-access-control"] + list(flags) + INC + ["-I" + os.path.join(VERIF, "replay"), os.path.join(VERIF, "replay", driver)] + [os.path.join(REPO, s) for s in srcs] + ["-o", exe], 300)
    return rc, e, exe
def harness(driver, srcs, rule, flags=("-O1", "-g"), timeout=300, args=()):
    def run(_):
        H = Harness(); H.rule = rule
        d = scratch()
        try:
            rc, e, exe = build(d, driver, srcs, flags)
            if rc: H.inconclusive = "harness does not compile: " + e[-800:]; return H
            collect(H, exe, list(args) + [str(SEED), "thorough" if THOROUGH else "quick"], d, timeout)
            return H
        finally: shutil.rmtree(d, ignore_errors=True)
    return run
def collect(H, exe, args, d, timeout=300, env=None):
    rc, o, e = sh([exe] + args, timeout, cwd=d, env=env)
    for l in o.split("\n"):
        if l.startswith("CASES "): H.cases += int(l.split()[1])
        elif l.startswith("SAMPLE ") and len(H.samples) < 4: H.samples.append(l[7:])
        elif l.startswith("FAIL ") and H.fail is None: H.fail = {"what": l[5:], "command": args}
    if H.fail is None and rc != 0:
        last = [l for l in o.split("\n") if l.startswith("CASE ")][-1:]
        if rc == -9: H.inconclusive = "time limit (%s)" % last
        else: H.fail = {"what": "the program ended with status %d: %s" % (rc, (e or "")[-1200:]), "case": last, "command": args}
