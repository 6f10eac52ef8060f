"""C11, C18: what a VTK file must say, as post-conditions on the stream a writer leaves behind"""
from vcg.core import *
from vcg.textout import VtkDoc, BadText, Seq

def doc(U, st, root_items, hyps, what):
    """the file as a document; a stream that is no legacy VTK file fails the first obligation"""
    try: D = VtkDoc(root_items, hyps)
    except BadText as e:
        U.fact("%s: the text written is a legacy VTK file" % what, False, detail=str(e)); return None
    U.fact("%s: the text written is a legacy VTK file" % what, True)
    return D
def separation(U, eng, D):
    for hy, c, nm in D.R.obls: U.goal(eng, hy, nm, c, kind="post")
def common(U, eng, hyps, D, ntot, value, cell, rng, flat, hints=()):
    """declared cells, number of values, the values in order; cell: symbolic cell with position flat"""
    cells = 1
    for d in D.dims: cells = mul(cells, ite(le(sub(d, 1), 1), 1, sub(d, 1)))
    U.equal(eng, hyps, "the number of cells declared agrees with the dimensions", D.ncells, cells, hints=hints)
    U.equal(eng, hyps, "exactly one value per cell is written", D.values.len, D.ncells, hints=hints)
    U.equal(eng, hyps + rng, "the values are the field's, in the file's cell order", D.values.get(flat), value, hints=hints)
def rectilinear(U, eng, hyps, D, sizes, lengths, ntot, value, cell, rng, flat, hints=()):
    """sizes, lengths: per axis in the file's order (up to three; further axes, and those with size None, are degenerate)"""
    U.fact("the grid is rectilinear", D.kind == "RECTILINEAR_GRID", detail=D.kind)
    if D.kind != "RECTILINEAR_GRID": return
    k = z3.Int("node")
    for a in range(3):
        n, x = D.axes[a]; nm = "XYZ"[a]
        U.equal(eng, hyps, "%s: as many coordinates declared as nodes" % nm, n, D.dims[a], hints=hints)
        U.equal(eng, hyps, "%s: as many coordinates written as declared" % nm, x.len, n, hints=hints)
        if a < len(sizes) and sizes[a] is not None:
            U.equal(eng, hyps, "%s: one node more than cells" % nm, D.dims[a], add(sizes[a], 1), hints=hints)
            U.equal(eng, hyps + [k >= 0, Z(le(k, sizes[a]))], "%s: coordinates uniform from corner to corner" % nm, x.get(k), rdiv(mul(lengths[a], z3.ToReal(k)), z3.ToReal(Z(sizes[a]))), hints=hints)
        else: U.goal(eng, hyps, "%s: the axis has a single layer of cells" % nm, bor(eq(D.dims[a], 1), eq(D.dims[a], 2)))
    common(U, eng, hyps, D, ntot, value, cell, rng, flat, hints)
