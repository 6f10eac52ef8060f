"""writes MANIFEST.json from the table below (python3 mkmanifest.py)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = "contract-based deductive verification of the real code (own VC generator over the compiler's syntax tree; z3/cvc5 and an equational tactic discharge)"
NOTES = {
 "C02": "contracts of getPrimeFactors, computeOptimalDecomp, build, getBegIndices, getEndIndices and getDecomp for all grid sizes and process counts in 1 to 3 dimensions, and the tiling lemmas over them",
 "C03": "contract of getNeighborRank for every rank and every direction in {-1,0,1}^nd, 1 to 3 dimensions; adjacency and inverse as lemmas",
 "C04": "contracts of computeCost and computeOptimalDecomp (running-minimum invariant over all combinations of divisors), 1 to 3 dimensions; floating point treated as exact reals",
 "C01": "contracts of build, begin, next, move, getIndices, computeBigIndex (both instances) and the accessors for any box in 1 to 4 dimensions, both orders; dimension count is the only enumerated parameter",
 "C12": "contracts of the constructor, the four set and get<T> functions and parse, for any set of registered options and any argument list; induction over the parser's own loops",
 "C08": "post-conditions of Upwind::Upwind and Upwind::advect of the five C++ programs for all sizes, velocities and step counts in 3-d (1-d and 2-d too for upwind.cxx); class invariant is the constructor's strongest post-condition",
 "C09": "every pair of iterations of a work-sharing loop is proved to have disjoint conflicting accesses, with barriers and privatisation read from the directives",
 "C20": "checksum and std are proved to return the sum and the population standard deviation of an arbitrary field and to leave the object unchanged; the mains are proved to print those values of the final field (on the root for the MPI programs), under the contracts of the parser, the class and the filter",
 "C05": "contracts of Filter's constructor and applyFilter (with fetch, getWindowIter, getSideFromOffset, newWindow inlined) for any axis-aligned stencil, any rank and any decomposition in 1 to 3 dimensions, MPI one-sided calls through assumed contracts",
 "C06": "class invariant of Filter (every exposed buffer holds the owner's current input next to its side) established by the setters and copyOutToIn and preserved by applyFilter, with the fence and transfer protocol as obligations at the MPI calls",
 "C07": "post-conditions of setInData, setInDataByIndices, computeCheckSum and saveVTK for any decomposition in 1 to 3 dimensions; reduction and gathering through assumed MPI contracts",
 "C10": "the new field is the old field weighted by the transposed upwind weights (C08's post-conditions); each program's own main (C++, Fortran and Python) is proved to choose velocities and a time step whose weights are non-negative and sum to one, so total and bounds follow by lemmas (Lean for the sums over cells)",
 "C16": "contracts of the two MPI programs: every constructor argument, stencil offset and weight, initial value and the order of the calls made on the filter, for all resolutions and step counts and 1 to 4 dimensions, and that whether a collective call is reached does not depend on the rank; the filter itself through its contract (C05-C07)",
 "C13": "post-conditions of the constructor and the time step of the four Fortran programs (front end over gfortran's own syntax tree) for all sizes, velocities and fields in 3 dimensions; subscript bounds included",
 "C14": "post-conditions of the constructor, of one time step and of the check sum of the Python class (front end over CPython's ast, numpy arrays as functions of their indices) for all sizes, velocities and fields in 1, 2 and 3 dimensions; index-array bounds and broadcasting conformity included; a step after earlier steps is a second obligation whenever a call changes state other than the field",
 "C18": "post-conditions of the Fortran saveVTK procedures (3 dimensions) and of the Python Upwind.saveVTK with saveVTK.rectilinear (1, 2 and 3 dimensions) on the text they write: the records are read back symbolically as a VTK document; counts, coordinates, values, word separation and the room left by each format are obligations",
 "C15": "post-conditions of both kernels and of initmat for all conforming shapes and matrices; inner products by induction along the loops, DO CONCURRENT iterations proved disjoint, inputs framed",
 "C11": "post-conditions of writeVTK and Upwind::saveVTK on the text they write: the stream's terms are read back symbolically as a VTK document and its counts, coordinates and values are proved for all sizes, lengths and fields",
}
NOTES["C19"] = "post-conditions of the constructor, advect, checksum and gatherRoot of the distributed Python class for any number of processes, rank, sizes and non-negative velocities in 3 dimensions; mpinum and mpi4py through assumed contracts (domain decomposition, halo fetch, reduction, gathering)"
NOTES["C17"] = "bounds, initialisation, null, divisor, overflow and narrowing obligations at every access of every C++ function under contract (library, five upwind programs, two MPI drivers), for all admissible sizes; release of memory and windows as obligations at the MPI calls; stencils along one axis, 1 to 3 dimensions"
NOTES["C22"] = "contracts of the eleven mains for every well-formed command line: the grid, velocity, time step, number of steps (induction along the time loop), check sum and file as ghost state over the class contracts"
NA = {"C21": "no Julia or Cython tool chain or front end is installed, so the sources can be neither parsed by the verifier nor run for replay"}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks = []
for i in ids:
    if i in NOTES:
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i, "technique": T, "level": "proof", "level_note": NOTES[i]})
na = [{"property": i, "reason": NA.get(i, "machinery for this property is not built yet")} for i in ids if i not in NOTES]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
