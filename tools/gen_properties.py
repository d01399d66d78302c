#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

SCHEME = ("f_new(cell) = f_old(cell) - sum over axes of |v_j| dt / dx_j * (f_old(cell) - f_old(upwind neighbour on axis j)), "
          "where the upwind neighbour is one cell down the axis when v_j >= 0 and one cell up when v_j < 0, with periodic wrap-around, "
          "and dx_j = length_j / numCells_j")

prop("C01", "Multi-dimensional iterator enumerates every index set exactly once",
 "For every low/high index box, dimension count and ordering (row or column major), stepping the array iterator from its beginning for its reported number of terms visits every index set of the box exactly once, in the requested ordering. The flat index computed from an index set is the inverse: moving the iterator to it yields that index set back, and begin() restarts the enumeration.",
 ["inputs", "histories"], "all boxes with at least one axis, both orderings, all positions, all sequences of begin/next/move",
 "testMultiArrayIter prints one box in two orders, is not even registered with ctest, and asserts nothing",
 ["cxx/MultiArrayIter.cpp", "cxx/MultiArrayIter.h"],
 [("strides from the products of the extents", "MultiArrayIter::build"), ("index set from flat index", "MultiArrayIter::getIndices"), ("flat index from index set", "MultiArrayIter::computeBigIndex")],
 ["getIndices", "computeBigIndex", "getNumberOfTerms", "move/next/begin"])

prop("C02", "Domain decomposition tiles the global grid exactly",
 "For every process count and every global grid, a decomposition is reported exactly when the grid can be cut into that many equal boxes with a whole number of cells along each axis. When one is reported, its factors multiply to the process count and divide the grid extents, and the begin/end index sets of all ranks have equal extents and cover every global cell exactly once.",
 ["inputs", "configurations"], "all process counts >= 1 and all grids with extents >= 1 in 1, 2, 3 (and more) dimensions",
 "testCubeDecomp prints three hand-picked cases and asserts nothing; the registered tests only use 4 ranks on cubes of 32 cells",
 ["cxx/CubeDecomp.cpp", "cxx/CubeDecomp.h"],
 [("search over products of divisors", "CubeDecomp::computeOptimalDecomp"), ("begin/end index sets", "CubeDecomp::getBegIndices/getEndIndices")],
 ["build() result", "getDecomp", "getBegIndices", "getEndIndices"])

prop("C03", "Domain decomposition minimises communication surface",
 "For every process count and every global grid that can be decomposed, the decomposition chosen has the smallest ratio of sub-domain surface to sub-domain volume among all decompositions of that grid into that many equal boxes.",
 ["inputs", "configurations"], "all process counts and grids for which a decomposition exists",
 "no test compares the decomposition chosen with the alternatives; the minimum is over a set that grows with the divisors of the extents",
 ["cxx/CubeDecomp.cpp", "cxx/CubeDecomp.h"],
 [("surface to volume cost and its minimum", "CubeDecomp::computeCost, computeOptimalDecomp")],
 ["getDecomp"])

prop("C04", "Neighbour ranks follow the periodic process grid",
 "For every decomposition, rank and direction vector, the neighbour rank returned is a valid rank and is the one whose sub-domain lies at that displacement (counted in sub-domains) from the given rank's sub-domain, wrapping around periodically. In particular going in a direction and then in the opposite one returns to the starting rank.",
 ["inputs", "configurations"], "all decomposable grids and process counts, all ranks, all directions (unit and longer, negative and positive, several axes at once)",
 "testCubeDecomp prints neighbours for three layouts without checking them; other tests reach it with 4 ranks only",
 ["cxx/CubeDecomp.cpp", "cxx/CubeDecomp.h"],
 [("periodic wrap of the process-grid index", "CubeDecomp::getNeighborRank")],
 ["getNeighborRank", "getBegIndices"])

prop("C05", "Distributed stencil equals the periodic stencil on the global grid",
 "For every process count for which a decomposition exists, every grid, every stencil whose branches lie along the axes and reach no further than one sub-domain, and every input field, applying the filter leaves in each rank's output exactly the weighted sum of the periodic neighbours of the global field. The result does not depend on how many ranks share the work.",
 ["inputs", "configurations"], "all input fields and stencil weights, all axis-aligned stencils with reach up to the sub-domain extent (several reaches per side included), all grids and process counts that can be decomposed",
 "testStencil2d has one 3-point stencil on 4 ranks with a power-of-two grid and passes whatever it prints; laplacian2D/3D only look for the words 'Check sums'",
 ["cxx/Filter.cpp", "cxx/Filter.h", "cxx/CubeDecomp.cpp", "cxx/MultiArrayIter.cpp", "laplacian/cxx/testStencil2d.cxx"],
 [("halo windows per side", "Filter::newWindow, getWindowIter, getSideFromOffset"), ("periodic index and local/halo update", "Filter::applyFilter"), ("one-sided fetch", "Filter::fetch")],
 ["printOutData", "saveVTK", "computeCheckSum"])

prop("C06", "Repeated filtering iterates the same global operator",
 "For every history of setting the input (by position or by index) and of alternating filter applications and output-to-input copies, the output after k applications is the k-th iterate of the global periodic stencil applied to the most recent input. The position handed to an initialising function is the centre of the cell it initialises.",
 ["inputs", "histories", "configurations"], "all input functions, domain corners, stencils, and sequences of set/apply/copy operations",
 "the laplacian test runs ten iterations of one field and never compares the result with anything",
 ["cxx/Filter.cpp", "cxx/Filter.h"],
 [("initialisation of field and windows", "Filter::setInData, setInDataByIndices"), ("copy back of field and windows", "Filter::copyOutToIn"), ("cell centres", "Filter::getPosition")],
 ["printInData", "printOutData"])

prop("C07", "Halo exchange is free of races, deadlocks and stray accesses",
 "For every rank interleaving, process count, grid and axis-aligned stencil, all ranks call the collective communication operations in the same order, no rank writes an exposed halo buffer (or reads a fetched one) while a transfer may be under way, and no transfer or local access falls outside its buffer. Destroying the filter closes every communication window once, frees every buffer once, and frees no buffer while its window is still open.",
 ["schedules", "configurations", "histories"], "all interleavings of the ranks, all process counts and grids that decompose, all axis-aligned stencils, all call histories up to destruction",
 "a test run sees one interleaving on one machine with 4 ranks, and nothing inspects window lifetimes or out-of-range transfers",
 ["cxx/Filter.cpp", "cxx/Filter.h"],
 [("fence-get-fence epoch", "Filter::fetch"), ("window creation and release", "Filter::newWindow, deleteWindow, ~Filter")],
 ["MPI calls", "memory accesses to window buffers"])

prop("C08", "Check sums and gathered output describe the whole global field",
 "For every process count, grid and field, the check sum delivered on rank 0 is the sum of the input (or output, as asked) over all global cells, and the file saved by the distributed filter holds every global cell's output value at that cell's place, independent of the number of ranks.",
 ["inputs", "configurations"], "all fields, grids and process counts that decompose",
 "tests print check sums without comparing them and never write a file in parallel",
 ["cxx/Filter.cpp", "cxx/Filter.h", "cxx/writeVTK.cpp"],
 [("reduction to rank 0", "Filter::computeCheckSum"), ("gather and re-assembly", "Filter::saveVTK")],
 ["computeCheckSum", "VTK file content"])

prop("C09", "Structured-grid VTK file agrees with the data it was given",
 "For every grid of up to three dimensions, domain box and field, the structured-grid writer produces a file whose declared dimensions, point count and cell count agree with each other and with the data listed, whose points are the cell corners of the box with the first axis varying fastest, and whose cell values are the field in order under the given name. Grids with more than three dimensions are refused without writing anything.",
 ["inputs", "configurations"], "all extents, domain corners and fields, 1 to 3 (and more) dimensions",
 "no registered test writes a VTK file",
 ["cxx/writeVTK.cpp", "cxx/writeVTK.h"],
 [("header, points and cell data", "writeVTK")],
 ["file content"])

prop("C10", "Command line parsing assigns exactly the options given",
 "For every set of registered options and every argument list, parsing fails exactly when some argument looks like an option (a dash followed by a non-digit) but is not registered, and then every option keeps its default; otherwise each valued option has the value following its last occurrence (its default when absent), and each flag is its default flipped once per occurrence. Every option is read back with the type it was registered with.",
 ["inputs"], "all argument vectors over all sets of registered double, integer, string and boolean options",
 "the registered tests pass positional numbers, which the parser ignores, or one -numCells/-numDims pair",
 ["cxx/CmdLineArgParser.h", "cxx/CmdLineArgParser.cpp"],
 [("validity scan then one pass per type", "CmdLineArgParser::parse"), ("typed access", "CmdLineArgParser::get, set")],
 ["parse() result", "get<T>"])

prop("C11", "C++ OpenMP upwind advances the field by the upwind scheme",
 "For every velocity (either sign or zero on each axis), domain size, grid (cubic or not), time step and field, one time step of the OpenMP C++ upwind programs gives " + SCHEME + " (in exact arithmetic); k steps are k such updates. The field starts as one in the lowest-corner cell and zero elsewhere.",
 ["inputs", "histories", "configurations"], "all velocities, lengths, extents, time steps, fields and step counts, for upwind.cxx and upwindOMPTasks.cxx",
 "the tests use velocity (1,1,1) on one cube and accept any check sum whose first character is 0, 1, 9, '.' or '|'",
 ["upwind/cxx/upwind.cxx", "upwind/cxx/upwindOMPTasks.cxx"],
 [("index arithmetic and update", "Upwind::advect, getIndexSet, getFlatIndex"), ("initial condition and strides", "Upwind::Upwind")],
 ["print", "checksum"])

prop("C12", "C++ accelerator upwind variants advance the field by the upwind scheme",
 "For every velocity (either sign or zero on each axis), domain size, grid (cubic or not), time step and field, one time step of the OpenACC and OpenMP-offload C++ upwind programs gives the first-order upwind update with periodic wrap-around, the same operator as the OpenMP program (in exact arithmetic); k steps are k such updates.",
 ["inputs", "histories", "configurations"], "all velocities, lengths, extents, time steps, fields and step counts, for upwindAcc.cxx, upwindAcc2.cxx and upwindOMP5.cxx",
 "the tests use velocity (1,1,1) on one cube; the offload program is not even built by default",
 ["upwind/cxx/upwindAcc.cxx", "upwind/cxx/upwindAcc2.cxx", "upwind/cxx/upwindOMP5.cxx", "upwind/cxx/compute_index_set.h", "upwind/cxx/compute_flat_index_offset_x.h", "upwind/cxx/compute_flat_index_offset_y.h", "upwind/cxx/compute_flat_index_offset_z.h"],
 [("index set and upwind offsets", "compute_index_set.h, compute_flat_index_offset_*.h"), ("update", "Upwind::advect")],
 ["print", "checksum"])

prop("C13", "Upwind advection conserves the total and creates no new extrema",
 "For every velocity, domain, grid, time step and field, a time step of any C++ upwind program leaves the sum of the field unchanged (in exact arithmetic). When the sum over axes of |v_j| dt / dx_j does not exceed one, every new cell value lies between the smallest and the largest old value.",
 ["inputs", "configurations"], "all fields, velocities, extents and (for the bounds) all time steps within the stability limit, for every C++ upwind program",
 "the tests look at the first printed character of one check sum on one grid and never at the extrema",
 ["upwind/cxx/upwind.cxx", "upwind/cxx/upwindOMPTasks.cxx", "upwind/cxx/upwindAcc.cxx", "upwind/cxx/upwindAcc2.cxx", "upwind/cxx/upwindOMP5.cxx"],
 [("flux form of the update", "Upwind::advect")],
 ["print", "checksum"])

prop("C14", "C++ parallel loops give schedule-independent results",
 "For every number of threads and every assignment of loop iterations to threads (or accelerator gangs), the parallel regions of the C++ upwind programs touch no memory location from two concurrent iterations with at least one of them writing, and the resulting field is bit for bit the one the sequential execution produces.",
 ["schedules", "configurations"], "all thread counts, all iteration-to-thread assignments and interleavings, all fields and velocities, for every C++ upwind program with its OpenMP or OpenACC directives in force",
 "upwindCxx1..8 run a few thread counts on whatever interleaving the machine produces and look at one character of the check sum; OpenACC and offload directives are never enabled",
 ["upwind/cxx/upwind.cxx", "upwind/cxx/upwindOMPTasks.cxx", "upwind/cxx/upwindAcc.cxx", "upwind/cxx/upwindAcc2.cxx", "upwind/cxx/upwindOMP5.cxx"],
 [("parallel copy loop, barrier, parallel update loop", "Upwind::advect"), ("privatisation of index variables", "directives in Upwind::advect")],
 ["print", "memory accesses in parallel regions"])

prop("C15", "C++ upwind reports and VTK output describe the field",
 "For every grid in one, two or three dimensions and every field, the check sum is the sum of all cells, the reported spread is the population standard deviation, and the rectilinear VTK file declares dimensions that match its three coordinate lists (last axis as X, first as Z, spacing length/numCells starting at zero) and lists every cell value once in storage order.",
 ["inputs", "configurations"], "all fields, lengths and extents, 1 to 3 dimensions where the program supports them",
 "no registered test writes a VTK file or asks for the spread",
 ["upwind/cxx/saveVTK.h", "upwind/cxx/upwind.cxx", "upwind/cxx/upwindOMPTasks.cxx", "upwind/cxx/upwindAcc.cxx", "upwind/cxx/upwindAcc2.cxx", "upwind/cxx/upwindOMP5.cxx"],
 [("VTK writer", "saveVTK.h"), ("statistics", "Upwind::checksum, std")],
 ["saveVTK file content", "checksum", "std"])

prop("C16", "Fortran upwind variants advance the field by the upwind scheme",
 "For every velocity (either sign or zero on each axis), domain size, grid (cubic or not, one to three dimensions), time step and field, one time step of each Fortran upwind program gives the first-order upwind update with periodic wrap-around (in exact arithmetic), the same operator as the C++ programs; k steps are k such updates, and the field starts as one in the lowest-corner cell and zero elsewhere.",
 ["inputs", "histories", "configurations"], "all velocities, lengths, extents, time steps, fields and step counts, for upwind.F90, upwindF03.F90, upwindF08.F90 and upwindF08Gpu.F90",
 "the tests use velocity (1,1,1) on one cube and accept any check sum whose first character is 0, 1, 9, '.' or '|'",
 ["upwind/fortran/upwind.F90", "upwind/fortran/upwindF03.F90", "upwind/fortran/upwindF08.F90", "upwind/fortran/upwindF08Gpu.F90"],
 [("index arithmetic and update", "upwind_advect, upwind_getIndexSet, upwind_getFlatIndex"), ("initial condition and strides", "upwind_new")],
 ["upwind_print", "field component"])

prop("C17", "Fortran parallel loops give schedule-independent results",
 "For every number of threads and every assignment of loop iterations to threads, the parallel regions of the Fortran time step touch no memory location from two concurrent iterations with at least one of them writing, and the resulting field is bit for bit the one the sequential execution produces.",
 ["schedules", "configurations"], "all thread counts, iteration-to-thread assignments and interleavings, all fields and velocities, for every Fortran upwind program with OpenMP in force",
 "upwindFortran1..8 run a few thread counts on whatever interleaving the machine produces and look at one character of the check sum",
 ["upwind/fortran/upwind.F90", "upwind/fortran/upwindF03.F90", "upwind/fortran/upwindF08.F90", "upwind/fortran/upwindF08Gpu.F90"],
 [("private clauses", "directives in upwind_advect")],
 ["field component", "memory accesses in parallel regions"])

prop("C18", "Fortran VTK output is a consistent file describing the field",
 "For every grid and field, the rectilinear VTK file written by each Fortran upwind program declares dimensions that match its X, Y and Z coordinate lists in number and spacing (last axis as X, first as Z, like the C++ programs), and lists every cell value once in storage order.",
 ["inputs", "configurations"], "all fields, lengths and extents (cubic or not), 1 to 3 dimensions",
 "no registered test writes a VTK file, and the default grid is a cube, which hides any mix-up of axes",
 ["upwind/fortran/upwind.F90", "upwind/fortran/upwindF03.F90", "upwind/fortran/upwindF08.F90", "upwind/fortran/upwindF08Gpu.F90"],
 [("VTK writer", "upwind_saveVTK")],
 ["file records"])

prop("C19", "Python upwind advances the field by the upwind scheme",
 "For every velocity (either sign or zero on each axis), domain size, grid (cubic or not, one to three dimensions), time step and field, one time step of the serial Python upwind program gives the first-order upwind update with periodic wrap-around (in exact arithmetic), the same operator as the C++ programs; its check sum is the sum of the field, which a step leaves unchanged.",
 ["inputs", "histories", "configurations"], "all velocities, lengths, extents, time steps, fields and step counts",
 "the test uses velocity (1,1,1) on one cube and accepts nearly any check sum",
 ["upwind/python/upwind.py"],
 [("vectorised index arithmetic and update", "Upwind.__init__, Upwind.advect")],
 ["f", "checksum"])

prop("C20", "Parallel Python upwind equals the serial scheme for any rank count",
 "For every number of ranks for which a decomposition exists, every velocity (either sign on each axis), grid, time step and number of steps, the union of the ranks' fields in the MPI Python program is the field of the serial upwind scheme (in exact arithmetic), the check sum on rank 0 is its total, and the gathered array holds every cell at its global place.",
 ["inputs", "histories", "configurations"], "all velocities, lengths, decomposable grids and rank counts, time steps and step counts",
 "the test runs 4 ranks with velocity (1,1,1) on one cube and accepts nearly any check sum",
 ["upwind/python/upwindMPI.py"],
 [("local and halo update", "Upwind.advect"), ("neighbour ranks and sides", "Upwind.__init__"), ("gather", "Upwind.gatherRoot")],
 ["f", "checksum", "gatherRoot"])

prop("C21", "Python VTK output is a consistent file describing the field",
 "For every grid in one to three dimensions and every field, the rectilinear VTK file written by the Python program declares dimensions that match its three coordinate lists in number, spacing and axis order (last axis as X, first as Z), and lists every cell value once in storage order.",
 ["inputs", "configurations"], "all fields, lengths and extents, 1 to 3 dimensions",
 "no registered test writes a VTK file",
 ["upwind/python/saveVTK.py", "upwind/python/upwind.py"],
 [("VTK writer", "saveVTK.rectilinear, Upwind.saveVTK")],
 ["file content"])

prop("C22", "Both matrix multiplications compute the matrix product",
 "For every pair of conforming matrices, the naive and the parallel multiplication both return the exact matrix product (in exact arithmetic), independent of the order in which the concurrent columns are processed. The program honours the three sizes given on the command line and fills its two matrices with consecutive numbers in column order.",
 ["inputs", "schedules", "configurations"], "all matrix sizes and entries, all orders of the concurrent iterations, all size arguments",
 "the test multiplies one 3x4 by 4x5 pair of fixed integers and only compares the two routines with each other",
 ["matmult/fortran/matmult.F90"],
 [("triple loop", "matmult0"), ("do concurrent over columns", "matmult1"), ("initialisation", "initmat"), ("arguments", "program test")],
 ["result arrays", "program output"])

prop("C23", "C++ upwind programs run the problem asked for on the command line",
 "For every number of cells and steps given with -numCells and -numSteps, each C++ upwind program advances exactly that grid by exactly that many steps of a tenth of the cell size at unit velocity, prints the resulting check sum (and the spread with -std where offered), and with -vtk writes the final field. Unknown options or -h run nothing and print the help text.",
 ["inputs", "configurations"], "all values of the options and combinations of flags, for every C++ upwind program",
 "the tests pass positional numbers that the programs ignore, so they always run the default problem",
 ["upwind/cxx/upwind.cxx", "upwind/cxx/upwindOMPTasks.cxx", "upwind/cxx/upwindAcc.cxx", "upwind/cxx/upwindAcc2.cxx", "upwind/cxx/upwindOMP5.cxx"],
 [("option handling, time step, output", "main")],
 ["standard output", "VTK files"])

prop("C24", "Fortran upwind programs run the problem asked for on the command line",
 "For every number of cells and steps given as first and second argument, each Fortran upwind program advances exactly that cubic grid by exactly that many steps (100 when absent) of a tenth of the cell size at unit velocity, and prints the resulting check sum; a third argument 'vtk' also writes the final field. Without arguments it stops with a message.",
 ["inputs", "configurations"], "all argument lists, for every Fortran upwind program",
 "the tests run one size and step count and look at one character of the check sum",
 ["upwind/fortran/upwind.F90", "upwind/fortran/upwindF03.F90", "upwind/fortran/upwindF08.F90", "upwind/fortran/upwindF08Gpu.F90"],
 [("arguments, time step, output", "program main")],
 ["standard output", "VTK file records"])

prop("C25", "MPI upwind program equals the serial scheme for any rank count",
 "For every number of ranks for which a decomposition exists, number of cells and number of steps, the MPI C++ upwind program advances the unit pulse in the lowest-corner cell by the same scheme, time step and step count as the serial programs, prints that field's total as check sum on rank 0, and with -vtk saves that field. When no decomposition exists it says so and runs nothing.",
 ["inputs", "configurations", "histories"], "all rank counts, sizes and step counts",
 "upwindMpiCxx is built but has no registered test",
 ["upwind/cxx/upwindMpi.cxx", "cxx/Filter.cpp"],
 [("stencil assembly and time loop", "main")],
 ["standard output", "VTK file"])

prop("C26", "Laplacian program applies the discrete Laplacian it advertises",
 "For every dimension count, number of cells and number of ranks for which a decomposition exists, the Laplacian program samples its input function at the cell centres of the unit box and applies the periodic stencil (-2*dims at the centre, 1 on each axis neighbour) ten times, reporting on rank 0 the sums of the last input and output.",
 ["inputs", "configurations"], "all dimension counts, sizes and rank counts",
 "laplacian2D/3D run one size on 4 ranks and only look for the words 'Check sums'",
 ["laplacian/cxx/laplacian.cxx", "cxx/Filter.cpp"],
 [("stencil assembly and iteration", "main")],
 ["standard output", "VTK file"])

prop("C27", "Python upwind programs run the problem asked for on the command line",
 "For every number of cells and steps given as first and second argument (100 steps when absent), the Python upwind programs advance exactly that cubic grid by exactly that many steps of a tenth of the cell size at unit velocity and print the resulting check sum; a third argument 'vtk' also writes the final field. Without arguments they exit with status 1.",
 ["inputs", "configurations"], "all argument lists, for upwind.py and upwindMPI.py",
 "the tests run one size and step count and accept nearly any check sum",
 ["upwind/python/upwind.py", "upwind/python/upwindMPI.py"],
 [("arguments, time step, output", "main")],
 ["standard output", "VTK file"])

prop("C28", "Julia upwind variants advance the field by the upwind scheme",
 "For every velocity, domain size, grid, time step and field, one time step of the Julia upwind programs gives the first-order upwind update with periodic wrap-around (in exact arithmetic), the same operator as the C++ programs.",
 ["inputs", "histories", "configurations"], "all velocities, lengths, extents, time steps, fields and step counts",
 "the Julia tests are not registered where Julia is not installed",
 ["upwind/julia/upwind.jl", "upwind/julia/upwind3.jl"],
 [("update", "advect!")],
 ["f"])

prop("C29", "Cython upwind advances the field by the upwind scheme",
 "For every velocity, domain size, grid, time step and field, one time step of the Cython upwind class gives the first-order upwind update with periodic wrap-around (in exact arithmetic), the same operator as the C++ programs.",
 ["inputs", "histories", "configurations"], "all velocities, lengths, extents, time steps, fields and step counts",
 "the Cython module is not part of the build and has no test",
 ["upwind/cython/upwind5.pyx"],
 [("update", "Upwind.advect")],
 ["f"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
