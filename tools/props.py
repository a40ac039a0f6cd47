#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it to rewrite that file."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Sparse matrix-vector products equal the mathematical product",
 "For every square sparse matrix, block size, block storage layout, owning or viewing matrix object and number of threads, y = A x and z = a A x + b y equal the dense product up to rounding proportional to the magnitudes involved. The result vector may alias the added vector, the input arrays are left untouched and nothing outside the result vector is written.",
 ["inputs", "configurations", "schedules"],
 "all patterns (empty rows, unsorted columns, dense rows), values of mixed sign and magnitude, all instantiated block sizes and layouts, scalar coefficients including 0, thread counts and interleavings",
 "The tests multiply a handful of fixed matrices by one vector each at block sizes 3 and 7; layouts 4/5, scaled products with aliasing, empty rows and thread interleavings are never sampled.",
 ["src/blas/matvecs.cpp", "src/blockmatrices.ipp", "include/blockmatrices.hpp"],
 [("row-parallel block products", "src/blas/matvecs.cpp"), ("matrix classes and views forwarding to them", "src/blockmatrices.ipp")],
 ["apply()", "gemv3()"])

prop("C02", "Assembly histories give exactly the sum of their contributions",
 "After any sequence of structure settings, block insertions, block additions, diagonal-block additions, zeroings and scalings, every stored entry equals what the same history gives on a plain dictionary of entries, entries outside the addressed block are untouched, and the diagonal and equality queries report what that dictionary says. Additions made concurrently by several threads to the same entries are all counted, under every interleaving.",
 ["histories", "schedules", "inputs"],
 "all histories of assembly operations on CSR and BSR matrices of the instantiated block sizes, rectangular blocks for CSR, and all interleavings of concurrent additions",
 "No test updates a matrix after setting it, none updates from several threads, and a lost update or a wrong buffer stride shows only for particular histories, block shapes or interleavings.",
 ["src/blockmatrices.ipp", "include/blockmatrices.hpp", "include/linearoperator.hpp"],
 [("atomic block updates", "src/blockmatrices.ipp: updateBlock, updateDiagBlock"), ("insertion, zeroing, scaling", "src/blockmatrices.ipp: submitBlock, setAllZero, setDiagZero, scaleAll"), ("diagonal and equality queries", "src/blockmatrices.ipp: isEqual, zeroDiagonalRow, getAbsMinDiagonalEntry...")])

prop("C03", "Every way of building a matrix object gives the same matrix, safely",
 "A matrix built by copying a structure, wrapping arrays, taking over raw arrays, moving or sharing storage, or copying another matrix represents exactly the same operator, with the same dimension, structure, diagonal positions and values. Copies are independent of their source, wrappers never free what they do not own, owners free it exactly once, sources whose contents were transferred are emptied, and no memory outside the given arrays is touched.",
 ["inputs", "histories", "configurations"],
 "all structures and values, all construction paths and block sizes, and all short histories of construct / copy / move / mutate / destroy",
 "The tests build matrices along one path (file import) only; the other constructors, their ownership rules and their array bounds are not executed at all.",
 ["include/blockmatrices.hpp", "src/blockmatrices.ipp", "include/arrayview.hpp", "include/srmatrixdefs.hpp", "src/rawsrmatrixutils.cpp"],
 [("constructors and copy", "src/blockmatrices.ipp"), ("ownership-tracking array", "include/arrayview.hpp"), ("raw copy, sharing, const move", "src/rawsrmatrixutils.cpp")])

prop("C04", "Coordinate and Matrix Market import preserves the matrix",
 "Reading any well-formed general coordinate file (real or integer; any entry order, comments, white space, rows without entries) and converting to row or block-row storage yields exactly the file's entries, with zero fill only inside touched blocks. The resulting structure has increasing columns within each (block-)row, correct row pointers and correct positions of the stored diagonal entries or blocks, in either block layout, and does not depend on the order of entries in the file; dense array files read back as the listed numbers.",
 ["inputs", "configurations"],
 "all well-formed general files, every entry order, block sizes 1, 3, 4, 7 and both layouts",
 "The tests import a few fixed files whose entries are already ordered; scrambled order, empty rows and blocks first touched out of order are not sampled.",
 ["src/coomatrix.cpp", "include/coomatrix.hpp"],
 [("header and entry parsing", "src/coomatrix.cpp: readMatrixMarket"), ("conversion to CSR and BSR", "src/coomatrix.cpp: convertToCSR, convertToBSR, getSRMatrixFromCOO")])

prop("C05", "Malformed matrix files are rejected cleanly",
 "For any byte sequence offered as a matrix or vector file the reader terminates, and either delivers data consistent with the file or throws an exception. Kinds it does not support (pattern, complex, symmetric, skew-symmetric, hermitian) are refused. It never crashes, aborts, hangs, reads or writes outside its buffers, or delivers entries outside the declared dimensions or not in the file.",
 ["inputs", "fault_sequences"],
 "all byte strings: truncations, corrupted headers, unsupported kinds, bad counts, out-of-range indices, non-numeric tokens, missing files",
 "The only negative inputs any test uses are none at all; the space of malformed files is unbounded.",
 ["src/coomatrix.cpp", "include/coomatrix.hpp"],
 [("header decoding and its exceptions", "src/coomatrix.cpp: getMMDescription"), ("entry reading", "src/coomatrix.cpp: readMatrixMarket, readDenseMatrixMarket")])

prop("C06", "Row-to-column conversion keeps every entry and the product",
 "Converting a (block-)sparse-row matrix to (block-)sparse-column form, zero- or one-based, yields exactly the same set of (row, column, block) entries with increasing rows in each column and correct diagonal positions. The column-form scaled product equals the row-form product for every thread interleaving.",
 ["inputs", "configurations", "schedules"],
 "all square matrices (also with missing diagonal entries, whose position is recorded as -1), all instantiated block sizes, all interleavings of the column-parallel product",
 "Tests convert one fixed matrix; columns of very different length, empty off-diagonals and concurrent accumulation into one row are not covered.",
 ["src/scmatrix.cpp", "include/scmatrixdefs.hpp", "src/blas/matvecs.cpp", "src/adjacency.cpp"],
 [("conversion through column adjacency", "src/scmatrix.cpp"), ("per-column adjacency lists", "src/adjacency.cpp"), ("atomic accumulation", "src/blas/matvecs.cpp: bcsc_gemv3")])

prop("C07", "Reorderings and scalings do what they define and undo exactly",
 "Applying a row and/or column ordering and scaling to a matrix gives entry (i,j) = r(p(i)) * A(p(i),q(j)) * c(q(j)) with columns increasing in each row and correct positions of the stored diagonal entries, and to a vector the matching permutation and scaling; the inverse mode restores the original. The reordered incomplete factorisation preconditioner acts as the incomplete factorisation of the reordered matrix, expressed in the original numbering.",
 ["inputs", "configurations"],
 "all pairs of permutations (any cycle structure, either one absent), all positive scalings, all patterns, block sizes 1, 4, 7",
 "The tests use one fixed permutation of one matrix; permutations that are their own inverse hide direction mistakes, and the two directions and sides interact.",
 ["src/reorderingscaling.cpp", "include/reorderingscaling.hpp", "src/blockmatrices.ipp", "src/solverops_ilu0.cpp", "src/helper_algorithms.cpp"],
 [("matrix and vector permutation", "src/reorderingscaling.cpp"), ("reordered ILU", "src/solverops_ilu0.cpp: ReorderedAsyncILU0_SRPreconditioner"), ("sorting rows", "src/helper_algorithms.cpp: sortBlockInnerDimension")])

prop("C08", "Sequential incomplete LU is the exact ILU(0) and solves with it exactly",
 "Built sequentially (or on one thread) with at least one sweep, the incomplete LU preconditioner is exactly the ILU(0) of the (optionally symmetrically scaled) matrix: the product of its factors matches the matrix on the whole sparsity pattern. Applying it sequentially gives the exact forward-then-backward substitution with those factors, for every initialisation, number of sweeps, chunk size, block size and layout.",
 ["inputs", "configurations"],
 "all diagonally dominant and near-M matrices with arbitrary (also non-symmetric) patterns, every initialisation pair, sweep counts, chunk sizes, scaling on or off, scalar and block sizes 4, 5 in their layouts",
 "Tests compare one fixed matrix at one setting; fill paths, unsymmetric patterns, recomputation and the option cross product are not reached.",
 ["src/solverops_ilu0.cpp", "src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp", "src/ilu_pattern.cpp", "src/kernels/kernels_ilu0_factorize.hpp", "src/kernels/kernels_ilu_apply.hpp"],
 [("precomputed product positions", "src/ilu_pattern.cpp"), ("factor kernels", "src/kernels/kernels_ilu0_factorize.hpp"), ("triangular kernels", "src/kernels/kernels_ilu_apply.hpp")])

prop("C09", "Asynchronous ILU is exact after enough sweeps under any bounded-delay schedule",
 "Whatever order threads process rows in and however their memory accesses interleave, once enough sweeps have been made for the bounded delay between sweeps, the asynchronously built factors and the asynchronous triangular solves are exactly the sequential ones. Once the factors are exact, further sweeps by any number of threads leave them exact, and every computed component is a function of values other components actually held.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of up to 6 threads at single memory-access granularity whose sweep lag is bounded, all chunk sizes, all initialisations, scalar and block",
 "The tests run on one thread so that they are repeatable; which interleavings occur on real threads is outside a test's control.",
 ["src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp", "src/solverops_ilu0.cpp", "src/kernels/kernels_ilu0_factorize.hpp", "src/kernels/kernels_ilu_apply.hpp"],
 [("single-store component updates", "src/kernels/kernels_ilu0_factorize.hpp"), ("dynamic loops without barrier", "src/async_ilu_factor.cpp, src/solverops_ilu0.cpp")])

prop("C10", "Jacobi and Gauss-Seidel preconditioners are the operators they name",
 "On one thread, applying the Jacobi, symmetric Gauss-Seidel, forward Gauss-Seidel or column-wise backward Gauss-Seidel preconditioner to any vector gives D^-1 r, (D+U)^-1 D (D+L)^-1 r, the given number of forward sweeps from zero, and (D+U)^-1 r respectively, point-wise or block-wise. With any number of threads and bounded delay, enough sweeps of the symmetric Gauss-Seidel application give that same result, and Jacobi is independent of threading.",
 ["inputs", "configurations", "schedules"],
 "all matrices with invertible diagonal (blocks), all sweep counts, initialisations and chunk sizes, scalar and block sizes 4, 5; interleavings for the threaded part",
 "Tests check iteration counts or one fixed reference vector; the operator itself on arbitrary patterns, sweeps and layouts is not compared with anything.",
 ["src/solverops_jacobi.cpp", "src/solverops_sgs.cpp", "src/relaxation_chaotic.cpp", "src/kernels/kernels_sgs.hpp", "src/kernels/kernels_relaxation.hpp"],
 [("diagonal (block) inversion", "src/solverops_jacobi.cpp"), ("forward and backward kernels", "src/kernels/kernels_sgs.hpp"), ("column-wise solve", "src/solverops_sgs.cpp: CSC_BGS_Preconditioner")])

prop("C11", "Relaxations follow their defining sweeps and leave the solution fixed",
 "On one thread, k relaxation steps of Jacobi, Gauss-Seidel, symmetric Gauss-Seidel and level-scheduled symmetric Gauss-Seidel produce exactly the k-th iterate of the method started from the given vector, and an exact solution is a fixed point. When tolerance checking is on, Jacobi stops at the first step whose update meets the absolute, relative or divergence tolerance; when it is off, or for the other methods, exactly the maximum number of steps is made.",
 ["inputs", "configurations"],
 "all matrices with invertible diagonal (blocks), initial guesses, step counts including 0, tolerances, scalar and block",
 "Tests only check that some relaxations converge on one matrix; iterates, fixed points and stopping decisions are not observed.",
 ["src/solverops_jacobi.cpp", "src/relaxation_chaotic.cpp", "src/solverops_sgs.cpp", "src/solverops_levels_sgs.cpp", "src/kernels/kernels_relaxation.hpp", "include/solverops_base.hpp"],
 [("relaxation kernels", "src/kernels/kernels_relaxation.hpp"), ("stopping logic", "src/solverops_jacobi.cpp: apply_relax")])

prop("C12", "Asynchronous relaxation never loses ground on dominant matrices",
 "For a strictly diagonally dominant matrix, relaxation by Gauss-Seidel or symmetric Gauss-Seidel on any number of threads, under any interleaving whatsoever, ends with a maximum-norm error no larger than the dominance factor times the initial error, and leaves an exact solution exact. Every component is updated in each sweep, and under bounded delay enough sweeps reach the solution to rounding.",
 ["schedules", "inputs", "configurations"],
 "all interleavings (unbounded delay included), all strictly dominant matrices, thread counts, chunk sizes and sweep counts, scalar and block",
 "Chaotic relaxation is nondeterministic on real threads, so tests run it on one thread only; the guarantee is about every schedule.",
 ["src/relaxation_chaotic.cpp", "src/solverops_sgs.cpp", "src/kernels/kernels_relaxation.hpp"],
 [("one store per component update", "src/kernels/kernels_relaxation.hpp"), ("work-shared sweeps", "src/relaxation_chaotic.cpp, src/solverops_sgs.cpp")])

prop("C13", "Level scheduling is valid and makes level-based solves schedule-independent",
 "For every structurally symmetric matrix the computed levels are contiguous, ordered, cover every row once, and no two rows of a level are coupled. Level-scheduled symmetric Gauss-Seidel and level-scheduled incomplete LU application therefore equal the sequential methods for any number of threads and any interleaving.",
 ["inputs", "schedules"],
 "all structurally symmetric patterns with sorted columns, thread counts and interleavings; scalar and block",
 "The test checks the levels of one structured grid; a wrong level shows only for particular graphs and, in the solve, only for particular interleavings.",
 ["src/levelschedule.cpp", "include/levelschedule.hpp", "src/solverops_levels_sgs.cpp", "src/solverops_levels_ilu0.cpp"],
 [("dependency peeling", "src/levelschedule.cpp"), ("level-parallel sweeps", "src/solverops_levels_sgs.cpp, src/solverops_levels_ilu0.cpp")])

prop("C14", "A preconditioner is a pure function of the current matrix and input vector",
 "Whatever sequence of computes, applies and value changes came before, applying a recomputed preconditioner gives what a freshly created one gives: no dependence on earlier matrix values, earlier applications or the previous contents of the output vector or of uninitialised memory. Neither computing nor applying changes the matrix arrays or the input vector, and matrix values changed after a compute are picked up by the next compute.",
 ["histories", "inputs", "configurations"],
 "all histories of compute / apply / change-values on every preconditioner type, scalar and block, with arbitrary previous output contents",
 "Tests compute once and apply inside a solver; stale state appears only in histories with recomputation or with particular buffer contents.",
 ["src/solverops_ilu0.cpp", "src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp", "src/solverops_sgs.cpp", "src/solverops_jacobi.cpp", "src/relaxation_chaotic.cpp", "src/solverops_levels_ilu0.cpp", "src/solverops_levels_sgs.cpp"],
 [("re-initialisation on compute", "src/async_ilu_factor.cpp, src/async_blockilu_factor.cpp"), ("initialisation of work vectors on apply", "src/solverops_ilu0.cpp, src/solverops_sgs.cpp")],
 state=[("factor storage, diagonal inverses, scale, temporary vector", "kept between calls", "include/solverops_ilu0.hpp, include/solverops_jacobi.hpp")])

prop("C15", "The sequential and threaded variants of ILU mean what they say",
 "Requesting sequential factorisation and/or sequential application gives a result independent of the number of threads and of any interleaving, and the combinations agree with each other wherever both parts are exact. On one thread the threaded, sequential, sequentially-factored, sequentially-applied and level-scheduled incomplete LU variants all apply the same operator.",
 ["configurations", "schedules", "inputs"],
 "all thread counts and interleavings, every ILU variant created through the factory, chunk sizes, sweeps, scaling, scalar and block",
 "Tests run on one thread, where a variant that ignores its sequential flag looks the same as one that obeys it.",
 ["src/solverfactory.cpp", "src/solverops_ilu0.cpp", "src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp", "src/solverops_levels_ilu0.cpp"],
 [("threaded flags passed from the factory", "src/solverfactory.cpp"), ("conditional parallel regions", "src/async_ilu_factor.cpp, src/async_blockilu_factor.cpp, src/solverops_ilu0.cpp")])

prop("C16", "Reported preconditioner diagnostics are the true quantities",
 "When extra information is requested, every incomplete LU variant that supports it reports the 1-norm over the pattern of (scaled) matrix minus factor product before and after factorisation, and the minimum and average diagonal dominance of the lower and upper factors, equal to an independent computation. Requesting the information does not change the preconditioner, and the reported remainder is zero to rounding exactly when the factorisation is exact.",
 ["inputs", "configurations"],
 "all matrices, scaling on or off, initialisations and sweeps, scalar and block size 4 column-major for the standalone remainder, all variants through the factory",
 "No test looks at the reported values at all.",
 ["src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp", "src/matrix_properties.cpp", "include/preconditioner_diagnostics.hpp", "src/solverfactory.cpp", "src/solverops_levels_ilu0.cpp"],
 [("remainder norms", "src/async_ilu_factor.cpp: scalar_ilu0_nonlinear_res; src/async_blockilu_factor.cpp: block_ilu0_nonlinear_res"), ("diagonal dominance", "src/matrix_properties.cpp")])

prop("C17", "Layout, blocking, scaling and symmetry transformations commute with solving",
 "Storing the same blocks row- or column-major, or viewing a matrix of block-diagonal coupling as blocks or as scalars, gives the same preconditioner and relaxation action. Preconditioner application is linear, and symmetrically rescaling the matrix rescales every preconditioner accordingly, so that the option to factor the symmetrically scaled matrix leaves the exact incomplete LU operator unchanged.",
 ["inputs", "configurations"],
 "all matrices, vectors, positive power-of-two and general scalings, every preconditioner, scalar and block",
 "Such relations link pairs of runs with different inputs; each test looks at one run.",
 ["src/solverops_ilu0.cpp", "src/solverops_sgs.cpp", "src/solverops_jacobi.cpp", "src/async_blockilu_factor.cpp", "src/rawsrmatrixutils.cpp", "src/solverfactory.cpp"],
 [("layout-templated kernels", "src/kernels/"), ("symmetric scaling vector", "src/rawsrmatrixutils.cpp: getScalingVector")])

prop("C18", "Sparse approximate inverse patterns and values are optimal",
 "For every matrix with a stored diagonal, the gathering pattern of each row's small problem lists exactly the stored entries of the rows the row is coupled to, in the correct local position. The computed full approximate inverse minimises the row-wise least-squares residual over the matrix's own pattern, and the incomplete one reproduces the identity exactly on that pattern, for any thread interleaving.",
 ["inputs", "schedules"],
 "all patterns (also non-symmetric) with stored diagonal, triangular views, block sizes 1 and 4",
 "The tests compare the pattern of one or two fixed grids; irregular patterns and the numerical result are not covered.",
 ["src/sai.cpp", "src/sai.hpp"],
 [("pattern computation", "src/sai.cpp: left_SAI_pattern, left_incomplete_SAI_pattern"), ("row least-squares problems", "src/sai.cpp: compute_SAI")])

prop("C19", "Triangular views and column adjacency describe the same entries",
 "The lower and upper triangular views of a matrix contain exactly its entries on and below, respectively on and above, the diagonal, share its values, and report the matching counts; releasing a view leaves the matrix intact. The column adjacency of a matrix lists, for each column, exactly the rows that store an entry in it with their positions.",
 ["inputs"],
 "all square patterns with a stored diagonal and sorted columns, raw and managed storage forms",
 "One fixed matrix is tested for the adjacency; the views are exercised only through a fixed grid's approximate inverse.",
 ["src/rawsrmatrixutils.cpp", "src/adjacency.cpp", "include/srmatrixdefs.hpp"],
 [("triangular views", "src/rawsrmatrixutils.cpp"), ("column adjacency", "src/adjacency.cpp")])

prop("C20", "Parallel and serial building blocks satisfy their specifications",
 "The parallel prefix sum gives the serial prefix sums for every array length and number of threads under any interleaving; the serial scans, block sorting by index, index search and the maximum norm agree with their textbook definition. None of them touches memory outside its arrays.",
 ["inputs", "schedules", "configurations"],
 "all lengths (0 upwards, smaller and larger than the thread count), thread counts 1-17, all index orders, all block sizes",
 "The tests run one array length with one and four threads; other thread counts and short arrays are where chunking goes wrong.",
 ["src/utils/prefix_sum.cpp", "src/helper_algorithms.cpp", "src/helper_algorithms.hpp", "src/blas/blas1.cpp"],
 [("tree prefix sum", "src/utils/prefix_sum.cpp"), ("scans, sort and search", "src/helper_algorithms.cpp, src/helper_algorithms.hpp"), ("vector kernels", "src/blas/blas1.cpp")])

prop("C21", "The solver factory is total: it builds what was named or says no",
 "Every documented solver name, and no other string, is accepted and yields a solver that reports the correct dimension and whether relaxation is available; every combination of type, block size and block layout either yields a working solver of exactly that type or raises an invalid-argument error. Relaxation by a solver that does not offer it raises an error (the identity, as documented, does nothing) instead of returning a wrong result, and initialisation names are translated exactly.",
 ["configurations", "inputs"],
 "all strings near and far from the documented names, all solver types, block sizes from -1 to 9, both layouts and all option values",
 "Tests only create the configurations they use; unsupported ones and misnamed ones are not tried.",
 ["src/solverfactory.cpp", "include/solverfactory.hpp", "include/async_initialization_decl.hpp", "src/solverops_base.cpp"],
 [("name table", "src/solverfactory.cpp: solverTypeFromString"), ("creation by type and block size", "src/solverfactory.cpp: create_preconditioner"), ("initialisation names", "include/async_initialization_decl.hpp")])

prop("C22", "PETSc option and file utilities read back what was written",
 "Reading an integer, real, boolean, string or integer-array option returns exactly the value stored in the options database under that name, and a missing mandatory option raises an error while a missing optional one yields its documented default. Reading Matrix Market files into a PETSc matrix (by either route and for every matrix type and block size) or vector yields exactly the entries of the file, and the conversion tool writes PETSc binary files that load back to the same matrix and vectors, whatever the length of the file names.",
 ["inputs", "configurations"],
 "all option names, values, array lengths up to the maximum, missing options; all small matrices (also with empty rows) and vectors in files, all matrix types and block sizes, short and long file names",
 "No test of the option readers exists in the set that runs here.",
 ["src/utils/cmdoptions.cpp", "src/utils/blasted_petsc_io.cpp", "src/utils/cmdoptions.hpp"],
 [("option readers", "src/utils/cmdoptions.cpp"), ("matrix and vector loading", "src/utils/blasted_petsc_io.cpp"), ("conversion tool", "src/utils/util_petsc_io.c: main")])

prop("C23", "The PETSc shell interface configures and runs the solver the options describe",
 "For every combination of command-line options, setting up a shell preconditioner creates the requested solver with the requested sweeps, initialisations, chunk size, scaling and sequential or threaded behaviour on the process-local diagonal block (its pattern, values, block size and diagonal positions), and invalid or incomplete options end in an error, not in some other solver. This holds for shells anywhere the stack set-up reaches (the solver itself, block Jacobi, Schwarz, inner solvers, multigrid levels). Every application or relaxation then gives what that solver gives, changed matrix values (given by KSPSetOperators) lead to exactly one recomputation, timers and diagnostics accumulate per instance, relaxation is offered exactly for the solvers that can relax, and repeated set-up and destruction of instances never mixes, leaks or reuses freed contexts. (What happens when the asynchronous sweeps are not given at all is not part of this: the documentation and the code differ.)",
 ["histories", "configurations", "inputs"],
 "all option combinations and all short histories of new context / setup / apply / relax / recompute / destroy over one or several instances",
 "The interface includes private PETSc headers that are absent here, so neither it nor its tests are even built; its life-cycle is a matter of histories and option combinations.",
 ["src/blasted_petsc.cpp", "include/blasted_petsc.h", "include/blasted_petsc_ext.hpp"],
 [("option parsing and factory call", "src/blasted_petsc.cpp: createNewPreconditioner, setupDataFromOptions"), ("context list life-cycle", "src/blasted_petsc.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    print(len(P), "valid")
except ImportError:
    print(len(P), "written")
