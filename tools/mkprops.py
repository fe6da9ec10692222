# writes properties.jsonl (kept as the single editable source of the property texts)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("P01","Matrix-vector products equal the mathematical product",
 "For every stored square sparse matrix (scalar rows, block rows with row- or column-major blocks, block columns; owned or viewed), the product y = A x and the combined operation z = a A x + b y equal the dense mathematical result up to rounding. This holds for any number of threads, for empty off-diagonal rows and for z being the same array as y, and x and the matrix are left unchanged.",
 ["inputs","configurations","schedules"],"every sparsity pattern, every supported block size and block layout, all coefficients a and b, every thread count and work distribution",
 "tests multiply one or two fixed small matrices; layouts, coefficients 0/negative, aliasing, other block sizes and thread splits are not sampled",
 ["src/blas/matvecs.cpp","src/blas/matvecs.hpp","src/blockmatrices.ipp","include/blockmatrices.hpp"],
 [("row-parallel products","src/blas/matvecs.cpp"),("column-parallel product with atomic accumulation","src/blas/matvecs.cpp bcsc_gemv3")],["apply","gemv3"])
p("P02","Block assembly leaves exactly the submitted contributions in the matrix",
 "After any sequence of setting the structure, inserting blocks, adding to blocks, adding to diagonal blocks, zeroing all, zeroing the diagonal and scaling, every stored entry equals the value obtained by applying the same sequence to a dense model, and no other entry changes. This includes non-square rectangular updates of a scalar matrix, and rebuilding the structure after use.",
 ["histories","inputs"],"every sequence of assembly calls on every structure, block sizes 1, 3 and 7",
 "tests assemble one matrix from one file in one order, with square blocks only",
 ["src/blockmatrices.ipp","include/blockmatrices.hpp"],
 [("submit/update/updateDiag/scale","src/blockmatrices.ipp")],["submitBlock","updateBlock","updateDiagBlock","scaleAll","setDiagZero","setAllZero","setStructure"])
p("P03","Concurrent block updates lose nothing",
 "When several threads add block contributions to one matrix at the same time, including to the same block and through both the general and the diagonal update operation, the final matrix holds the sum of all contributions, as if they had been applied one after the other.",
 ["schedules","histories"],"every interleaving of concurrent additive updates by any number of threads",
 "no test updates a matrix from more than one thread",
 ["src/blockmatrices.ipp"],[("atomic per-entry addition","src/blockmatrices.ipp updateBlock, updateDiagBlock")],["updateBlock","updateDiagBlock"])
p("P04","Copies are independent, wrappers alias, every array is freed once",
 "A copied matrix is equal to its source and independent of it; a matrix or view wrapped around user arrays uses exactly those arrays and never frees them; a matrix built from a structure, from moved storage or from a transferred raw matrix has the right size and content and owns its arrays. Equality comparison of matrices of equal size and non-zero count reports a difference exactly in the categories in which they differ, a different size or count is itself reported (and then alone), and triangular views expose exactly the lower or upper part including the diagonal.",
 ["histories","inputs"],"every chain of construct, copy, move, wrap, share, convert, compare and destroy operations on matrices of every supported block size",
 "tests construct one matrix per construction path and do not check lifetimes, aliasing, or inequality",
 ["include/arrayview.hpp","include/srmatrixdefs.hpp","src/rawsrmatrixutils.cpp","src/blockmatrices.ipp","include/blockmatrices.hpp"],
 [("owning/wrapping array type","include/arrayview.hpp"),("storage moves and sharing","src/rawsrmatrixutils.cpp"),("matrix constructors","src/blockmatrices.ipp")],["constructors","isEqual","getLowerTriangularView","getUpperTriangularView"])
p("P05","Matrix Market files are read faithfully or refused",
 "Reading a coordinate real general Matrix Market file yields exactly the entries in the file (0-based, sorted by row then column), its dimensions and its row extents, whatever the order of entries, comments, blank padding and number format; a dense vector file yields its values in order. A file that cannot be opened or whose header or format is unsupported is refused with an error instead of being read as something else.",
 ["inputs"],"every well-formed file and every unsupported header",
 "tests read a handful of fixed well-formed files",
 ["src/coomatrix.cpp","include/coomatrix.hpp"],[("header parsing, entry reading and sorting","src/coomatrix.cpp")],["readMatrixMarket","readDenseMatrixMarket"])
p("P06","Conversion from coordinate to sparse-row form preserves the matrix",
 "Converting a coordinate matrix to scalar rows or to dense-block rows (any supported block size, row- or column-major blocks) gives a matrix with the same entries: each entry appears at its place, positions inside a stored block without an entry are zero, and no further blocks are stored. Column indices are strictly increasing within each row, and the recorded diagonal positions, row extents and counts are consistent.",
 ["inputs","configurations"],"every coordinate matrix whose rows are nonempty and whose diagonal (blocks) are present, every supported block size and layout",
 "tests convert two small fixed matrices; patterns in which later scalar rows of a block add earlier block columns are not sampled",
 ["src/coomatrix.cpp","include/coomatrix.hpp"],[("convertToCSR/convertToBSR","src/coomatrix.cpp")],["getSRMatrixFromCOO","constructBSRMatrixFromMatrixMarketFile"])
p("P07","Row-to-column conversion and column adjacency describe the same matrix",
 "The block-column form of a sparse-row matrix (0- or 1-based) contains every block exactly once, at its column, with rows increasing, unchanged block content and correct diagonal positions, and the column adjacency lists name for each column exactly the rows and storage places of its blocks. The source matrix is unchanged and all storage can be released through the library.",
 ["inputs","configurations"],"every sparsity pattern and supported block size",
 "tests convert one matrix",
 ["src/scmatrix.cpp","src/adjacency.cpp","include/scmatrixdefs.hpp","src/adjacency.hpp"],[("conversion","src/scmatrix.cpp"),("adjacency","src/adjacency.cpp")],["convert_BSR_to_BSC","ColumnAdjacency"])
p("P08","Sequential incomplete LU reproduces the matrix on its pattern",
 "With a single thread or when sequential factorization is requested, one build sweep gives the exact zero-fill incomplete LU factorization, scalar or block: unit-lower times upper equals the (symmetrically scaled, if requested) matrix at every position of its sparsity pattern, independent of the initial guess and the chunk size. Applying the preconditioner then inverts exactly those factors.",
 ["inputs","configurations"],"every matrix with nonsingular pivots, every block size, layout, scaling choice, initial guess and chunk size",
 "tests only require a Krylov solver to converge on two matrices, which an inexact factorization also allows",
 ["src/async_ilu_factor.cpp","src/async_blockilu_factor.cpp","src/ilu_pattern.cpp","src/kernels/kernels_ilu0_factorize.hpp","src/solverops_ilu0.cpp","src/rawsrmatrixutils.cpp"],
 [("factor sweep kernel","src/kernels/kernels_ilu0_factorize.hpp"),("position lists","src/ilu_pattern.cpp"),("symmetric scaling","src/rawsrmatrixutils.cpp getScalingVector")],["compute","apply"])
p("P09","Asynchronous incomplete LU reaches the same factors under every schedule",
 "When the threaded factorization is given enough sweeps and no thread lags by more than a bounded number of sweeps, its factors equal the sequential incomplete LU factors up to rounding, for every interleaving of the threads, thread count, chunk size, initial guess, scaling choice and block layout. In particular no thread can ever observe and keep an intermediate value that is not an iterate.",
 ["schedules","configurations","inputs"],"every interleaving of memory accesses with bounded delay",
 "the built tests run with one thread; the threaded convergence tests are not built and sample few schedules",
 ["src/async_ilu_factor.cpp","src/async_blockilu_factor.cpp","src/kernels/kernels_ilu0_factorize.hpp"],
 [("asynchronous fixed-point sweeps, single final store per entry","src/kernels/kernels_ilu0_factorize.hpp")],["compute"])
p("P10","Applying an incomplete LU preconditioner solves with its factors",
 "Applying the incomplete LU preconditioner to r gives S (LU)^-1 S r, where S is the symmetric scaling or the identity: exactly when applied sequentially or level-scheduled, and up to rounding when applied by asynchronous sweeps given enough sweeps, for every interleaving, both initial guesses, and each combination of threaded and sequential factorization and application.",
 ["schedules","inputs","configurations"],"every matrix, right-hand side, layout and bounded-delay interleaving",
 "tests use one thread and judge only the convergence of an outer solver",
 ["src/solverops_ilu0.cpp","src/solverops_levels_ilu0.cpp","src/kernels/kernels_ilu_apply.hpp"],
 [("triangular sweeps","src/solverops_ilu0.cpp"),("kernels","src/kernels/kernels_ilu_apply.hpp")],["apply"])
p("P11","Jacobi preconditioning applies the inverse of the (block) diagonal",
 "The Jacobi preconditioner computed from a matrix maps r to D^-1 r, where D is the diagonal or block diagonal of that matrix, for every supported block size and layout and any thread count.",
 ["inputs","configurations"],"every matrix with nonsingular diagonal (blocks)",
 "tests run one Krylov solve per configuration with convergence as the criterion",
 ["src/solverops_jacobi.cpp","include/solverops_jacobi.hpp"],[("diagonal inversion and product","src/solverops_jacobi.cpp")],["compute","apply"])
p("P12","Gauss-Seidel preconditioners apply the exact splitting operator",
 "With one thread the symmetric Gauss-Seidel preconditioner applies ((D+L) D^-1 (D+U))^-1 to its input and the column-oriented backward Gauss-Seidel applies (D+U)^-1, for every initial guess and number of sweeps; with several threads and enough sweeps the asynchronous symmetric variant gives the same result under every bounded-delay interleaving.",
 ["schedules","inputs","configurations"],"every matrix with nonsingular diagonal, layout, initial guess, chunk size and interleaving",
 "tests run with one thread and judge only convergence of an outer solver",
 ["src/solverops_sgs.cpp","src/kernels/kernels_sgs.hpp"],[("forward/backward sweeps","src/kernels/kernels_sgs.hpp"),("column-oriented solve","src/solverops_sgs.cpp CSC_BGS")],["apply"])
p("P13","Relaxations perform the stated iteration and have A x = b as fixed point",
 "A relaxation call performs exactly the configured number of steps of its method (Jacobi, Gauss-Seidel, symmetric Gauss-Seidel, level-scheduled symmetric Gauss-Seidel) starting from the given vector; an exact solution of A x = b stays unchanged up to rounding, and for strictly diagonally dominant matrices the error in the maximum norm never grows and falls at least geometrically with the sweeps under every bounded-delay interleaving. Methods without a relaxation (incomplete LU, column-oriented Gauss-Seidel) say so and refuse with an error.",
 ["schedules","inputs","configurations","histories"],"every matrix, start vector, step count, thread count and interleaving",
 "no built test performs relaxation",
 ["src/relaxation_chaotic.cpp","src/solverops_jacobi.cpp","src/solverops_sgs.cpp","src/solverops_levels_sgs.cpp","src/kernels/kernels_relaxation.hpp","src/solverops_base.cpp"],
 [("relaxation kernel","src/kernels/kernels_relaxation.hpp")],["apply_relax","apply (Gauss-Seidel)","relaxationAvailable"])
p("P14","Level scheduling is a valid order and gives the sequential result",
 "For a matrix with symmetric pattern the levels are consecutive, ordered ranges that cover all unknowns, and no two unknowns of one level are coupled. Level-scheduled symmetric Gauss-Seidel and incomplete LU application therefore give the sequential result for every thread count and every order of execution within a level, run after run.",
 ["schedules","inputs","configurations"],"every symmetric pattern, thread count and interleaving",
 "one test checks independence for two fixed matrices; level-scheduled operators are never executed by the tests",
 ["src/levelschedule.cpp","src/solverops_levels_sgs.cpp","src/solverops_levels_ilu0.cpp"],[("level construction","src/levelschedule.cpp"),("level loops","src/solverops_levels_*.cpp")],["computeLevels","apply"])
p("P15","Reordering and scaling transform matrices and vectors consistently",
 "Applying an ordering and block scaling to a matrix gives as block (i,j) the block (rowperm(i), colperm(j)) of the original times its row's and its column's scaling factors, with columns sorted in each row, and the inverse restores the original; vectors follow the same convention (forward: entry i is the old entry perm(i)), so that products with the transformed matrix and transformed vectors agree with the original. The diagonal positions of a matrix reordered through its own interface refer to its diagonal blocks.",
 ["inputs","configurations","histories"],"every permutation pair, scaling, block size and pattern",
 "tests check only that forward followed by inverse is the identity, for one nearly symmetric permutation; scaling is never applied",
 ["src/reorderingscaling.cpp","include/reorderingscaling.hpp","src/blockmatrices.ipp","src/helper_algorithms.cpp"],[("permutation of rows/columns with sort","src/reorderingscaling.cpp")],["applyOrdering","applyScaling","reorderScale"])
p("P16","A reordered incomplete LU preconditions the original system",
 "The incomplete LU preconditioner with an external ordering maps r to Q z, where z solves with the symmetrically scaled incomplete LU factors of the reordered matrix for the reordered right-hand side, and Q undoes the column ordering, for every permutation for which the reordered diagonal is nonzero. The threading choices given at construction are honoured.",
 ["inputs","configurations","schedules"],"every row/column permutation pair including those that are not their own inverse",
 "the only test uses one swap of two unknowns, which is its own inverse, and judges outer convergence",
 ["src/solverops_ilu0.cpp","include/solverops_ilu0.hpp","src/reorderingscaling.cpp"],[("reorder, factorize, apply, undo","src/solverops_ilu0.cpp ReorderedAsyncILU0")],["compute","apply"])
p("P17","Sparse approximate inverse rows solve their least-squares problems",
 "For every matrix, the gathered pattern of each row's local problem lists exactly the matrix blocks it needs; the full sparse approximate inverse has the given pattern and each block row minimises the Frobenius norm of its row of M A - I, and the incomplete variant makes M A equal I at every position of the pattern.",
 ["inputs","configurations"],"every matrix with nonsingular local problems, scalar and block size 4",
 "the built test checks the pattern of one 13-cell mesh; the numerical computation is never run",
 ["src/sai.cpp","src/sai.hpp"],[("pattern construction, gather, solve, scatter","src/sai.cpp")],["left_SAI_pattern","left_incomplete_SAI_pattern","compute_SAI"])
p("P18","The factory builds the named method with the given settings or refuses",
 "Each documented method name maps to its method and each valid settings combination yields an operator of the right dimension that behaves exactly like that method with those sweeps, scaling, initial guesses, block size and layout; unknown names, initial guess names, unsupported block sizes or methods not available for a block size are refused with an invalid-argument error and without leaking.",
 ["configurations","inputs"],"every combination of method, block size, layout, scaling, initial guess and threading settings",
 "tests build some five combinations with fixed settings",
 ["src/solverfactory.cpp","include/solverfactory.hpp","include/async_initialization_decl.hpp"],[("string and settings dispatch","src/solverfactory.cpp")],["solverTypeFromString","create_preconditioner"])
p("P19","A preconditioner depends only on current matrix values, not on history",
 "Recomputing a preconditioner after the values of its matrix changed gives the same operator as a fresh one built from the new values, any number of times. Applying is repeatable: the output does not depend on earlier applications, on the previous content of the output array, or on other preconditioner objects in use, even at the same time in other threads of the program.",
 ["histories","configurations"],"every sequence of value changes, computes and applies over every non-relaxation method with exact (single-thread or level-scheduled or fully converged) application",
 "tests compute each preconditioner once",
 ["src/solverops_ilu0.cpp","src/solverops_sgs.cpp","src/solverops_jacobi.cpp","src/solverops_levels_sgs.cpp","src/solverops_levels_ilu0.cpp"],[("first-time setup versus recomputation","compute() of each operator")],["compute","apply"])
p("P20","Inputs are never modified",
 "Products, preconditioner computation and application, relaxation, conversion and diagnostics never write to the matrix they read or to the right-hand side, not even temporarily, under any schedule, and write nothing to the output vector outside its length.",
 ["schedules","inputs","configurations"],"every operation and interleaving",
 "tests do not look at inputs after use",
 ["src/solverops_ilu0.cpp","src/solverops_sgs.cpp","src/relaxation_chaotic.cpp","src/blas/matvecs.cpp","src/scmatrix.cpp"],[("const views of the matrix","include/solverops_base.hpp")],["all operators"],"access instrumentation at build time")
p("P21","Operations that are not asynchronous by design are free of data races",
 "No two threads of a product, Jacobi, level-scheduled, scaling, reordering, initialisation, conversion, diagnostic or prefix-sum operation access the same location without synchronisation when one of them writes; asynchronous sweeps may conflict only on their iterates, never on the matrix, indices, position lists or right-hand side.",
 ["schedules","configurations"],"every schedule, thread count and chunk size",
 "race freedom cannot be observed by comparing results, and most tests use one thread",
 ["src/blas/matvecs.cpp","src/solverops_jacobi.cpp","src/solverops_levels_sgs.cpp","src/solverops_levels_ilu0.cpp","src/reorderingscaling.cpp","src/matrix_properties.cpp","src/utils/prefix_sum.cpp","src/blas/blas1.cpp"],[("OpenMP worksharing with disjoint writes, atomics and reductions","parallel regions")],["all parallel operations"],"access instrumentation at build time")
p("P22","Memory safety and absence of undefined behaviour across lifetimes",
 "Any valid sequence of reading, converting, building, recomputing, applying and destroying objects performs no out-of-bounds, use-after-free, double-free, misaligned or uninitialised access or other undefined behaviour, and releases all memory it acquired, including when a constructor or call refuses its arguments.",
 ["inputs","histories","configurations"],"every valid call sequence, matrix shape (including size one and diagonal matrices) and configuration",
 "tests run without sanitizers on a few large well-behaved matrices",
 ["include/arrayview.hpp","src/rawsrmatrixutils.cpp","src/solverops_ilu0.cpp","src/scmatrix.cpp","src/coomatrix.cpp","src/solverops_sgs.cpp"],[("owning arrays and destructors","include/arrayview.hpp")],["whole API"])
p("P23","Diagnostics report the true quantities and do not alter the result",
 "When requested, the reported initial and final remainder norms equal the sum of absolute values of A - L U over the pattern for the initial and computed factors, and the reported minimum and average diagonal dominance equal those of the computed factors; requesting them does not change the preconditioner. Diagonal statistics of a scalar matrix (zero-diagonal count and row, product, absolute sum, extremes) equal their definitions for any thread count.",
 ["inputs","configurations","schedules"],"every matrix, layout, scaling, sweep count and thread count",
 "no built test requests diagnostics",
 ["src/matrix_properties.cpp","src/async_ilu_factor.cpp","src/async_blockilu_factor.cpp","include/preconditioner_diagnostics.hpp","src/blockmatrices.ipp"],[("remainder and dominance reductions","src/async_ilu_factor.cpp, src/matrix_properties.cpp")],["compute","getDiagonalProduct"])
p("P24","Parallel and sequential helper algorithms are exact for every size",
 "Exclusive and inclusive prefix sums, inner search, sorting of a row's blocks by column, and the maximum norm give the exact mathematical result for every length (including lengths smaller than the thread count) and every thread count.",
 ["inputs","configurations","schedules"],"every input array, length and thread count",
 "tests use one array of length 202 with 1 and 4 threads and tiny sorting inputs",
 ["src/utils/prefix_sum.cpp","src/helper_algorithms.cpp","src/helper_algorithms.hpp","src/blas/blas1.cpp"],[("chunked tree sum","src/utils/prefix_sum.cpp"),("sort and scans","src/helper_algorithms.cpp")],["prefix_sum","inclusive_scan","sortBlockInnerDimension","maxnorm"])
p("P25","The PETSc interface builds and applies the operator that the options describe",
 "For every tree of solvers, the set-up gives each reachable shell preconditioner, and no other, its own context using the given factory (the default one otherwise). The operator then built from the run-time options equals the one built directly on the local matrix with the documented method, sweeps, scaling, chunk size, initial guesses and diagnostics; a sweep count of -1 selects the sequential part of an ILU method. Scalar methods are used for AIJ and column-major block methods for BAIJ storage. Applying and relaxing give the result of that operator, relaxation is offered only by methods that have it, and rebuilding follows the current matrix values, adding one diagnostic record each. Missing or unknown options, missing diagonal entries, unsupported block sizes and unsupported trees are refused. Borrowed arrays are returned, inputs are unchanged, time totals are the sums over the contexts, and destruction releases everything exactly once.",
 ["configurations","histories"],"every option set, nesting of solver levels and sequence of setup, update, apply, relax and destroy",
 "the interface is not built by the existing test suite in this environment",
 ["src/blasted_petsc.cpp","include/blasted_petsc.h","include/blasted_petsc_ext.hpp"],[("option parsing and sequential-symbol handling","src/blasted_petsc.cpp"),("one context per shell preconditioner","Blasted_data_list")],["setup_blasted_stack","setup_blasted_stack_ext","compute_preconditioner_blasted","apply_local_blasted","relax_local_blasted"])
p("P26","Asynchronous sweeps are sweeps of the stated chaotic iteration",
 "Whatever the order in which threads execute their portions of the work, an asynchronous method with s sweeps (incomplete LU factorization, its triangular application, symmetric Gauss-Seidel application, chaotic and symmetric Gauss-Seidel relaxation) updates every unknown or factor entry exactly s times per pass, each update being the method's formula on the values current at that moment, starting from the initial guess named in the settings, anew at each computation or application (a relaxation starts from the given vector). With zero sweeps the result is that initial guess.",
 ["schedules","configurations","inputs"],"every order of execution of the portions of work, sweep count, initial guess, scaling, layout and chunk size, including those far from convergence",
 "tests only look at converged results or at the convergence of an outer solver, which hides missing, superfluous or wrong sweeps and initial guesses",
 ["src/async_ilu_factor.cpp","src/async_blockilu_factor.cpp","src/solverops_ilu0.cpp","src/solverops_sgs.cpp","src/relaxation_chaotic.cpp","src/kernels/kernels_ilu0_factorize.hpp","src/kernels/kernels_ilu_apply.hpp","src/kernels/kernels_sgs.hpp"],[("sweep loops and initial guesses","src/async_ilu_factor.cpp, src/async_blockilu_factor.cpp, src/solverops_ilu0.cpp, src/solverops_sgs.cpp, src/relaxation_chaotic.cpp")],["compute","apply","apply_relax"])
p("P27","Failures surface at the PETSc interface and leave it usable",
 "If any call of PETSc fails during the set-up of a solver tree, or during the computation, application or relaxation of a preconditioner, the call of the interface in which it happened does not report success: it returns a nonzero code, throws, or deliberately ends the process. The same holds for configurations that are not supported (missing or unknown options, missing diagonal entries, unsupported block sizes), each time they are tried. Once the cause is gone, a computation, application or relaxation that failed can be repeated, and it and everything after it give exactly the results, and the number of diagnostic records, of a history without the failure. Destruction afterwards releases all memory.",
 ["fault_sequences","histories"],"every position of a failing PETSc call in every history of set-up, computation, application and relaxation, every option set and solver tree",
 "the interface is not built by the existing test suite in this environment, and no test makes a call of PETSc fail",
 ["src/blasted_petsc.cpp"],[("error codes and first set-up","src/blasted_petsc.cpp")],["setup_blasted_stack","compute_preconditioner_blasted","apply_local_blasted","relax_local_blasted","cleanup_blasted"])
p("P28","Files and command-line options reach PETSc exactly as given",
 "A PETSc matrix made from a Matrix Market file, by either reading routine, is assembled and has the dimensions, the entries and, where it is supported, the block size of the file and the options; unsupported block sizes give the same matrix without blocks. A vector made from a file has exactly its values, and the layout of the rows of the given matrix if there is one. No other object or memory is left behind, and a PETSc call that fails is reported. Required options yield exactly the value given (strings up to the stated length, arrays with the entries given and no more) or the exception for missing input, which names the option; optional ones yield the default, an optional array an empty vector. A PETSc error while reading an option is thrown with the text PETSc has for it; codes outside its range are refused.",
 ["inputs","configurations","fault_sequences"],"every file, matrix shape, block size and option set, and every position of a failing PETSc call",
 "these files are not built by the existing test suite in this environment",
 ["src/utils/blasted_petsc_io.cpp","src/utils/cmdoptions.cpp","include/utils/cmdoptions.hpp","include/utils/blasted_petsc_io.h"],[("matrix and vector creation","src/utils/blasted_petsc_io.cpp"),("option reading","src/utils/cmdoptions.cpp")],["readMatFromCOOFile","readMatFromCOOFile_viaSR","readVecFromFile","parsePetscCmd_int","parsePetscCmd_intArray"])
p("P29","The conversion program writes exactly what its input files contain",
 "Given a matrix file, a file with a right-hand side and optionally one with an exact solution, under names of any length and content the system allows, the program that converts to PETSc's binary format writes exactly one file per input, named after it with the extension .pmat, opened as a binary file for writing, completed and closed, holding the matrix or vector of that input and nothing else. It changes no input, initialises and finalises PETSc once, destroys its objects and releases its memory, and then exits with status 0. If reading an input, opening, writing or closing an output or starting PETSc fails, or an input is missing, malformed or of the wrong size, it does not exit with status 0, and writes nothing for the unusable input.",
 ["inputs","configurations","fault_sequences"],"every set of input files, names, options, and every position of a failing PETSc call",
 "the program is not built by the existing test suite in this environment, and no test runs it",
 ["src/utils/util_petsc_io.c","src/utils/blasted_petsc_io.cpp"],[("the program","src/utils/util_petsc_io.c")],["main","readMatFromCOOFile_viaSR","readVecFromFile"])
p("P30","Callers that run at the same time do not disturb one another",
 "Several threads of a program that each use objects of their own (operators, matrices, products, conversions, approximate inverses, reorderings, level schedules, Matrix Market files), on their own matrices or reading a matrix they share, each get bit for bit what they get alone; nothing they do races, and no call fails because other calls are in progress.",
 ["schedules","histories","inputs"],"every set of call sequences of concurrent callers and every interleaving of them",
 "state shared behind the interfaces shows only when calls overlap in time, which no test arranges",
 ["src/solverfactory.cpp","src/coomatrix.cpp","src/sai.cpp","src/levelschedule.cpp","src/adjacency.cpp","src/scmatrix.cpp","src/reorderingscaling.cpp","src/blas/matvecs.cpp","src/kernels"],[("no state outside of the objects","all translation units")],["SRFactory::create_preconditioner","SRPreconditioner","SRMatrixView","COOMatrix","compute_SAI","computeLevels"],"callers run from host threads as fibers or real threads of the harness")
p("P31","Process-wide state is left as the library found it",
 "Whatever the caller has set before, no sequence of building, computing, applying, assembling, converting, reading and refused calls leaves changed: the rounding mode and floating-point control words, the locale, the formatting state of the standard streams, the OpenMP settings, the random number sequence, the open files, signal handling, the working directory, the environment, resource limits and the files present.",
 ["histories","configurations"],"every call sequence and every prior setting of that state",
 "a test of numerical results does not look at the rest of the process",
 ["src/solverfactory.cpp","src/coomatrix.cpp","src/async_ilu_factor.cpp","src/relaxation_chaotic.cpp","src/sai.cpp","src/blockmatrices.ipp","src/matrix_properties.cpp"],[("libraries do not own the process","all translation units")],["every public call"],"compared by a snapshot before and after")
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
    for d in P: assert len(d["title"])<=80,(d["id"],len(d["title"]))
print(len(P))
