"""Source of properties.jsonl and MANIFEST.json (run `python3 spec/gen.py`).

Each entry: id, title, statement, over, qtext, why, files, mech, built (bool), technique, level, note / reason.
"""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), built=False, technique=None,
         level="proof", note=None, reason="check under construction"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=list(observe), built=built, technique=technique, level=level, note=note, reason=reason))


prop("T01", "Time-stepping coefficients meet their order for every timestep history",
     "For every multistep scheme and every sequence of positive timesteps (constant, growing or shrinking, and during the "
     "start-up steps when little history exists), the computed coefficients satisfy the consistency conditions of the "
     "scheme's documented order, use no state from before the start of the run, and keep the explicit part free of the new "
     "state.  Every Runge-Kutta table satisfies the coupled implicit-explicit order conditions of its documented order and "
     "its stage times equal the row sums.",
     ["inputs", "histories"],
     "all positive real timestep histories, all start-up depths, all registered schemes",
     "Tests run a handful of constant or fixed-pattern timesteps and compare one solution with a loose tolerance; an error in a "
     "variable-step coefficient at one history depth survives them.",
     ["dedalus/core/timesteppers.py"],
     [("multistep coefficient formulas", "dedalus/core/timesteppers.py: compute_coefficients of each scheme"),
      ("Runge-Kutta tableaux", "dedalus/core/timesteppers.py: RungeKuttaIMEX subclasses")],
     built=True,
     technique="contract-based deductive verification: real coefficient functions executed on symbolic timesteps, order "
               "conditions discharged by exact rational-function normal form (sympy) and z3",
     note="All timesteps, all history depths: proved over the reals on the real functions. Floating-point rounding is "
          "treated as exact arithmetic; a float re-evaluation on sampled histories is the bounded companion.")

prop("T02", "Each time step solves exactly the scheme's discrete equation",
     "For every scheme, timestep history and number of subproblems, one step of the time integrator makes the state satisfy "
     "the scheme's documented discrete equation: mass and stiffness terms weighted by the current coefficients, each "
     "right-hand side evaluated at the state and time of its own step or stage, and implicit operators rebuilt whenever "
     "the coefficients they depend on change.  Simulation time advances by exactly the timestep and the iteration counter by one.",
     ["inputs", "histories"],
     "all timestep sequences (including repeats and alternations), all registered schemes, any number and size of subproblems",
     "Tests compare end-of-run solutions with loose tolerances for one constant timestep; stale matrices or a stage "
     "evaluated at the wrong time for a particular pattern of timesteps stay below the tolerance.",
     ["dedalus/core/timesteppers.py", "dedalus/core/solvers.py", "dedalus/core/system.py"],
     [("multistep step", "dedalus/core/timesteppers.py: MultistepIMEX.step"),
      ("Runge-Kutta step", "dedalus/core/timesteppers.py: RungeKuttaIMEX.step"),
      ("solver step and enforcement of Hermitian symmetry", "dedalus/core/solvers.py: InitialValueSolver.step"),
      ("state buffer", "dedalus/core/system.py: CoeffSystem")],
     built=True,
     technique="contract-based deductive verification: real step methods executed on symbolic states, matrices and timesteps "
               "(exact polynomial arithmetic), matrix cache invariant by induction over the timestep history (z3)",
     note="All schemes, all data, all timestep histories (invariant of the matrix cache); solver.step and load_state by contract of their callees. "
          "Floating-point rounding excluded; real runs against a dense reference are the bounded companion.")

prop("D01", "Distributed blocks tile every global array exactly once",
     "For every transform layout, process mesh (including meshes that do not divide the data), data size, scale and "
     "preferred block size, the local index ranges of the processes are disjoint, cover every global index exactly once, and "
     "are contiguous and aligned to whole blocks.  Local shapes, slices, element lists and buffer sizes on each process all "
     "agree with those ranges.",
     ["inputs", "configurations"],
     "all global sizes, block sizes, mesh sizes and process coordinates; all layouts of each chain",
     "Tests run on one process, where every partition is the trivial one.",
     ["dedalus/core/distributor.py", "dedalus/core/domain.py"],
     [("block arithmetic", "dedalus/core/distributor.py: Layout.local_chunks, local_elements, slices, local_shape, buffer_size"),
      ("layout chain", "dedalus/core/distributor.py: Distributor._build_layouts")],
     built=True,
     technique="contract-based deductive verification: Layout arithmetic executed on symbolic sizes, meshes and coordinates (z3); "
               "layout chain by exact enumeration",
     note="Per-axis ranges proved for every chunk size, chunk count, mesh size and process coordinate on six locality patterns; the layout "
          "chain is enumerated exactly for D<=4 and all meshes with entries up to 3. Real bases on stand-in meshes are the bounded companion.")

prop("D02", "Transposing between layouts moves every coefficient and nothing else",
     "A transpose between adjacent layouts, of a single field or of a group of fields, places every global element at the "
     "position that the target layout assigns to it, for every shape, component count, block size and process mesh; the "
     "reverse transpose restores the original data bit for bit.  Grouped and individual transposes give identical results.",
     ["inputs", "configurations"],
     "all array shapes, block sizes, component counts, data types and mesh sizes",
     "The test suite runs serially, so no interprocess transpose is executed at all.",
     ["dedalus/core/transposes.pyx", "dedalus/core/distributor.py"],
     [("pack/unpack loops", "dedalus/core/transposes.pyx: split_rows, combine_columns and their inverses"),
      ("planning", "dedalus/core/transposes.pyx: FFTWTranspose, AlltoallvTranspose; dedalus/core/distributor.py: Transpose"),
      ("grouping", "dedalus/core/distributor.py: Transpose.increment_group, decrement_group")],
     built=True,
     technique='contract-based deductive verification: the Cython pack/unpack loops are lowered mechanically from transposes.pyx and proved with loop invariants (z3); planners, counts and displacements are executed on symbolic sizes against the Layout contract',
     note="Loops, counts, displacements, block sizes and field grouping are proved for all sizes. Trusted: FFTW's MPI transpose and MPI Alltoallv semantics, copies by numpy. Row/ColDistributor are not used by the library and not claimed. Runs on real MPI processes and simulated groups are bounded and not counted as proved.")

prop("D03", "Global data operations do not depend on the process mesh",
     "Filling a field with seeded random data gives the same global array for every process mesh and layout request, the "
     "values depending only on the global index and the seed; gathering a field or loading it from a global array reproduces "
     "or consumes exactly the global array that the local blocks make up, and norms are those of the global data, for scalar, vector and tensor fields.",
     ["inputs", "configurations"],
     "all shapes, block sizes, seeds, meshes and tensor ranks",
     "Tests run on one process and never compare meshes.",
     ["dedalus/tools/random_arrays.py", "dedalus/core/field.py"],
     [("chunked random arrays", "dedalus/tools/random_arrays.py: ChunkedRandomArray"),
      ("global gather and load", "dedalus/core/field.py: gather_data, allgather_data, load_from_global_grid_data, fill_random")],
     built=True,
     technique='contract-based deductive verification: the real chunked random streams are proved with a loop invariant at the chunk loop (z3), index arrays and fill_random on symbolic shapes and slices',
     note='Proved for all index arrays, chunk sizes, shapes up to rank 5 and contiguous slices: every drawn element is the stream element of its global index. numpy streams not depending on draw sizes is assumed and checked on 26 distributions. Gather, allgather, set and load are checked on the real fields on simulated and real meshes (bounded).')

prop("X01", "Spectral transforms evaluate and recover the truncated series exactly",
     "For every grid size, coefficient size and scale (grid smaller than, equal to or larger than the truncation), every "
     "library's backward transform evaluates the documented series on the grid and its forward transform returns the "
     "quadrature coefficients of the kept modes, with every mode that the grid cannot resolve set to zero and the "
     "unpaired (Nyquist and sine-zero) modes never left with stale data.  All libraries for one basis give the same result, "
     "along any axis of an array of any shape.",
     ["inputs", "configurations"],
     "all grid and coefficient sizes, axes, array shapes, transform libraries and data",
     "Tests try a few sizes at scales 0.5 to 2 with roundtrips in one order; odd sizes, extreme truncations and leftover "
     "entries in reused buffers are not reached.",
     ["dedalus/core/transforms.py", "dedalus/libraries/fftw/fftw_wrappers.pyx", "dedalus/tools/array.py"],
     [("Fourier packing", "dedalus/core/transforms.py: ComplexFFT.resize_coeffs, RealFFT unpack_rescale/repack_rescale, FFTWHalfComplexFFT, ScipyRealFFT"),
      ("cosine packing", "dedalus/core/transforms.py: FastCosineTransform, FastChebyshevTransform"),
      ("matrix transforms", "dedalus/core/transforms.py: SeparableMatrixTransform, JacobiMMT")],
     built=True,
     technique='contract-based deductive verification: symbolic execution of the real transform methods over arrays of symbolic size against contracts, obligations discharged by Z3; direct summation of the series as bounded stand-in for the matrix and curvilinear transforms',
     note='Contracts on resize/rescale, packing and dispatch of every FFT, half-complex and cosine/Chebyshev transform for all grid and coefficient sizes (persistent work arrays arbitrary); library routines trusted; matrix and curvilinear transforms bounded.')

prop("E01", "Symbolic rewriting of expressions preserves their value",
     "Splitting an expression by variables, substituting an operand, expanding sums and products, and differentiating "
     "with respect to a variable each return an expression equal in value to the mathematical operation on the original, for "
     "every expression built from sums, products, powers, operators and functions.  Splits are a partition: their "
     "parts sum to the original and only the first part contains the requested variables.",
     ["programs"],
     "all finite expression trees over sums, products, powers, linear operators and nonlinear functions",
     "Tests only touch these through a few fixed equations.",
     ["dedalus/core/arithmetic.py", "dedalus/core/operators.py", "dedalus/core/field.py", "dedalus/core/future.py"],
     [("recursive rewriting", "split, replace, expand, sym_diff, frechet_differential on Operand, Add, Product, Power, UnaryGridFunction, LinearOperator")],
     built=True,
     technique="contract-based deductive verification: structural induction, each rewriting method of each node class run on opaque operands "
               "that obey the same contract; values compared as exact polynomials (sympy for the nonlinear functions)",
     note="Every node class on every geometry it accepts, for arbitrary operands by induction. Preconditions: differentiation variables constant in "
          "space; functions and powers of scalars; backgrounds free of the other variables. General (user) functions excluded. Real fields: bounded.")

prop("E02", "Parsed equations become the matrices and right-hand sides they state",
     "Every accepted equation is solved as stated: the implicit matrices equal the linear part of its left side "
     "(time-derivative part and stationary part separately, eigenvalue part separately), the right side is the stated right "
     "side minus nothing else, and for nonlinear problems each iteration solves the linearization of the whole equation "
     "about the current state.  Equations with a left side that is not linear in the variables, or with time derivatives or "
     "variables where they are not allowed, are rejected.",
     ["programs", "inputs"],
     "all accepted equation texts and all problem classes",
     "Tests solve a few equations; sign or grouping errors for other shapes of equation are not reached.",
     ["dedalus/core/problems.py", "dedalus/core/solvers.py", "dedalus/tools/parsing.py"],
     [("problem forms", "dedalus/core/problems.py: _build_matrix_expressions of each problem class"),
      ("matrices", "dedalus/core/subsystems.py: Subproblem.build_matrices")],
     built=True,
     technique='contract-based deductive verification of the equation front end: loop invariant for split_equation (texts of any length), expression_matrices/linearity/order checks by structural induction over expression trees with arbitrary child matrices in a free algebra, problem forms and solve/Newton/eigen systems on uninterpreted expressions; z3 for the NCC mode sums',
     note='Proved: splitting texts; matrices of sums, scalings, products with coefficients and linear operators from those of their operands; component contraction arrays; Cartesian NCC mode sums with arbitrary coefficients; acceptance checks of every node class; M, L, F and dF of every problem class on a common domain with prepared coefficients; build_EVP; the systems handed to the linear solvers. Trusted: rewriting (E01), operator and mode matrices (S01, N02), assembly (M01). Bounded: random equations of every problem class on 14 domains compared with direct evaluation; accepted and refused forms; solutions satisfy the equations. Aliasing of truncated products of coefficients is excluded (band-limited data).')

prop("M01", "Pencil systems gather and scatter every valid mode exactly once",
     "Across all subproblems, every mode of every variable and equation that the bases mark as valid (and, in the ball, that lies "
     "inside the radial truncation) belongs to exactly one subproblem, and the equations posed in that subproblem include it; gathering a field into pencils and scattering back restores all valid modes and leaves invalid "
     "ones zero.  Row and column reordering for speed are permutations, so solutions do not depend on them.",
     ["inputs", "configurations"],
     "all combinations of bases, tensor ranks, coupling choices, groupings and process meshes",
     "Tests compare solutions of a few problems; a mode dropped or doubled in other configurations is not reached.",
     ["dedalus/core/subsystems.py", "dedalus/core/basis.py", "dedalus/core/distributor.py"],
     [("gather and scatter", "dedalus/core/subsystems.py: Subproblem.gather_inputs, scatter_inputs, Subsystem"),
      ("permutations", "dedalus/core/subsystems.py: left_permutation, right_permutation, PermutationOperator")],
     built=True,
     technique='contract-based deductive verification: buffer views, gather/scatter and block assembly executed symbolically over arbitrary field sizes and discharged by Z3; lemma that a filtered permutation and its transpose are partial inverses; group mapping enumerated exactly; real problems as bounded replay',
     note='Sizes of fields are arbitrary integers in the contracts of _gather_scatter_setup, _build_buffer_views and build_matrices (one to four fields). The row and column permutations and the partition over the real bases (11 domains, couplings, conditions, meshes to 3x2) are bounded. Preconditions: some equation applies in every group, radial axes are coupled.')

prop("N01", "Array and sparse kernels equal their mathematical definition on every axis",
     "Applying dense or sparse matrices along an axis, triangular solves along an axis, Kronecker products, block assembly, "
     "matrix interleaving, permutations and sparse pattern and row operations give the mathematically defined result for every array shape, axis (counted "
     "from either end), memory order and output choice, and change no other memory.",
     ["inputs"],
     "all array shapes, axes, strides, data types and sparsity patterns",
     "Tests exercise these kernels only through transforms with contiguous arrays on a few axes.",
     ["dedalus/tools/array.py", "dedalus/tools/linalg.pyx"],
     [("axis kernels", "dedalus/tools/array.py: apply_matrix, apply_dense, apply_sparse, solve_upper_sparse"),
      ("compiled loops", "dedalus/tools/linalg.pyx")],
     built=True,
     technique="contract-based deductive verification: loop invariants on the Cython kernels lowered mechanically from the .pyx on every run "
               "(z3, all sizes and sparsity patterns), their dispatch on symbolic extents, array functions on exact polynomial data",
     note="Kernels (CSR product and triangular solve, four layouts each): partial correctness, memory bounds and thread ownership for every "
          "size, pattern and thread count, proved. Dispatch: every rank up to 5 and every axis, symbolic extents. Python wrappers: arbitrary data "
          "(exact polynomials) for enumerated shapes, axes, memory orders and outputs. Compiled code against a dense oracle, and the "
          "scipy-based constructors: bounded. Matrix and array data types are assumed compatible (a complex matrix is not applied to real data).")

prop("N02", "Orthogonal polynomial algebra and multiplication matrices are exact",
     "Jacobi polynomials, grids, weights, masses, conversion, differentiation, integration, interpolation and "
     "multiplication matrices satisfy their defining identities for every degree and every admissible pair of parameters; the "
     "matrix of multiplication by a series equals the matrix polynomial of that series in the recurrence matrix.",
     ["inputs"],
     "all degrees, all parameter pairs above -1 within the tested range, all coefficient series",
     "Tests use Chebyshev, Legendre and their first derivatives at two sizes.",
     ["dedalus/tools/jacobi.py", "dedalus/tools/clenshaw.py", "dedalus/core/basis.py"],
     [("polynomial matrices", "dedalus/tools/jacobi.py"), ("Clenshaw recurrences", "dedalus/tools/clenshaw.py"),
      ("basis use", "dedalus/core/basis.py: Jacobi._last_axis_component_ncc_matrix and operators")],
     built=True,
     technique='deductive: Clenshaw and three-term recurrences by loop invariants cut into the real functions (any length), operator entries by hypergeometric-term identities for every degree and all parameters, Gamma-ratio identities, operator/codomain algebra, truncation lemma by induction with the padding obligation; z3 and rational normal forms',
     note='Quadrature nodes and weights (floating Newton iteration), integration vectors and interpolation are bounded reference checks (scipy/Gauss references), not proved. Parameters whose integer separation is not exact in floating point are rejected loudly by the code. Operand and coefficient bases of different sizes raise on evaluation and are outside the contract.')

prop("N03", "Every matrix solver solves its system and its adjoint",
     "For every registered solver and every nonsingular system it accepts, solving returns the vector whose product with the "
     "matrix is the given right-hand side, for single and multiple right-hand sides; where a solver offers the adjoint "
     "solve it inverts the conjugate transpose, and bordered or wrapped solvers invert the full matrix they were given.  The "
     "targeted eigenvalue search returns eigenpairs of the given pencil and, where asked, of its adjoint.",
     ["inputs"],
     "all nonsingular matrices in the class each solver accepts, all right-hand sides",
     "Tests use the default solver on a few matrices.",
     ["dedalus/libraries/matsolvers.py", "dedalus/tools/array.py"],
     [("solver wrappers", "dedalus/libraries/matsolvers.py"), ("Woodbury wrapper", "dedalus/libraries/matsolvers.py: Woodbury")],
     built=True,
     technique='contract-based deductive verification: real solver classes executed on symbolic matrices (noncommutative word normal form), banded storage with any number of diagonals (z3)',
     note='All matrices and right-hand sides in exact arithmetic, library factorizations by their documented contracts; UMFPACK, SuiteSparseQR and pybanded are not installed, only their wrappers are checked. DummySolver (returns zeros, for testing) and BlockInverse (cannot be constructed at this commit) are excluded. Real solves against the residual are the bounded companion.')

prop("O01", "Scheduled outputs fire exactly when their cadence says",
     "For every sequence of timesteps smaller than the simulation-time cadence, each multiple of the cadence that the run reaches "
     "(from the one closest to the starting time on) produces exactly one output, at a step closest to that multiple, and no other "
     "step produces one; iteration and wall-time cadences fire at the first opportunity of a run and then exactly at the first step in each new cadence interval.  "
     "Handlers with several cadences fire exactly when any of them does, each cadence keeping its own schedule, and custom schedules exactly "
     "when the schedule function says.",
     ["histories", "inputs"],
     "all timestep sequences, start times and cadences",
     "Tests check a fixed cadence with constant timesteps.",
     ["dedalus/core/evaluator.py"],
     [("schedule decision", "dedalus/core/evaluator.py: Handler.check_schedule"),
      ("scheduled evaluation", "dedalus/core/evaluator.py: Evaluator.evaluate_scheduled")],
     built=True,
     technique="contract-based deductive verification: inductive invariant of the schedule state over symbolic times (z3)",
     note="All times, timesteps below the cadence, cadences and counters, any number of steps (induction over the schedule state); "
          "evaluate_scheduled for 0-3 handlers. Real arithmetic; exact-dyadic float histories and real runs are the bounded companion.")

prop("O02", "Output files record every scheduled write once, in order, with its own data",
     "Every write of a file handler appends exactly one record to each task: consecutive write numbers, the iteration, times "
     "and timestep of that step, and the task's data at that step in the requested layout and scales, placed at its global "
     "position.  A new set starts exactly when the configured number of writes is reached, appending continues the "
     "numbering, and existing sets are kept or replaced as the mode says.",
     ["histories", "configurations"],
     "all write histories, set sizes, modes, layouts, scales and meshes",
     "Tests write one or two files in one configuration.",
     ["dedalus/core/evaluator.py"],
     [("file handlers", "dedalus/core/evaluator.py: H5FileHandlerBase, VirtualFileHandler, H5ParallelFileHandler"),
      ("set numbering", "dedalus/core/evaluator.py: FileHandler.__init__, process")],
     built=True,
     technique="contract-based deductive verification: write bookkeeping, metadata and data distribution executed on symbolic counters and "
               "shapes (z3)",
     note="Set and write numbering, per-write records and block placement proved for all counters, limits, shapes and positions; HDF5 itself is "
          "trusted. Complete files (serial and parallel, all modes) are a bounded check against independent evaluation. MPI-HDF5 is absent here.")

prop("O03", "Post-processing visits every write exactly once and merges without loss",
     "Dividing the writes of a list of output files among any number of processes assigns each write to exactly one "
     "process, in order and never more than the equal share rounded up, for every distribution of writes over files including empty "
     "and excess processes.  Merging per-process pieces places every piece at its recorded position, so that the merged "
     "file holds the complete global data and nothing is overwritten.",
     ["inputs", "configurations"],
     "all write counts per file, file lists and process counts; all block decompositions",
     "Tests never run more than one process through the splitting code.",
     ["dedalus/tools/post.py"],
     [("write assignment", "dedalus/tools/post.py: get_assigned_writes, get_assigned_sets, visit_writes"),
      ("merging", "dedalus/tools/post.py: merge_process_files, merge_data, merge_virtual")],
     built=True,
     technique="contract-based deductive verification: write assignment executed on symbolic file counts, write counts and process counts with "
               "a ghost prefix-sum function (z3)",
     note="Write assignment proved for any number of files, writes and processes; visiting proved for 0-3 files with any counts (identical passes); "
          "piece placement proved for 1-3 axes. Merging of complete files (HDF5) is a bounded check on real parallel runs.")

prop("L01", "The run loop stops at the configured limits and never before",
     "A run continues exactly while simulation time, iteration count and wall time (counted since the solver was created) are "
     "all below their limits, with unset limits never stopping it and a run without any limit rejected.  Each pass takes exactly one step with "
     "the requested timestep, advancing the iteration by one and the time seen by the equations by the timestep, re-symmetrizing real "
     "variables at the configured cadence for as many consecutive steps as the scheme keeps history; a non-finite timestep is rejected before "
     "anything changes.",
     ["inputs", "histories"],
     "all limits (including none and infinite), all times, counters and start iterations",
     "Tests stop by one limit only.",
     ["dedalus/core/solvers.py"],
     [("stop rule", "dedalus/core/solvers.py: InitialValueSolver.proceed, step, evolve")],
     built=True,
     technique="contract-based deductive verification: stop rule, step bookkeeping executed on symbolic times, counters and limits (z3); "
               "evolve loop against contracts of its callees",
     note="All times, counters and limits (finite, infinite); evolve loop rule discharged for 0-4 passes with arbitrary "
          "callees (each pass is identical). Real runs are a bounded companion.")

prop("L02", "Adaptive timesteps never exceed their configured bounds",
     "The timestep returned by the advective condition is the safety factor over the largest grid "
     "frequency of all registered velocities on all processes, limited to the configured absolute maximum and minimum and to the "
     "configured growth and shrinkage relative to the previous timestep, (lower limits win where they conflict), and left unchanged when the relative change is below the "
     "threshold, outside the cadence and at the first evaluation.  Flow statistics are the exact global reductions of the evaluated fields.",
     ["inputs", "histories", "configurations"],
     "all frequencies, cadences, thresholds, bounds and timestep histories, all numbers of processes",
     "Tests compare one grid frequency; the bounding logic and the cadence are not exercised.",
     ["dedalus/extras/flow_tools.py", "dedalus/core/basis.py", "dedalus/core/operators.py"],
     [("timestep limits", "dedalus/extras/flow_tools.py: CFL.compute_timestep"),
      ("reductions", "dedalus/extras/flow_tools.py: GlobalArrayReducer, GlobalFlowProperty"),
      ("grid frequencies", "dedalus/core/operators.py: AdvectiveCFL; dedalus/core/basis.py: *AdvectiveCFL")],
     built=True,
     technique="contract-based deductive verification: timestep rule and reductions executed on symbolic reals (z3)",
     note="Timestep rule and reductions proved for all magnitudes, limits, cadences and counters at the listed local array shapes, with an "
          "arbitrary contribution of other processes. Grid frequencies of each basis are a bounded check against independent formulas.")

prop("S01", "Spectral operator matrices act exactly as the operators they stand for",
     "On every function that a Fourier or Jacobi basis can represent, differentiation, integration, averaging, interpolation, "
     "basis conversion, lifting and multiplication give the exact coefficients of the true result, for "
     "every size, interval, mode and choice of basis parameters; matrix form and direct evaluation agree.",
     ["inputs", "configurations"],
     "all sizes, bounds, coefficients, basis parameters",
     "Tests use a few smooth functions on one or two intervals.",
     ["dedalus/core/basis.py", "dedalus/core/operators.py", "dedalus/tools/jacobi.py"],
     [("Fourier operators", "dedalus/core/basis.py: *RealFourier, *ComplexFourier group matrices"),
      ("Jacobi operators", "dedalus/core/basis.py: *Jacobi matrices")],
     built=True,
     technique='contract-based deductive verification: symbolic execution of the real functions, obligations discharged by z3 and rational normal forms; bounded reference comparison as stand-in where stated',
     note='Fourier group matrices, wavenumbers, interpolation rows and product matrices are proved entry by entry for every size and mode; affine change of variables for every interval; Jacobi matrices are the polynomial matrices of N02 with proved parameters and factors; Kronecker placement proved for every size. Distribution of the matrices over processes and the full path through the public API are bounded.')

prop("V01", "Component and spin recombinations are exact unitary changes of frame",
     "The change between coordinate components and spin or regularity components is a unitary map for every rank, azimuthal "
     "mode and degree, and its inverse is applied exactly, so going to spin components and back restores any tensor in any "
     "curvilinear coordinate system; tensor fields that are polynomial in Cartesian coordinates keep, on every grid, the "
     "components given by that point's unit vectors, and so do their gradients.  Coordinate systems are equal only if all "
     "their coordinates are.",
     ["inputs"],
     "all tensor ranks, modes, degrees and data",
     "Tests check vectors and rank-two tensors of a few smooth fields.",
     ["dedalus/core/coords.py", "dedalus/core/basis.py", "dedalus/libraries/spin_recombination.pyx",
      "dedalus/libraries/dedalus_sphere/spin_operators.py"],
     [("intertwiners", "dedalus/core/coords.py: PolarCoordinates, S2Coordinates, SphericalCoordinates"),
      ("recombination loops", "dedalus/libraries/spin_recombination.pyx"),
      ("regularity", "dedalus/libraries/dedalus_sphere/spin_operators.py: Intertwiner")],
     built=True,
     technique='contract-based deductive verification: verification conditions of the compiled loops by invariants (z3), word contracts over ghost buffers, exact algebra of square roots over Q(L) for the intertwiners; bounded reference comparison of the public interface',
     note='Compiled loops proved for all extents, subaxes and data; arrangement of recombined indices for every pattern up to rank 4; intertwiners exactly, for every degree, up to rank 3; coordinate systems by exhaustive cases; whole-field behaviour is bounded.')

prop("A01", "Tensor operations act on the indices they name",
     "Trace, transpose, skew, component selection, dot and cross products of tensor fields give, for every rank, every "
     "choice of indices (counted from either end), every layout of the operand and every coordinate system, exactly the named "
     "contraction, exchange, rotation or selection of the operand's components; the operand is unchanged, the result "
     "carries the remaining indices in order, and the matrix of the operation in a linear problem equals its evaluation.",
     ["inputs", "configurations"],
     "all ranks, indices, layouts, coordinate systems and data",
     "Tests take these operations mostly on vectors and on the first index.",
     ["dedalus/core/operators.py", "dedalus/core/arithmetic.py", "dedalus/core/basis.py"],
     [("single-operand operations", "dedalus/core/operators.py: Trace, TransposeComponents, Skew, Component, CartCompBase and subclasses"),
      ("products", "dedalus/core/arithmetic.py: DotProduct, CrossProduct"),
      ("curvilinear components", "dedalus/core/basis.py: S2RadialComponent, S2AngularComponent, PolarAzimuthalComponent, PolarRadialComponent")],
     built=True,
     technique='contract-based deductive verification: symbolic execution of the real operate functions on arrays of exact polynomials, obligations discharged by polynomial normal forms; bounded reference comparison through the public interface',
     note='operate functions and selection matrices under contract for every index and entry up to rank 4; constructors, layouts and matrices in curvilinear coordinates are bounded.')

prop("C01", "Cached results are the results of the arguments they were asked for",
     "Calling a cached function, method, attribute or class returns what an uncached call with the same arguments would "
     "return, for every sequence of calls, argument order, keyword use and instance; results of one instance or one set of "
     "arguments are never returned for another, and bounded caches never exceed their bound.",
     ["histories", "inputs"],
     "all call histories, argument values and orders, instances and subclasses",
     "Tests use caches implicitly, always with the same arguments.",
     ["dedalus/tools/cache.py", "dedalus/tools/dispatch.py"],
     [("caching", "dedalus/tools/cache.py: CachedFunction, CachedMethod, CachedAttribute, CachedClass, serialize_call"),
      ("dispatch", "dedalus/tools/dispatch.py: MultiClass")],
     built=True,
     technique='contract-based deductive verification: cache invariant over the real CachedFunction and CachedClass calls with symbolic argument values of arbitrary structure (algebraic datatype of Python values), key lemma and size bound discharged by Z3',
     note='All call forms of a family of signatures, every outcome of the lookups; size bound for symbolic max_size and cache content including re-entrant functions; descriptors and dispatch by exhaustive cases, solver-run audit bounded.')

prop("F01", "A field's data follows its layout and scales without loss of kept modes",
     "For every sequence of layout and scale changes, a field's data stays the same function: returning to coefficient "
     "space gives the original coefficients as long as no visited grid is smaller than the truncation, and after a "
     "visit to a smaller grid, or a filter to its shape, exactly the resolvable modes remain.  Local data shape, layout and scales always agree, and "
     "reading data in one layout never changes what another layout then shows.",
     ["histories", "configurations"],
     "all sequences of requested layouts, scales and assignments, all bases and tensor ranks",
     "Tests visit a layout once or twice from a fresh field.",
     ["dedalus/core/field.py", "dedalus/core/distributor.py", "dedalus/core/transforms.py"],
     [("state machine", "dedalus/core/field.py: change_layout, change_scales, towards_grid_space, preset_layout, preset_scales"),
      ("paths", "dedalus/core/distributor.py: Transform, Transpose")],
     built=True,
     technique='contract-based deductive verification: representation invariant of field, buffer and layout, every method executed from an arbitrary state with symbolic scales and sizes (z3), transforms and transposes by contract',
     note='Induction over any history of layout and scale changes, assignments, filters, copies and locks; layout chains of 1-3 dimensions on meshes of 0-2 axes. Random histories on real Cartesian and curvilinear fields, also on MPI processes, are the bounded companion.')
