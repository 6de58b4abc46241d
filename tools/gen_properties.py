#!/usr/bin/env python3
"""Single source for properties.jsonl (regenerate: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Image difference operators equal their definition, adjoint and composition",
 "For every image with at least two rows and two columns, every pixel value and every scale factor, the horizontal and vertical forward-difference operators (last column, respectively last row, mapped to zero), their transposes, and the difference-transpose-times-difference operators each produce exactly the matrix-vector product their definition prescribes. The transpose is the true adjoint of the forward operator and the combined operator is the composition of the two (scale applied once per difference). Each call writes exactly the rows*columns outputs, never reads or writes outside the arrays, does not depend on what the output held before, and leaves its input unchanged.",
 ["inputs"], "all pixel values and scale factors; shapes up to the stated bound",
 "Tests compare a few fixed 3x3-like examples; the adjoint identity and boundary handling have to hold for every image and every aspect ratio.",
 ["src/TV.c", "include/TV.h"],
 [("horizontal differences", "src/TV.c: l1c_Dx, l1c_DxT, l1c_DxTDx"), ("vertical differences", "src/TV.c: l1c_Dy, l1c_DyT, l1c_DyTDy")])

prop("C02", "1-D subsampled cosine transform set is the orthonormal IDCT and its adjoints",
 "After a successful 1-D setup with any list of distinct in-range sample positions (in any order), the synthesis operator is the orthonormal inverse cosine transform and its transpose operator is its inverse; the sampling operator gathers exactly the listed positions and its transpose scatters to them and zero-fills the rest. The measurement operator equals sampling after synthesis, its adjoint equals transposed synthesis of the scattered measurements, the normal operator equals adjoint after measurement, and the analysis dictionary operators are the identity. The reported sizes are the number of samples and the signal length and the reported dictionary norm is 1.",
 ["inputs"], "all signals and measurement vectors, all index sets within the size bound",
 "Needs every sampling pattern and every signal; the reference-file tests are not even runnable without generated data here.",
 ["src/dct1.c", "src/dct_transforms.c"],
 [("operators", "src/dct1.c: dct_EMx, dct_MtEty, dct_MtEt_EMx, dct_Mx, dct_Mty, dct_Ex, dct_Ety"), ("setup", "src/dct1.c: l1c_dct1_setup")])

prop("C03", "2-D subsampled cosine transform set is the orthonormal 2-D IDCT and adjoints",
 "After a successful 2-D setup of any image shape with at least two rows and two columns, square or not, with any distinct in-range sample positions, the synthesis operator is the orthonormal two-dimensional inverse cosine transform of the row-major image and its transpose operator is its inverse. The sampling, measurement, adjoint, normal and identity-dictionary operators relate to it exactly as in the one-dimensional set, and the reported sizes and dictionary norm match. The top-level cosine setup picks the one-dimensional set when the image has a single row or column or when one-dimensional mode is requested, and the two-dimensional set otherwise.",
 ["inputs", "configurations"], "all images, measurements, shapes and index sets within the size bound",
 "Row/column swaps only show on non-square shapes and per-mode scaling only on particular coefficients; tests sample a couple of shapes.",
 ["src/dct2.c", "src/dct_transforms.c"],
 [("operators", "src/dct2.c: dct2_EMx, dct2_MtEty, dct2_MtEt_EMx, dct2_Mx, dct2_Mty"), ("dispatch", "src/dct_transforms.c: l1c_setup_dct_transforms")])

prop("C04", "Transform operators are repeatable: results do not depend on call history",
 "After any sequence of operator calls on a cosine, cosine-plus-differences or matrix transform set, each further call returns the same result as a call on a freshly set-up transform, and the arrays passed as inputs hold the same values afterwards as before (up to rounding). The result also does not depend on the previous contents of the output array. Destroying a set and setting one up again with different sizes or sample positions behaves as a first setup.",
 ["histories", "inputs"], "all ordered pairs of operator calls with independent symbolic arguments, plus setup/destroy/setup cycles",
 "The operators share file-level scratch buffers that must stay zero off the sampling mask; only specific call orders expose stale data.",
 ["src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c"],
 [("shared scratch", "src/dct1.c: dct_Ety_sparse, dct_x, dct_y"), ("shared scratch", "src/dct2.c: dct2_Ety_sparse, dct2_x, dct2_y"), ("shared scratch", "src/dct_tv_transforms.c")])

prop("C05", "Cosine-plus-total-variation dictionary is consistent in both modes",
 "For every accepted combination of mode and weights the composite setup reports sizes consistent with the operators, and the dictionary operator maps a stacked coefficient vector to the inverse cosine transform of the first block plus the weighted vertical forward differences of the second (if its weight is positive) plus the weighted horizontal forward differences of the next (if its weight is positive), while the transposed dictionary stacks the cosine transform and the weighted transposed differences in the same order. In analysis mode the measurement operator is pure sampling and this dictionary is used; in synthesis mode the measurement operator is sampling after the dictionary and the dictionary operators are the identity on coefficient vectors. In both modes the adjoints are true adjoints, the normal operator is the adjoint after the measurement, and the reported norm is at least the true spectral norm of the dictionary.",
 ["inputs", "configurations"], "all signals, weights, modes, shapes and index sets within the size bound",
 "Block offsets, weights and norms interact across eight configurations; unit tests for this set need data files that are not available and sample one shape.",
 ["src/dct_tv_transforms.c"],
 [("composite", "src/dct_tv_transforms.c: l1c_setup_dctTV_transforms, Wv, Wtx helpers")])

prop("C06", "Dense-matrix transform set multiplies by the given matrix and its transpose",
 "For every row-major n-by-m matrix (n and m positive), the measurement operator multiplies by the matrix, the adjoint by its transpose, and the normal operator by transpose-times-matrix. The synthesis and dictionary operators are the identity on signal-length vectors and the reported sizes match. All operators leave the matrix and their inputs unchanged and touch only as many elements as the sizes say.",
 ["inputs"], "all matrices and vectors within the size bound",
 "Tests use one fixed small matrix; leading-dimension and transpose mistakes need rectangular symbolic matrices.",
 ["src/matrix_transforms.c"],
 [("operators", "src/matrix_transforms.c: Ax, Aty, AtAx"), ("setup", "src/matrix_transforms.c: l1c_setup_matrix_transforms")])

prop("C07", "Transform setups reject bad arguments for all integers and change nothing",
 "For all integer sizes, sample positions, modes and weights: non-positive sizes, a sample position outside the image, a pixel count (or stacked length) that does not fit an integer, negative weights, or a positive weight on an image with fewer than three rows or columns make the setup return a non-zero error code and never allocate, plan or touch memory out of bounds. Every legal combination within range is accepted. A rejected setup leaves a transform set that is already in use working exactly as before.",
 ["inputs", "configurations", "histories"], "all 32-bit values of every integer argument (lists up to the bound), all weights",
 "The integer space, including products that overflow, cannot be sampled; tests check a few literal bad values.",
 ["src/dct_transforms.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c"],
 [("validation", "src/dct_transforms.c: l1c_setup_dct_transforms, check_pix_idx"), ("validation", "src/dct_tv_transforms.c: l1c_setup_dctTV_transforms")])

prop("C08", "Out-of-memory or planner failure is reported without leak or corruption",
 "If any single memory allocation or transform-plan creation fails inside a transform setup, either optimisation solver, the total-variation denoiser or the cosine recovery entry point, the call returns a non-zero status instead of crashing. Everything allocated by the failed call is released exactly once, no freed or uninitialised memory is used, and a later call with enough memory works normally. A successful call followed by the transform set's own release also leaves nothing allocated.",
 ["fault_sequences"], "the k-th allocation or plan request fails, for every k; followed by a clean retry",
 "Fault points are never exercised by the tests; each position in each call needs its own injected failure.",
 ["src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c", "src/l1qc_newton.c", "src/nesta.c", "src/bregman.c", "src/l1qc_dct.c", "src/l1c_memory.c"],
 [("cleanup paths", "src/dct1.c: fail label, dct_destroy"), ("cleanup paths", "src/l1qc_newton.c: exit label"), ("cleanup paths", "src/nesta.c: exit label"), ("cleanup paths", "src/bregman.c: exit label")])

prop("C09", "Array allocators give aligned, disjoint, correctly sized, releasable memory",
 "For every non-negative element count, the double-array allocators return either null or a block aligned to 64 bytes with room for all requested elements, and the zeroing variants return it all zero. The two-dimensional variants return as many rows as asked, every row aligned, full length and disjoint from the others, or null (with nothing left allocated) when any part cannot be obtained. Releasing what was returned (including null) frees everything exactly once.",
 ["inputs", "fault_sequences"], "all element counts within the bound, including zero, and every position of an allocation failure",
 "Tests allocate a couple of sizes and never fail an allocation.",
 ["src/l1c_memory.c"],
 [("allocators", "src/l1c_memory.c: l1c_malloc_double, l1c_calloc_double, l1c_malloc_double_2D, l1c_calloc_double_2D, l1c_free_double, l1c_free_double_2D")])

prop("C10", "Conjugate-gradient solvers report the truth about the returned solution",
 "For every symmetric positive-definite operator, right-hand side, starting guess (and positive diagonal preconditioner), both conjugate-gradient solvers return with a reported residual equal to the true relative residual of the returned vector, and that residual is never larger than that of the starting guess. They apply the method's recurrences exactly, stop after the first iteration whose residual is below the tolerance and never exceed the iteration limit, and the reported iteration count is the number of operator-direction steps taken. A zero right-hand side (with a zero guess) or an already exactly solved system returns the guess without failure, and the right-hand side and preconditioner are not modified.",
 ["inputs", "configurations"], "all right-hand sides and starting guesses, parametric families of operators, tolerances and iteration limits within the bound",
 "Best-iterate bookkeeping and the reported residual only disagree for particular right-hand sides and iteration limits.",
 ["src/cgsolve.c"],
 [("solver", "src/cgsolve.c: l1c_cgsolve"), ("preconditioned solver", "src/cgsolve.c: l1c_cgsolve_diag_precond")])

prop("C11", "Line searches accept only sufficient decrease and otherwise change nothing",
 "For every objective function (including values that are infinite or not a number), starting step and shrink factor, both line searches try at most 32 steps, each the previous one times the shrink factor, and stop at the first whose objective value satisfies the sufficient-decrease inequality. On success the variables equal the start plus the accepted step times the direction, the objective value is the one evaluated there, and the reported step and iteration count are those of that trial. On failure a non-zero status is returned and the variables and objective value are exactly what they were; the directions are never modified.",
 ["inputs", "histories"], "every sequence of objective values the callback may return, all points, directions, steps",
 "The acceptance logic depends on an arbitrary sequence of callback values including non-numbers; tests use a few smooth functions.",
 ["src/linesearch.c"],
 [("joint search", "src/linesearch.c: l1c_linesearch_xu"), ("single search", "src/linesearch.c: l1c_linesearch")])

prop("C12", "Log-barrier value, gradient, Hessian product and Newton step agree",
 "At every strictly feasible point the barrier functional of the constrained l1 solver equals the sum of the bounds minus 1/tau times the logarithms of all slacks, including that of the quadratic constraint. The gradient used by the solver is the exact derivative of that functional, the reduced Hessian product and diagonal terms are its exact second derivatives after eliminating the bound variables, and the computed step in the bound variables is the one that elimination prescribes. The Newton step is the solution the linear solver returns for that reduced system, and a failed linear solve is reported as an error.",
 ["inputs"], "all strictly feasible points and directions, all parameters, dense operators within the size bound",
 "Sign or factor errors in cross terms still let the solver converge on test images; derivative identities have to hold everywhere.",
 ["src/l1qc_newton.c"],
 [("functional", "src/l1qc_newton.c: _l1c_l1qc_f_eval"), ("derivatives", "src/l1qc_newton.c: _l1c_l1qc_hess_grad, _l1c_l1qc_H11pfun"), ("step", "src/l1qc_newton.c: _l1c_l1qc_descent_dir")])

prop("C13", "Maximum Newton step stays strictly feasible and is not needlessly short",
 "From every strictly feasible point along every direction, the maximum step the constrained l1 solver computes lies in (0, 0.99], and moving by it (or any shorter step) keeps every bound slack and the quadratic constraint strictly satisfied. It is 0.99 times the smaller of one and the distance to the first constraint that would be hit, so it is not shorter than necessary. Zero directions give the full 0.99 step.",
 ["inputs"], "all strictly feasible points and directions within the size bound",
 "Needs each constraint to be the binding one, including grazing and receding directions.",
 ["src/l1qc_newton.c"],
 [("ratio test", "src/l1qc_newton.c: _l1c_l1qc_find_max_step")])

prop("C14", "Constrained l1 solver starts, stops and reports honestly",
 "The constrained l1 solver reports an infeasible start with the documented code and leaves the guess untouched exactly when the starting point violates the quadratic constraint, and otherwise returns status success with an l1 value equal to the l1 norm of the returned vector and a returned vector that still satisfies the constraint. It performs no more barrier rounds than the tolerance prescribes nor more Newton steps than the configured maximum per round, and the reported totals of Newton and linear-solver iterations are the numbers actually performed. For a non-zero starting point the initial bounds strictly dominate its absolute values; every round starts from the functional evaluated at the current point with the round's barrier parameter, which grows by the configured factor from round to round; and the measurements are not modified.",
 ["inputs", "histories", "configurations"], "all starting points, measurements, options, and all outcomes of the inner linear solver and line search",
 "The driver's control flow depends on the outcomes of inner solvers that tests only sample on a few images.",
 ["src/l1qc_newton.c"],
 [("driver", "src/l1qc_newton.c: l1c_l1qc_newton"), ("initialisation", "src/l1qc_newton.c: _l1c_l1qc_newton_init, _l1c_l1qc_check_feasible_start")])

prop("C15", "NESTA projection step is the exact constrained minimiser",
 "For every measurement operator with orthonormal rows, every centre, gradient, positive noise level and measurement vector, the projection step of the NESTA solver returns a point whose measurement misfit is at most the noise level. That point is the minimiser of the quadratic model (gradient term plus half the Lipschitz constant times squared distance to the centre) over the constraint set: it is the unconstrained minimiser when that is feasible and otherwise satisfies the optimality conditions on the boundary. Centre, gradient and measurements are not modified.",
 ["inputs"], "all centres, gradients, measurements, positive noise levels for row-orthonormal operators within the size bound",
 "The active/inactive switch and multiplier formula need both regimes for all data.",
 ["src/nesta.c"],
 [("projection", "src/nesta.c: l1c_nesta_project")])

prop("C16", "NESTA smoothed objective and gradient are consistent",
 "For every dictionary, point and smoothing parameter the NESTA solver's objective value equals the Huber-type smoothed l1 norm of the analysis coefficients and its gradient equals the dictionary applied to the coefficients divided by the smoothing parameter and clipped to [-1, 1]. The gradient is the derivative of the objective. The evaluation does not change the current point or the measurements.",
 ["inputs"], "all points, dictionaries and smoothing parameters within the size bound",
 "Each coefficient can be in the linear or quadratic zone with either sign; all combinations must agree.",
 ["src/nesta.c"],
 [("objective", "src/nesta.c: l1c_nesta_feval")])

prop("C17", "NESTA driver validates sizes, follows its schedule, returns a feasible point",
 "The NESTA solver rejects a signal or measurement length that disagrees with the transform set without touching the guess; otherwise its smoothing and tolerance parameters move geometrically, over the configured number of continuation rounds, from the documented starting values (0.9 times the largest analysis coefficient of the back-projected data, and 0.1) to exactly the requested final ones. Each inner round stops when the relative change of the objective against the mean of the last (up to ten) values falls below the round's tolerance, or at the iteration cap, and follows the accelerated-gradient weights of the method. The returned vector satisfies the noise constraint and the measurements are not modified.",
 ["inputs", "histories", "configurations"], "all measurements, guesses, options; all sequences of objective values the stopping rule may see",
 "The stopping rule depends on a sliding window over an arbitrary history of objective values; schedule errors only change accuracy.",
 ["src/nesta.c"],
 [("driver", "src/nesta.c: l1c_nesta"), ("schedule", "src/nesta.c: l1c_nesta_setup"), ("window", "src/nesta.c: _l1c_push_fmeans_fifo, _l1c_mean_fmean_fifo")])

prop("C18", "Total-variation denoiser performs the split-Bregman iteration it documents",
 "For every image with at least three rows and columns, positive weight and tolerance, the anisotropic total-variation denoiser starts from the noisy image, and each of its rounds performs the documented Gauss-Seidel sweeps for the regularised least-squares problem, soft-thresholds the shifted differences and updates the Bregman variables in both directions. It stops when the relative change of the image (norm of the change over the norm of the new image; the image before the first round counts as zero) falls below the tolerance, or after the configured number of rounds, and returns the last image. The building blocks (threshold, sweeps, right-hand side, inverse diagonal) equal their definitions at every pixel including borders and corners, and the noisy image is not modified.",
 ["inputs", "histories"], "all images, weights and tolerances; shapes and rounds within the bound",
 "Border and corner stencils and the order of updates differ by terms too small to fail an image-level tolerance.",
 ["src/bregman.c", "src/TV.c"],
 [("driver", "src/bregman.c: l1c_breg_anistropic_TV"), ("pieces", "src/bregman.c: breg_shrink1, breg_anis_guass_seidel, breg_anis_jacobi, breg_anis_rhs, hess_inv_diag")])

prop("C19", "Vector kernels compute their definition for every length",
 "Every vector kernel (scaled sums, element-wise product, fused product-plus, fill, absolute value, 1-norm, sum, maximum, scaled log-sum, absolute and relative Euclidean error) computes its mathematical definition for every vector length, including lengths that are not a multiple of the vector width, and every value. The log-sum equals the sum of the logarithms of the scaled entries whatever the magnitudes in range. Kernels write exactly the requested number of outputs, tolerate the aliasing of output with an input that the library itself uses, and do not modify their inputs.",
 ["inputs"], "all values, all lengths up to the bound covering every remainder modulo the unrolling",
 "Remainder handling depends on the length modulo the vector width; tests use one or two lengths.",
 ["src/l1c_math.c", "src/vcl/vcl_math.cpp"],
 [("kernels", "src/l1c_math.c"), ("vectorised kernels", "src/vcl/vcl_math.cpp: vcl_logsum, vcl_sum, vcl_dxMy_pz")])

prop("C20", "Parallel loops are race free: results do not depend on the thread schedule",
 "In every parallel loop of the library, no two different iterations access the same memory location unless both only read it, or it is a declared reduction. Hence the result of every operation is the same (up to the rounding of reordered reductions) for every number of threads and every interleaving. This holds for every image shape and vector length.",
 ["schedules", "inputs"], "all pairs of distinct iterations of every parallel region, all thread counts; loop bounds symbolic where the address arithmetic allows",
 "A race may never show on a given machine or thread count; only reasoning about pairs of iterations covers all schedules.",
 ["src/TV.c", "src/bregman.c", "src/l1c_math.c"],
 [("parallel regions", "src/TV.c: #pragma omp"), ("parallel regions", "src/l1c_math.c: #pragma omp"), ("parallel regions", "src/bregman.c: #pragma omp")])

prop("C21", "Verbosity setting governs output: silent at zero, every n-th iteration above",
 "With verbosity zero the solvers print nothing to standard output, for every input and outcome, except warnings about a failed inner solve, a failed line search or a degenerate step bound. With a positive verbosity v the conjugate-gradient solvers print a status line for exactly every v-th iteration (plus the fixed header and summary), always through the replaceable print function. Replacing the print function returns the previous one and all later solver output goes to the replacement; verbosity never changes the numerical result.",
 ["inputs", "configurations"], "all verbosity values and all solver runs within the bound",
 "Output is not compared by any test over the range of verbosity values.",
 ["src/l1c_logging.c", "src/cgsolve.c", "src/nesta.c", "src/l1qc_newton.c"],
 [("print hook", "src/l1c_logging.c: l1c_replace_printf"), ("solver output", "src/cgsolve.c, src/nesta.c, src/l1qc_newton.c")])

prop("C22", "JSON data loader returns faithful arrays or an error, never garbage",
 "For every JSON document object (with arrays whose elements are numbers), extracting a number, integer, number array or integer array by name yields success with exactly the stored values and length, or a non-zero error with no array handed out when the name is missing, has the wrong type, or memory runs out. Loading a non-empty file returns its exact text, zero-terminated, and an unreadable file, a short read or text that does not parse gives a non-zero error. Nothing is leaked on any path.",
 ["inputs", "fault_sequences"], "all item types and values in arrays up to the bound, file-operation and allocation failures at every point",
 "Error paths (missing names, type mismatch, short reads, malformed text) are never exercised.",
 ["src/json_utils.c"],
 [("extraction", "src/json_utils.c: extract_json_*"), ("loading", "src/json_utils.c: load_file_as_text, load_file_to_json")])

prop("C23", "Python binding validates arguments, maps options and keeps references balanced",
 "The Python functions reject wrong-dimensional, mis-sized or unconvertible arguments with an exception and otherwise hand the core exactly the sizes, contiguous data, sample positions and option values the caller gave (documented defaults where omitted). They return a new array holding the core's result together with its status fields, and do not modify caller arrays. On every path, successful or not, array references and buffers are balanced: nothing is leaked and nothing is released twice.",
 ["inputs", "fault_sequences", "configurations"], "all combinations of argument shapes and option values (mock interpreter API), every failure point of that API",
 "Reference-count and cleanup errors on failure paths are invisible to functional tests.",
 ["interfaces/python/l1cPy.c"],
 [("entry points", "interfaces/python/l1cPy.c: _l1qc_dct, _nesta_dctTV, _breg_anistropic_TV")])

prop("C24", "Matlab/Octave gateways validate arguments and pass data through faithfully",
 "The gateway functions raise an error for too few arguments or arguments of the wrong type, shape or inconsistent size, before calling the core. Otherwise they pass exactly the caller's data to the core: one-based (integer-valued) sample positions become zero-based, every option field reaches the option of the same name, and the image to denoise (stored by columns) reaches the row-major core with the right dimensions. Recovery sizes are passed in the order given. The outputs have the documented shape and contain exactly what the core produced (after synthesis for NESTA), caller arrays are not modified, and temporary memory and transforms are released before returning or raising.",
 ["inputs", "configurations"], "all argument shapes and option values within the bound (mock interpreter API)",
 "Example scripts only run the default path; index shifts and option mix-ups need each field varied.",
 ["interfaces/mex/l1qc_dct_mex.c", "interfaces/mex/nesta_dctTV_mex.c", "interfaces/mex/breg_anistropic_TV_mex.c", "interfaces/mex/l1c_mex_utils.c"],
 [("gateways", "interfaces/mex/*_mex.c: mexFunction"), ("helpers", "interfaces/mex/l1c_mex_utils.c")])

prop("C25", "Cosine recovery entry point wires setup, solver and output together correctly",
 "The one-call cosine recovery function starts the solver from the adjoint of the measurements, passes the options unchanged, and on success stores in the caller's output the synthesis of the solver's solution and the solver's statistics. The caller's measurements are never modified and need no special alignment. On any failure a non-zero status is returned (the solver's own status when the solver failed), the output is left untouched, and all temporary memory and the transform set are released.",
 ["inputs", "fault_sequences", "configurations"], "all measurements, sample positions, options and solver outcomes within the bound",
 "The wiring is only tested on one image, and error statuses not at all.",
 ["src/l1qc_dct.c"],
 [("entry point", "src/l1qc_dct.c: l1qc_dct")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
