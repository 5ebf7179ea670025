#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name='observed state', meaning=state, where=files[0])], observe_at=[observe], hook_needed=None)))
L = "src/sigmaepsilon/math/linalg/"
O = "src/sigmaepsilon/math/optimize/"
F = "src/sigmaepsilon/math/function/"
A = "src/sigmaepsilon/math/approx/"
M = "src/sigmaepsilon/math/"

p("C01", "Tensors stay objective under every history of frame changes",
  "Whatever sequence of in-place changes a reference frame goes through (new axes, item assignment, in-place arithmetic operators, "
  "universal functions writing into the frame, orientation/rotation, in-place transposition), every live vector or tensor of any order "
  "expressed in it, single or stacked, keeps denoting the same physical quantity: its components in the ambient frame do not change and its "
  "stored components are those of the changed frame. "
  "The same holds when a tensor is given another frame, and when an in-place operation replaces the frame object by one of a more general class.",
  ["histories", "inputs"],
  "All histories of frame/tensor operations over any number of frames and tensors (orders 1 to 4, single and stacked, created and destroyed at any time), all non-singular axes.",
  "Tests mutate one frame once or twice with one or two fixed vectors; they do not reach mixed-order registries, class-changing operators with several registered tensors, deletions, or longer histories.",
  [L+"frame.py", L+"meta.py", L+"vector.py", L+"tensor.py", L+"tr.py", L+"utils.py"],
  [("frame mutation updates registered tensors", L+"frame.py:ReferenceFrame.axes"), ("in-place operators and class casting", L+"frame.py:inplace_binary"),
   ("registry", L+"meta.py:FrameLike"), ("re-framing", L+"meta.py:TensorLike.frame")],
  "axes and class of every live frame, components and frame of every live tensor", "return of every public call")

p("C02", "Operations touch only what they are documented to touch",
  "An operation that is not an in-place one (copies, out-of-place frame arithmetic, new orientations, duals, transposes, sums, differences, scalings, products, showing components) "
  "leaves its operands and every other existing frame and tensor unchanged, and its result denotes the right quantity and shares no mutable data with its operands: "
  "later changes of either are never visible in the other, except that tensors sharing a frame object follow that frame (the arrays an object exposes, `axes` and `array`, and `show()`/`dcm()` without arguments, are live views by design and not results in this sense). "
  "An operation that is rejected with an error leaves every frame and tensor as it was.",
  ["histories", "inputs"],
  "All interleavings of out-of-place operations, copies, rejected operations and in-place mutations over any set of live frames and tensors.",
  "Tests look at the returned value of an operation, hardly ever at the operands or at third objects afterwards, and never after a failed operation followed by further mutations.",
  [L+"frame.py", L+"meta.py", L+"abstract.py", L+"vector.py", L+"tensor.py"],
  [("copy protocols", L+"meta.py:TensorLike.__copy__"), ("copy methods", L+"vector.py:Vector.copy"), ("frame copies", L+"frame.py:ReferenceFrame.copy"),
   ("arithmetic", L+"abstract.py:AbstractTensor")],
  "axes/class of all frames, components/frame of all tensors, identity of shared frames", "return (normal or exceptional) of every public call")

p("C03", "Tensor algebra is independent of the frames operands are expressed in",
  "Sum, difference, scaling, negation, transposition, dual representation, dot product (vectors, second-order tensors and their mixtures), contraction of higher-order tensors over chosen axes and cross product "
  "give a result that denotes the same physical quantity as the textbook operation on the ambient components, whichever (possibly different, skewed or scaled) frames the operands are expressed in, and also when a target frame is requested for the result. "
  "In-place variants give the same value as their out-of-place counterparts.",
  ["inputs", "histories"],
  "All operand pairs, all frames (orthonormal, rectangular, skew, left-handed), all orders supported by the operation.",
  "Tests evaluate products mostly in orthonormal frames or with the identity/symmetric tensors, for which wrong index placement or a missing metric factor is invisible.",
  [L+"abstract.py", L+"utils.py", L+"vector.py", L+"tensor.py", L+"tr.py"],
  [("dot", L+"utils.py:dot"), ("cross", L+"utils.py:cross"), ("arithmetic", L+"abstract.py:AbstractTensor"), ("dual", L+"tensor.py:Tensor.dual")],
  "ambient components of operands and result", "return of the operation")

p("C04", "A frame never claims a regularity it does not have",
  "At any point of any history, a frame whose class or predicates say it is rectangular or orthonormal really has mutually perpendicular (and unit) base vectors, and the predicates of general frames are true exactly when the axes have the property; "
  "operators cast to the most specific class that is still guaranteed (scaling keeps rectangular frames rectangular and turns Cartesian ones rectangular, rotation keeps the class, any other in-place operator gives a general frame). "
  "Metric (Gram) matrix, dual frame, volume and transformation matrices between frames always agree with the current axes.",
  ["histories", "inputs"],
  "All histories of operations over general, rectangular and Cartesian frames; all axes.",
  "Tests check class changes for one operator at a time and the derived quantities on freshly created frames only.",
  [L+"frame.py", L+"logical.py", L+"utils.py"],
  [("class casting", L+"frame.py:inplace_binary"), ("shortcuts of Cartesian frames", L+"frame.py:CartesianFrame"), ("axes setter", L+"frame.py:ReferenceFrame.axes"),
   ("predicates", L+"logical.py:is_orthonormal_frame")],
  "class, predicates, axes, Gram matrix, dual, volume, transformation matrices", "after every public call")

p("C05", "A stack of tensors behaves as its members do one by one",
  "For every stack (one or more leading axes) of vectors, second-order or fourth-order tensors in one common frame or with one frame per leading item, showing components, re-framing, frame mutation, transposition, arithmetic and re-orientation "
  "give, item by item, exactly what the same operation gives for the single tensor in its own frame, in the same order and shape. "
  "Asking whether an object is a stack is answered truthfully.",
  ["inputs", "configurations"],
  "All stack shapes, all orders, all combinations of single/multiple frames for source and target, all operations defined on stacks.",
  "Tests check a few shapes with one kernel each and compare shapes more often than values; the compiled parallel kernels for different shapes are separate code paths.",
  [L+"tr.py", L+"tensor.py", L+"vector.py", L+"utils.py", L+"meta.py"],
  [("second-order kernels", L+"tr.py:_tr_tensors2"), ("fourth-order kernels", L+"tr.py:_tr_tensors4x3"), ("vector kernels", L+"utils.py:show_vector"),
   ("frame kernels", L+"utils.py:show_frame"), ("bulk bookkeeping", L+"meta.py:TensorLike.is_bulk")],
  "component arrays of the stack and of its members", "return of the operation")

p("C06", "The genetic optimizer's champion is the best candidate ever evaluated",
  "After every evolution step of the genetic optimizer, the champion is a candidate that really occurred, its reported objective value is the objective at its reported point (which is the decoding of its reported chromosome), and no member of a generation evaluated since the last reset is strictly better in the chosen sense (maximization or minimization; the sense is fixed between resets). "
  "The champion's value therefore never gets worse during a run or across recycled runs, the reported optimizer state (point and value) and the object returned by a run equal the champion, and its age counts the steps since it became champion (one at the step it became champion; only a strictly better candidate replaces it). Candidates are ordered by their values and are equal if their chromosomes are.",
  ["histories", "inputs", "schedules"],
  "All objective functions (plain callables and symbolic functions), both senses, all parameter settings, all random draws, all histories of solve/evolve/reset/recycle.",
  "Tests run a handful of seeds and check that the final value is near the known optimum.",
  [O+"ga.py", O+"bga.py", O+"state.py"],
  [("champion update", O+"ga.py:GeneticAlgorithm._celebrate"), ("best of population", O+"ga.py:GeneticAlgorithm.best_candidate"), ("evaluation", O+"ga.py:GeneticAlgorithm.evaluate")],
  "champion (chromosome, point, value, age), optimizer state, evaluated candidates", "after every evolve/solve call, and every objective evaluation")

p("C07", "The genetic optimizer's run protocol and bookkeeping are exact",
  "A run performs at least one generation and goes on until the stopping rule (champion older than the age limit) or the iteration limit is met, but never ends below the minimum number of iterations nor goes on at the maximum (iterations are counted since the last reset, over recycled runs), and reports which of the two ended it (the iteration limit taking precedence); a non-recycled run starts from a clean state while a recycled one continues from the previous one, including after a failure. "
  "The reported number of iterations equals the generations performed by runs and the number of function evaluations equals the number of candidates in the completely evaluated populations (each population being evaluated once); a run whose objective fails raises, and reports failure with an error status and message, and the failed generation is the next one to be evaluated. "
  "Inconsistent settings are rejected with an error and change nothing; valid ones take effect.",
  ["histories", "configurations", "fault_sequences"],
  "All histories of reset/solve/evolve/recycle with all limits, ages, and an objective that may fail at any evaluation.",
  "Tests check one or two fixed runs; no test drives failing objectives at different points, recycling after failure, or the interaction of the three limits.",
  [O+"ga.py", O+"state.py"],
  [("run loop", O+"ga.py:GeneticAlgorithm.solve"), ("settings", O+"ga.py:GeneticAlgorithm.set_solution_params"), ("reset", O+"ga.py:GeneticAlgorithm.reset"), ("result export", O+"state.py:OptimizerState.to_scipy")],
  "status, optimizer state counters, success flag, message", "after every public call")

p("C08", "Populations of the binary genetic optimizer are always well-formed",
  "In every generation the population has exactly the configured size (rounded up to a multiple of four), all genes are 0 or 1, and each chromosome decodes to a point inside the given ranges by the binary encoding (all zeros to the lower and all ones to the upper end). "
  "The next generation consists of the selected parents followed by their offspring: the elite (best members as configured) always survive, every other parent comes from the current population, and without mutation each offspring pair carries, gene by gene, exactly the genes of one pair of parents, no parent being paired twice in a generation. "
  "Every parent that is not there as elite has won a tournament of three random non-elite members. Crossover cuts chromosomes at the requested number of places (any place between genes being possible) and happens with the configured probability, without it offspring are copies of their parents; mutation flips each gene with the configured probability (never at 0, always at 1).",
  ["histories", "inputs", "schedules"],
  "All population sizes, chromosome lengths, dimensions, ranges, elitism settings and probabilities, all random draws.",
  "Tests check the shapes for one configuration; the random operators are never checked for what they return.",
  [O+"bga.py", O+"ga.py"],
  [("populate", O+"bga.py:BinaryGeneticAlgorithm.populate"), ("decode", O+"bga.py:BinaryGeneticAlgorithm.decode"), ("crossover", O+"bga.py:BinaryGeneticAlgorithm.crossover"),
   ("mutation", O+"bga.py:BinaryGeneticAlgorithm.mutate"), ("selection", O+"bga.py:BinaryGeneticAlgorithm.select"), ("elite", O+"ga.py:GeneticAlgorithm.divide")],
  "genotypes, phenotypes and fitness of every generation", "after every generation")

p("C09", "Linear programs are solved for the problem that was stated",
  "For every linear program given symbolically, a reported solution satisfies all stated constraints (strict inequalities as their closure), bounds and integrality requirements and no feasible point has a better objective, the reported objective value being the objective at the reported point; infeasible and unbounded problems are reported as such, and problems that are not linear programs of the declared variables (a nonlinear objective or constraint, a foreign variable, a function or relation that is not symbolic or has no known operator) are refused. "
  "The outcome does not depend on the order of variables or constraints, on how a constraint is written (sides, sign, equivalent operator), on the sparse/dense option, or on maximizing f versus minimizing -f.",
  ["inputs", "configurations"],
  "All small integer-coefficient programs in any number of variables with every relation kind, bounds and integrality form.",
  "Tests solve a few textbook programs with one formulation each.",
  [O+"lp.py", F+"relation.py", F+"function.py"],
  [("assembly", O+"lp.py:LinearProgrammingProblem._to_scipy"), ("solution", O+"lp.py:LinearProgrammingProblem.solve"), ("coefficients", F+"function.py:Function.linear_coefficients")],
  "solver status, point and objective value", "return of solve")

p("C10", "Symbolic functions mean what their expression means",
  "A function built from a string or symbolic expression evaluates, at every point and with the variables in the given order, to the value, gradient and Hessian of that expression (values also for arrays of points at once), whether or not every variable occurs in it and whatever assumptions the symbols carry. "
  "Its reported dimension, linearity, and (linear) coefficients describe that same expression, and substituting values gives the function of the remaining expression, leaving the original unchanged unless in-place is requested; the variables left keep their order (all are kept if none is left). The named test functions are the textbook functions of (x, y) and their listed optimums are minimum points.",
  ["inputs", "programs"],
  "All polynomial expressions, variable lists/orders, evaluation points and substitution sets.",
  "Tests evaluate a few named functions at a few points.",
  [F+"function.py", F+"symutils.py", F+"metafunction.py"],
  [("symbolization", F+"symutils.py:symbolize"), ("decoding", F+"symutils.py:decode"), ("coefficients", F+"function.py:Function.coefficients"), ("substitution", F+"function.py:Function.subs")],
  "values, gradients, Hessians, coefficients, flags", "return of each call")

p("C11", "Relations accept exactly the points that satisfy them",
  "A relation given as a string with an operator, or as an expression with an operator, is satisfied at a point exactly when the stated (in)equality between its two sides holds there, for every operator and any arrangement of terms on the two sides. "
  "It is of the equality kind exactly for '=' and of the inequality kind exactly for '<', '<=', '>' and '>='; malformed relations and operators not matching the requested kind are rejected. Its LaTeX form states the relation with that operator.",
  ["inputs", "programs"],
  "All pairs of polynomial sides, all operators, all ways of giving the operator, all points including ones on the boundary.",
  "Tests cover one example per operator, rarely on the boundary.",
  [F+"relation.py", F+"utils.py"],
  [("parsing", F+"utils.py:parse_expression"), ("dispatch", F+"relation.py:Relation.__new__"), ("evaluation", F+"relation.py:Relation.relate")],
  "truth value at points, class of the relation", "return of construction and relate")

p("C12", "Jagged arrays and CSR matrices are lossless views of the same rows",
  "A jagged array built in any of the supported ways (flat data with row widths, lists of rows, dense arrays, awkward arrays) holds exactly the given rows in order; row widths, size, jaggedness, flattening, concatenation/stacking and conversion to lists, awkward, NumPy, SciPy and CSR all describe these same rows, with missing trailing entries as zeros in matrix form. "
  "A CSR matrix built from any supported input gives back the same matrix, and its row values and column indices are the same inside and outside compiled code.",
  ["inputs", "programs"],
  "All row-width patterns (including equal widths, single rows and empty rows), all values, all construction and conversion chains.",
  "Tests convert two or three fixed arrays.",
  [L+"sparse/jaggedarray.py", L+"sparse/csr.py", L+"sparse/utils.py", M+"utils.py"],
  [("construction", L+"sparse/jaggedarray.py:get_data"), ("conversion", L+"sparse/csr.py:csr_matrix"), ("row access in compiled code", L+"sparse/csr.py:row")],
  "row lists of every representation", "return of each conversion")

p("C13", "Unique-element analysis of 2d data is consistent and complete",
  "For every integer 2d array (dense, jagged or awkward) the unique values are strictly increasing and are exactly the values that occur, the counts are the numbers of occurrences, the inverse has the shape of the input and reconstructs it from the unique values, and the index lists give, for each value, every position where it occurs exactly once, in row-major order. "
  "Each requested output is the same whichever other outputs are requested with it, and the dense and jagged routes agree on the same data.",
  ["inputs"],
  "All integer arrays, including negative and repeated values, single rows/columns, and all combinations of requested outputs.",
  "Tests check one or two small arrays.",
  [M+"arraysetops.py", L+"sparse/jaggedarray.py"],
  [("unique", M+"arraysetops.py:unique2d")],
  "unique values, counts, inverse, index lists", "return of the call")

p("C14", "Rooted level structures are breadth-first layers and always terminate",
  "For every undirected graph and root, the level structure maps 0,1,2,... without gaps to non-empty sets of nodes such that level i contains exactly the nodes whose shortest distance from the root is i, nodes unreachable from the root being on no level, and the computation always terminates. "
  "The pseudo-peripheral candidates are the root and the whole last level of a level structure in which no last-level node offers a deeper, or an equally deep but narrower, structure.",
  ["inputs"],
  "All graphs (connected or not, with or without self-loops), all roots, all node numberings.",
  "Tests check two or three connected graphs.",
  [M+"graph/utils.py", M+"graph/graph.py", L+"sparse/csr.py"],
  [("level structure", M+"graph/utils.py:rooted_level_structure"), ("pseudo-peripheral nodes", M+"graph/utils.py:pseudo_peripheral_nodes"), ("adjacency", M+"graph/graph.py:Graph.adjacency_matrix")],
  "levels of the structure, returned nodes", "return of the call")

p("C15", "Nearest neighbour search returns the true nearest neighbours",
  "For every point cloud, query set and number of neighbours, the search returns for each query point, in order of distance, indices of points such that no other point is closer than the reported ones, and the reported distances are the distances to the reported points; with no query set the cloud itself is queried. "
  "With a distance limit only points within that limit are reported, missing ones being marked by the number of points and an infinite distance. The approximator built on the search returns, for each target point, the mean of the data over the nearest points found (within its limit), for whatever data it currently holds.",
  ["inputs", "configurations"],
  "All point clouds with or without ties, all query sets, neighbour counts, limits, and tree settings.",
  "Tests only check that a call goes through.",
  [M+"knn.py", A+"mls.py"],
  [("search", M+"knn.py:k_nearest_neighbours")],
  "returned indices and distances", "return of the call")

p("C16", "Linear systems with prescribed unknowns are solved exactly",
  "For every system with a unique solution, all solution methods return that solution for one or several right-hand sides; with prescribed unknowns the prescribed values are returned unchanged, every equation belonging to a free unknown is satisfied, and the returned residual is the image of the solution minus the right-hand side (zero at free unknowns). "
  "Unless in-place work is requested the inputs are left unchanged, and the elimination methods report a system that has no unique solution as singular rather than answering it.",
  ["inputs", "configurations"],
  "All small systems, all prescription patterns, all methods, single and multiple right-hand sides.",
  "Tests solve two systems with one prescribed unknown.",
  [L+"solve.py"],
  [("driver", L+"solve.py:linsolve"), ("elimination", L+"solve.py:_GaussJordan"), ("back substitution", L+"solve.py:backsub")],
  "solution, residual, inputs after the call", "return of the call")

p("C17", "Small-matrix kernels compute the true inverse, determinant and rank",
  "For every non-singular 2x2 and 3x3 matrix and every stack of them, all dedicated inverse, adjugate and determinant routines agree with the exact values; the generalized inverse is the two-sided inverse or the minimum-norm one-sided inverse of a full-rank matrix and an error otherwise; the rank predicates are true exactly for matrices of full (row, column) rank. "
  "The permutation tensor is +1/-1 on even/odd permutations and 0 elsewhere in any dimension, norms and normalizations are row-wise Euclidean, and the Gram matrix, the dual base and the kernels that show vectors and frames in other frames are those of the given axes.",
  ["inputs"],
  "All matrices of the stated sizes, all stacks, all dimensions.",
  "Tests check a few random well-conditioned matrices of one size and sign pattern, and some kernels not at all by value.",
  [L+"utils.py", L+"logical.py"],
  [("inverses", L+"utils.py:inv3x3"), ("determinants", L+"utils.py:det3x3"), ("generalized inverse", L+"utils.py:generalized_inverse"), ("rank predicates", L+"logical.py:has_full_rank"),
   ("permutation tensor", L+"utils.py:permutation_tensor")],
  "returned arrays and booleans", "return of the call")

p("C18", "Least-squares approximations reproduce what their basis can represent",
  "Plain, weighted and moving least-squares approximations of degree d built from enough points in general position reproduce every polynomial of degree at most d exactly, together with its first and second derivatives, at every point, in one to three dimensions and for several data columns at once; a fit of arbitrary data is the (weighted) least-squares optimum. "
  "Moving approximations use the weight function they are given, are linear in the data, do not depend on the order of the data points and, with constant or cubic weights, return the derivatives of the values they return. The gradient and Hessian of the weight functions are those of their values; data and points handed over are left untouched.",
  ["inputs", "configurations"],
  "All polynomials up to the degree, all unisolvent point sets, all evaluation points, dimensions, degrees and weight functions.",
  "Tests fit a few noisy sets and check tolerance or that calls go through.",
  [A+"ls.py", A+"ls_approx.py", A+"ls_poly.py", A+"ls_preproc.py", A+"mls.py", A+"functions.py"],
  [("fitting", A+"ls.py"), ("bases", A+"ls_poly.py"), ("approximators", A+"ls_approx.py"), ("moving approximation", A+"mls.py"), ("weights", A+"functions.py")],
  "values and derivatives of the fitted function", "return of the approximation call")

p("C19", "Lagrange shape functions interpolate their nodes",
  "For every set of distinct nodes, the generated Lagrange functions are one at their own node and zero at the others, sum to one everywhere, reproduce every polynomial of degree below the number of nodes, and their returned derivatives (up to the third) are the derivatives of the returned functions; symbolic and compiled forms agree. "
  "A function requested to take given values at given points takes exactly these.",
  ["inputs", "configurations"],
  "All node sets (given explicitly or by count), all evaluation points, all numbers of nodes within numeric reach, symbolic and numeric output.",
  "Tests check two or three node sets at the nodes only.",
  [A+"lagrange.py"],
  [("1d generator", A+"lagrange.py:gen_Lagrange_1d"), ("approximation", A+"lagrange.py:approx_Lagrange_1d")],
  "values of the functions and derivatives", "return of the generated functions")

p("C20", "Gauss rules integrate polynomials exactly over the reference domain",
  "For every combination of point counts in one to three dimensions, the returned points and weights integrate every monomial of degree at most 2n-1 in each direction exactly over [-1,1] to the power of the dimension, with positive weights and points inside the domain, every point occurring once, with the first coordinate varying slowest. "
  "The axis with its own point count is the one to which that count was given.",
  ["configurations", "inputs"],
  "All point counts per direction, all monomials within the exactness degree.",
  "Tests compare a couple of rules with stored numbers, mostly with equal counts in all directions.",
  [M+"numint.py"],
  [("rules", M+"numint.py:gauss_points")],
  "points and weights", "return of the call")

p("C21", "Array utilities are pure and satisfy their element-wise definitions",
  "Repeating, tiling, diagonal repetition, flattening, clipping, range mapping, row finding, equal-row matching, column counting, dimension lifting, evenly spaced paths, histogram bin centres, minima/maxima, the products of matrices, comparison and type predicates and boolean conversion give exactly the array their definition prescribes for every input of the supported shapes. "
  "They never modify their inputs.",
  ["inputs"],
  "All arrays of the supported ranks and types, including empty-width, single-element and repeated-value ones.",
  "Tests call most of these utilities once with one input.",
  [M+"utils.py", M+"hist.py", M+"logical.py", M+"decorate.py", L+"utils.py"],
  [("array helpers", M+"utils.py"), ("predicates", M+"logical.py"), ("paths", L+"utils.py:linspace")],
  "returned arrays, inputs after the call", "return of the call")

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
