"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os

C = "jaxfg/core/"
S = "jaxfg/solvers/"
P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": a,
        }
    )


prop(
    "P01",
    "A storage layout is an exact, type-grouped partition of the storage vector",
    "For every sequence of distinct variables, the layout built from it gives each variable its own block of the storage vector, "
    "of the variable's full (global) or tangent (local) dimension; the blocks are disjoint, leave no gap, and their total is the layout's dimension. "
    "Variables of one type are adjacent and in input order, types appear in order of first appearance, and the per-type start index and count describe exactly that type's blocks. "
    "Listing the layout's variables or types yields them in ascending storage order.",
    ["inputs", "configurations"],
    "all finite sequences of distinct variables over any mix of variable types, for both the local and the global parameterisation",
    "Tests use a handful of variables of one or two types; an off-by-one that needs three types, interleaved types or a type whose tangent and parameter dimensions differ never shows.",
    [C + "_storage_layout.py", C + "_variables.py"],
    [("StorageLayout.make", C + "_storage_layout.py"), ("StorageLayout.get_variables", C + "_storage_layout.py"), ("StorageLayout.get_variable_types", C + "_storage_layout.py")],
)
prop(
    "P02",
    "Assignments store and return exactly the value given for each variable",
    "Assignments built from defaults, from a dictionary, or from a partial dictionary return, for every variable, the value supplied for it or else its type's default value. "
    "Reading one variable, all variables of a type, or the whole assignment as a dictionary are views of the same stored values. "
    "Setting one variable's value returns new assignments in which that variable has the new value and every other variable is unchanged, and leaves the original assignments untouched.",
    ["inputs", "histories"],
    "all variable sets, all dictionaries of values (complete, partial or empty), and all sequences of reads and writes",
    "The tests never call the single-value setter on mixed types, read stacked values of the second or later type, or use partial dictionaries.",
    [C + "_variable_assignments.py"],
    [("VariableAssignments constructors", C + "_variable_assignments.py"), ("get_value / get_stacked_value / set_value / as_dict", C + "_variable_assignments.py")],
)
prop(
    "P03",
    "Changing the storage layout keeps every variable's value",
    "Converting assignments to another layout of the same variables yields assignments that carry the new layout and in which every variable has the same value as before, for local and for global parameterisations. "
    "Converting to an equal layout returns the same assignments, and a layout over a different variable set, dimension or parameterisation is rejected.",
    ["inputs", "configurations"],
    "all pairs of layouts over the same variables (any order, any mix of types) and all stored values",
    "Only one permutation with a single variable type is tested, so source/target mix-ups that cancel for equal block sizes are invisible.",
    [C + "_variable_assignments.py"],
    [("VariableAssignments.update_storage_layout", C + "_variable_assignments.py")],
)
prop(
    "P04",
    "Retraction applies each variable's own delta with its own manifold rule",
    "Retracting assignments by a local delta laid out over the same variables in the same order updates every variable to its own type's retraction of its current value by its own block of the delta. "
    "The layout of the assignments is kept, and retraction is rejected unless the base is a global and the delta a local parameterisation.",
    ["inputs", "configurations"],
    "all assignments over any mix of variable types and counts and all local delta vectors",
    "Tests only see retraction through converged optimisation of one variable type; a wrong block offset for a second type or wrong count is averaged away or never executed.",
    [C + "_variable_assignments.py", C + "_variables.py"],
    [("VariableAssignments.manifold_retract", C + "_variable_assignments.py"), ("VariableBase.manifold_retract", C + "_variables.py")],
)
prop(
    "P05",
    "Factor stacking represents every factor exactly once, on its own variables",
    "Building a graph puts every given factor in exactly one stack, only stacks factors whose structure, variable types and parameter shapes agree, and lays out exactly the variables that occur in some factor. "
    "In each stack, the k-th row of the stacked parameters and of the gathered variable values belong to the same original factor, so that stacked residuals and Jacobians equal those of evaluating each factor separately on its own variables' values. "
    "Evaluating a stack on assignments with a different layout is rejected rather than silently mis-read.",
    ["inputs", "programs"],
    "all finite collections of factors of any user-defined factor classes over any variables, including factors sharing variables and one-shot iterables",
    "Tests stack at most two factor kinds; factor collections that differ only in static structure or leaf shape, or that interleave groups, are never built.",
    [C + "_stacked_factor_graph.py", C + "_factor_stack.py", C + "_factor_base.py"],
    [("StackedFactorGraph.make grouping", C + "_stacked_factor_graph.py"), ("FactorStack.make", C + "_factor_stack.py"), ("FactorStack.compute_residual_vector / compute_residual_jacobian", C + "_factor_stack.py"), ("FactorBase.anonymize_variables", C + "_factor_base.py")],
)
prop(
    "P06",
    "Sparse Jacobian entries sit in the row and column they belong to",
    "For every graph, the value, row and column arrays of the whitened residual Jacobian are aligned entry by entry: an entry is the derivative of the whitened residual component in that row of the graph's residual vector with respect to the local-parameter component in that column of the graph's local layout. "
    "Every (residual component, connected local parameter) pair occurs exactly once per factor argument, and the matrix shape is (residual dimension, local storage dimension).",
    ["inputs", "programs"],
    "all graphs: any number of factor groups, any residual dimensions, any number of variables per factor, variables with differing local dimensions",
    "Misalignment needs several groups with different residual and variable dimensions; the tests' graphs are nearly homogeneous.",
    [C + "_stacked_factor_graph.py", C + "_factor_stack.py"],
    [("FactorStack.compute_jacobian_coords", C + "_factor_stack.py"), ("StackedFactorGraph.compute_whitened_residual_jacobian", C + "_stacked_factor_graph.py"), ("StackedFactorGraph.make row offsets", C + "_stacked_factor_graph.py")],
)
prop(
    "P07",
    "Residual, cost and joint NLL are the sums over all factors they claim to be",
    "The graph's residual vector is the concatenation, over all factors, of each factor's residual whitened by that factor's own noise model, whatever layout the assignments use. "
    "The cost is the sum of squares of that vector, and it is returned together with that same vector. "
    "The joint negative log-likelihood is that cost plus, for every factor, minus two times the log absolute determinant of its square-root precision, for full and diagonal Gaussian models alike, and other noise models are rejected.",
    ["inputs", "configurations"],
    "all graphs over any noise models and all assignments in any layout",
    "The likelihood has no test and the cost is only observed through convergence.",
    [C + "_stacked_factor_graph.py"],
    [("StackedFactorGraph.compute_whitened_residual_vector", C + "_stacked_factor_graph.py"), ("StackedFactorGraph.compute_cost", C + "_stacked_factor_graph.py"), ("StackedFactorGraph.compute_joint_nll", C + "_stacked_factor_graph.py")],
)
prop(
    "P08",
    "Every solver iteration solves the subproblem at its current iterate",
    "In every nonlinear solver, each iteration linearises the graph at the current assignments with the residual of those assignments, hands the linear solver that Jacobian, the negative gradient (minus Jacobian-transpose times residual), the solver's damping (zero unless it is Levenberg-Marquardt) and the iteration number, and retracts the current assignments by the resulting step in the graph's local layout. "
    "The iteration counter starts at zero and grows by one per iteration, and the recorded cost and residual are those of the assignments recorded with them.",
    ["inputs", "histories", "configurations"],
    "all graphs, all initial assignments, all iteration counts, all four nonlinear solvers and all linear solvers",
    "Convergence tests still pass when the linearisation point, the residual or the damping lags by one iteration on easy problems.",
    [S + "_gauss_newton_solver.py", S + "_levenberg_marquardt_solver.py", S + "_dogleg_solver.py", S + "_fixed_iteration_gauss_newton_solver.py", S + "_nonlinear_solver_base.py"],
    [("_step of each solver", S), ("NonlinearSolverBase.solve", S + "_nonlinear_solver_base.py")],
)
prop(
    "P09",
    "A rejected trust-region step changes nothing but damping and counter",
    "In Levenberg-Marquardt and dogleg, a proposed step is accepted exactly when its quality (actual over linearly predicted cost change) is at least the configured minimum; a step whose quality is not a number is rejected. "
    "On acceptance the new assignments, cost and residual are all those of the proposal; on rejection all three remain those of the previous iterate, in the same layout.",
    ["inputs", "histories"],
    "all states and all proposed steps, including proposals that raise the cost or produce NaN",
    "The tests never force a rejection followed by another step, so stale or mixed state after a rejection goes unseen.",
    [S + "_levenberg_marquardt_solver.py", S + "_dogleg_solver.py", S + "_mixins.py"],
    [("accept/reject selection in LM", S + "_levenberg_marquardt_solver.py"), ("accept/reject selection in dogleg", S + "_dogleg_solver.py"), ("compute_step_quality", S + "_mixins.py")],
)
prop(
    "P10",
    "The dogleg step and trust radius follow Powell's dog leg rule",
    "The dogleg step is the Gauss-Newton step when that lies inside the trust radius, the steepest-descent step scaled to the radius when the Cauchy point lies outside it, and otherwise the point of the segment between Cauchy and Gauss-Newton points whose length equals the radius. "
    "The radius starts at its configured value, is halved when step quality is below 0.25, becomes the larger of itself and three times the step length when quality exceeds 0.75, and is otherwise kept.",
    ["inputs", "histories"],
    "all Jacobians, residuals, Gauss-Newton steps and radii",
    "The blending branch is only taken for particular ratios of step lengths and radius, which the test problems do not reach.",
    [S + "_dogleg_solver.py"],
    [("dogleg step computation", S + "_dogleg_solver.py"), ("radius update", S + "_dogleg_solver.py")],
)
prop(
    "P11",
    "Levenberg-Marquardt damping falls on success and rises, bounded, on failure",
    "Levenberg-Marquardt damping starts at its configured initial value and is used in the linear solve of the same iteration. "
    "After an accepted step it is divided by the damping factor; after a rejected step it is multiplied by the factor and clamped between the configured minimum and maximum.",
    ["inputs", "histories", "configurations"],
    "all sequences of accepted and rejected steps and all settings of the damping parameters",
    "Test problems accept nearly every step, so the increase and its bounds are never reached.",
    [S + "_levenberg_marquardt_solver.py"],
    [("damping update", S + "_levenberg_marquardt_solver.py")],
)
prop(
    "P12",
    "Solvers stop exactly at the iteration limit or a documented convergence test",
    "Iteration continues until the state is marked done, and it is marked done exactly when the number of completed iterations reaches the configured maximum or (for trust-region solvers: on an accepted step only) a convergence test holds. "
    "The tests are: relative cost change below tolerance; from the configured start iteration on, largest absolute change of any parameter under retraction by the negative gradient below tolerance; and step norm below (parameter norm + tolerance) times tolerance. "
    "The fixed-iteration solver performs exactly its configured number of iterations, unrolled or not, and ignores convergence.",
    ["inputs", "histories", "configurations"],
    "all solver configurations with a positive iteration limit, and all sequences of states",
    "Which criterion fires, and on which iteration, is not observable in the tests' final poses.",
    [S + "_mixins.py", S + "_nonlinear_solver_base.py", S + "_fixed_iteration_gauss_newton_solver.py", S + "_gauss_newton_solver.py", S + "_levenberg_marquardt_solver.py", S + "_dogleg_solver.py"],
    [("check_convergence", S + "_mixins.py"), ("check_exceeded_max_iterations", S + "_mixins.py"), ("optimisation loop", S + "_nonlinear_solver_base.py")],
)
prop(
    "P13",
    "Solving accepts any layout of the graph's variables and returns in that layout",
    "For every nonlinear solver, solving from initial assignments in any layout of the graph's variables first converts them to the graph's layout, and returns assignments in the layout of the initial assignments. "
    "Solving through the graph is the same as calling the solver on that graph, and evaluating residual, cost, likelihood or Jacobian also accepts any layout.",
    ["inputs", "configurations"],
    "all orders in which variables and factors can be listed, all four solvers, loop and unrolled variants",
    "One ordering test exists, for one solver.",
    [S + "_nonlinear_solver_base.py", S + "_fixed_iteration_gauss_newton_solver.py", C + "_stacked_factor_graph.py"],
    [("NonlinearSolverBase.solve", S + "_nonlinear_solver_base.py"), ("FixedIterationGaussNewtonSolver.solve", S + "_fixed_iteration_gauss_newton_solver.py"), ("StackedFactorGraph.solve", C + "_stacked_factor_graph.py")],
)
prop(
    "P14",
    "All views of a sparse matrix denote the same linear operator",
    "The product with a vector, the transpose, the dense form and the SciPy form of a sparse matrix all denote the matrix whose entry at (i, j) is the sum of the stored values with that coordinate, of the declared shape. "
    "Converting from SciPy and back preserves values, coordinates and shape, and a product with a vector of the wrong length is rejected.",
    ["inputs"],
    "all coordinate lists (unsorted, repeated coordinates, empty rows, non-square shapes) and values",
    "Tests use small random matrices without repeated coordinates.",
    ["jaxfg/sparse/_sparse_matrix.py"],
    [("SparseCooMatrix", "jaxfg/sparse/_sparse_matrix.py")],
)
prop(
    "P15",
    "Linear solvers solve the stated damped normal equations, whatever came before",
    "The CHOLMOD solver returns the solution of (AtA + (lambda + 1e-5) I) x = Atb for the matrix it was given in this call, whatever matrices were solved before. "
    "The conjugate-gradient solvers solve (AtA + lambda diag(AtA)) x = Atb from a zero start, with a Jacobi preconditioner and at most one iteration per unknown, to their configured tolerance, which for the inexact variant is eta / (iteration + 1).",
    ["inputs", "histories"],
    "all sparse Jacobians, right-hand sides, dampings, and all sequences of earlier solves in the same process",
    "A stale symbolic factorisation needs two same-sized problems of different sparsity in one process; damping is zero in most tests.",
    ["jaxfg/sparse/_linear_solve.py", "jaxfg/sparse/_sparse_matrix.py"],
    [("CholmodSolver", "jaxfg/sparse/_linear_solve.py"), ("conjugate gradient solvers", "jaxfg/sparse/_linear_solve.py")],
)
prop(
    "P16",
    "Gaussian noise models whiten residual and Jacobian with one same operator",
    "A full Gaussian multiplies residuals and Jacobians from the left by its square-root precision matrix; a diagonal Gaussian scales residual entries and the corresponding Jacobian rows by its square-root precision entries; neither depends on the residual when whitening a Jacobian. "
    "Models made from a covariance have a square-root precision whose whitened covariance is the identity, and report the residual dimension of the data they were made from.",
    ["inputs"],
    "all covariances, residuals and Jacobians of any dimension, including non-square Jacobians",
    "Tests use scalar or isotropic noise, for which transposes and row/column mix-ups do not matter.",
    ["jaxfg/noises/_gaussians.py"],
    [("Gaussian", "jaxfg/noises/_gaussians.py"), ("DiagonalGaussian", "jaxfg/noises/_gaussians.py")],
)
prop(
    "P17",
    "Huber wrapping weights residual and Jacobian with the same Huber weight",
    "With a Huber wrapper, a residual whose whitened norm n is below the threshold is whitened as by the wrapped model, and otherwise additionally scaled by sqrt(delta / n). "
    "Given the residual as whitened by the wrapper, the Jacobian whitened by the wrapped model is scaled by the same weight as that residual was.",
    ["inputs"],
    "all wrapped Gaussian models, thresholds and residuals, on both sides of the threshold",
    "The only Huber test checks that optimisation runs, at one threshold.",
    ["jaxfg/noises/_huber.py", C + "_stacked_factor_graph.py"],
    [("HuberWrapper", "jaxfg/noises/_huber.py")],
)
prop(
    "P18",
    "Factor Jacobians are derivatives with respect to each variable's local delta",
    "By default, a factor's Jacobian for each of its variables is the derivative of its residual with respect to that variable's parameters composed with that variable's retraction Jacobian at zero delta, in variable order and with parameters in flattening order. "
    "The prior and between factors compute the documented residuals, and their analytic Jacobians equal, at zero residual, the derivative of those residuals with respect to right-multiplied tangent deltas.",
    ["inputs", "programs"],
    "all factor classes, values of any pytree shape, and all Lie group values",
    "Optimisers tolerate approximate Jacobians, so a wrong sign or adjoint on one argument only slows convergence.",
    [C + "_factor_base.py", "jaxfg/geometry/_factors.py"],
    [("FactorBase.compute_residual_jacobians", C + "_factor_base.py"), ("PriorFactor", "jaxfg/geometry/_factors.py"), ("BetweenFactor", "jaxfg/geometry/_factors.py")],
)
prop(
    "P19",
    "Lie group variables use the matching group's identity, tangent and retraction",
    "Each Lie group variable class is bound to the group of its name; its default value is that group's identity and its local dimension is that group's tangent dimension. "
    "Its retraction is right-multiplication by the exponential of the delta, and its retraction Jacobian is the derivative of exactly that retraction at zero.",
    ["configurations", "inputs"],
    "the four Lie variable classes and user-defined ones, all group values and deltas",
    "Tests exercise only the two planar/spatial rigid-body classes, and only through optimisation.",
    ["jaxfg/geometry/_lie_variables.py"],
    [("LieVariableBase", "jaxfg/geometry/_lie_variables.py"), ("SO2/SE2/SO3/SE3 variables", "jaxfg/geometry/_lie_variables.py")],
)
prop(
    "P20",
    "Marginal covariances are the matching blocks of the inverse information matrix",
    "The sparse covariance is built from the information matrix of the graph linearised at the given assignments, with rows in the graph's local layout. "
    "The marginal of a list of variables is the symmetric block of its inverse at those variables' local indices, in the order asked for, and the dense form by either method is the whole inverse. "
    "An entry does not depend on which entries were queried before.",
    ["inputs", "histories"],
    "all graphs, all assignments, all lists of variables in any order, and all query sequences",
    "The one test asks for a fixed list of variables on one small graph in storage order.",
    ["jaxfg/experimental/_sparse_covariance.py"],
    [("SparseCovariance", "jaxfg/experimental/_sparse_covariance.py")],
)
prop(
    "P21",
    "No operation mutates its inputs or leaves hidden state behind",
    "No public operation of the library modifies an argument, an object reachable from one, or process-wide state, other than the memoisation of results that are functions of their key alone. "
    "In particular calling an operation twice with equal inputs gives equal results regardless of what was called in between.",
    ["histories", "programs"],
    "all sequences of library calls in one process, on shared assignments, graphs, factors and solvers",
    "Needs a second call that observes the leaked state; tests make one call per object.",
    ["jaxfg/", C, S, "jaxfg/sparse/_linear_solve.py", "jaxfg/experimental/_sparse_covariance.py"],
    [("all functions of the package", "jaxfg/")],
)
prop(
    "P22",
    "Container fields are static or traced exactly as their use requires",
    "Every field that decides Python control flow, shapes or indexing (layouts, variables, dimensions, factor counts, matrix shapes, unroll flag, unrolled iteration count, verbosity) is compile-time static, and every numeric field (storage, factor parameters, noise parameters, indices, residuals, solver tolerances and dampings) is traced. "
    "Static content is hashable and compares by value, and variables compare by identity.",
    ["configurations", "programs"],
    "all library containers passed through jit, vmap, grad and while-loops",
    "A numeric field made static still passes every test but recompiles per value, is invisible to vmap/grad, and stacks wrongly.",
    ["jaxfg/", C, S, "jaxfg/sparse/", "jaxfg/noises/", "jaxfg/geometry/_factors.py"],
    [("pytree dataclass declarations", "jaxfg/")],
)
prop(
    "P23",
    "Flattening and unflattening round-trip; canonical instances are unique per class",
    "For each variable class, flattening a value and unflattening the result gives back the value with the structure of the class's default value, and the parameter dimension is the length of the flattened default. "
    "The default retraction adds the delta to the flattened value, with local dimension equal to parameter dimension and its Jacobian being the derivative at zero delta. "
    "A class has one canonical instance, distinct per class, and the vector variable class of a given dimension is the same class each time it is requested and distinct for different dimensions.",
    ["programs", "inputs"],
    "all variable classes, including user-defined ones and subclasses of concrete ones, and all values",
    "Only vector and Lie values are tested; subclasses of concrete variables and multi-leaf values are not.",
    [C + "_variables.py"],
    [("VariableBase", C + "_variables.py"), ("RealVectorVariable", C + "_variables.py")],
)
prop(
    "P24",
    "Factor inputs are passed position by position and validated at every position",
    "The tuple handed to a factor's residual function holds the values of the factor's variables in declared order, wrapped in the named tuple class when the residual function is annotated with one. "
    "A wrong number of values, a value whose type contradicts the annotation at any position (including variable-length annotations), or a missing annotation is rejected.",
    ["programs", "inputs"],
    "all factor classes with plain, named or variable-length tuple annotations, and all value tuples",
    "Tests never pass a wrong value at a position other than the first, nor variable-length annotations.",
    [C + "_factor_base.py"],
    [("FactorBase.build_variable_value_tuple", C + "_factor_base.py"), ("FactorBase.get_variable_values_from_assignments", C + "_factor_base.py")],
)
prop(
    "P25",
    "The g2o loader turns every vertex and edge into the matching variable and factor",
    "Each vertex line yields one variable whose initial pose has the given translation and rotation, and each edge line yields one between factor from the first to the second named vertex with the given relative pose. "
    "The factor's square-root precision S satisfies StS = information matrix, where the information matrix is the symmetric matrix whose upper triangle is given in row-major order. "
    "One prior anchors the first pose at its initial value, and unknown line types are rejected.",
    ["inputs"],
    "all well-formed 2D and 3D g2o files within the pose limit",
    "Bundled data sets have nearly isotropic information matrices, hiding transposes and index mix-ups.",
    ["scripts/_g2o_utils.py"],
    [("parse_g2o", "scripts/_g2o_utils.py")],
)
prop(
    "P26",
    "A non-verbose solve prints nothing, and verbosity never changes results",
    "Every progress message of every solver is emitted only when the solver's verbose flag is set; with it unset no library operation writes to the console. "
    "Printing is a side output only: no value used by a computation depends on the verbose flag.",
    ["configurations"],
    "all solvers, all problem inputs, verbose on and off",
    "Tests run with the default flag and do not capture output.",
    [S, S + "_nonlinear_solver_base.py"],
    [("progress printing", S + "_nonlinear_solver_base.py")],
)
prop(
    "P27",
    "The conjugate-gradient path stays transformable by JAX",
    "Residual, cost and Jacobian evaluation, retraction, the conjugate-gradient solvers and, with verbosity off, every solver step using them contain no host callback, no conversion of a traced value to a Python or NumPy value, and no Python control flow on traced values. "
    "The unrolled fixed-iteration solver contains no data-dependent loop of its own, so it can be differentiated in reverse mode.",
    ["programs", "configurations"],
    "all uses under jit, vmap, jacfwd/grad of the listed operations",
    "The tests only transform one solver configuration.",
    ["jaxfg/sparse/_linear_solve.py", S, C + "_stacked_factor_graph.py", C + "_factor_stack.py", C + "_variable_assignments.py"],
    [("traced code reachable from solve with conjugate gradients", S), ("conjugate gradient solvers", "jaxfg/sparse/_linear_solve.py")],
)
prop(
    "P28",
    "Iterative solvers converge to a local minimum on well-conditioned problems",
    "Started close enough to a nondegenerate local minimum, Gauss-Newton, Levenberg-Marquardt and dogleg reach it to within floating-point tolerance.",
    ["inputs"],
    "all well-conditioned problems and all starts inside the basin of attraction",
    "Tests sample a few problems.",
    [S],
    [("solver iterations", S)],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
