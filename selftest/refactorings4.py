"""Functions written anew in other ways: solvers, termination, linear algebra, noise models, files."""

from cases import R
from refactorings import ASSIGN, COO, COV, D, DL, FACTOR, FX, GAUSS, GEO, GN, GRAPH, HUBER, LAYOUT, LIE, LIN, LM, MX, NB, STACK, VARS

G2O = "scripts/_g2o_utils.py"

R("base: fold helper for accepted state", (NB, '''class NonlinearSolverBase(
    _NonlinearSolverBase,''', '''def select_state(flag, new, old):
    """Leaf-wise choice between two pytrees."""
    return jax.tree_map(lambda a, b: jnp.where(flag, a, b), new, old)


class NonlinearSolverBase(
    _NonlinearSolverBase,'''),
 (LM, '''        # Get output assignments
        assignments = jdc.replace(
            state_prev.assignments,
            storage=jnp.where(
                accept_flag,
                assignments_proposed.storage,
                state_prev.assignments.storage,
            ),
        )
''','''        # Get output assignments
        assignments, cost, residual_vector = select_state(
            accept_flag,
            (assignments_proposed, proposed_cost, residual_vector),
            (state_prev.assignments, state_prev.cost, state_prev.residual_vector),
        )
'''), (LM,'''            cost=jnp.where(
                accept_flag, proposed_cost, state_prev.cost
            ),  # Use old cost if update is rejected
            residual_vector=jnp.where(
                accept_flag, residual_vector, state_prev.residual_vector
            ),  # Use old residual if update is rejected
''','''            cost=cost,
            residual_vector=residual_vector,
'''), (LM, "import NonlinearSolverBase, NonlinearSolverState","import NonlinearSolverBase, NonlinearSolverState, select_state"))
R("LM: lax.cond for damping", (LM,'''        lambd = jnp.where(
            accept_flag,
            # If accept, decrease damping: note that we *don't* enforce any bounds here
            state_prev.lambd / self.lambda_factor,
            # If reject: increase lambda and enforce bounds
            jnp.maximum(
                self.lambda_min,
                jnp.minimum(state_prev.lambd * self.lambda_factor, self.lambda_max),
            ),
        )
''','''        lambd = jax.lax.cond(
            accept_flag,
            lambda lam: lam / self.lambda_factor,
            lambda lam: jnp.clip(lam * self.lambda_factor, self.lambda_min, self.lambda_max),
            state_prev.lambd,
        )
'''), (LM,"import jax_dataclasses as jdc\n","import jax\nimport jax_dataclasses as jdc\n"))
R("LM: split into linearize / propose / update", D(LM,"LevenbergMarquardtSolver._step",'''
@overrides
def _step(
    self,
    graph: "StackedFactorGraph",
    state_prev: _LevenbergMarquardtState,
) -> _LevenbergMarquardtState:
    self._hcb_print(
        lambda i, max_i, cost, lambd: f"Iteration #{i}/{max_i}: cost={str(cost).ljust(15)} lambda={str(lambd)}",
        i=state_prev.iterations,
        max_i=self.max_iterations,
        cost=state_prev.cost,
        lambd=state_prev.lambd,
    )
    A, ATb = self._linearize(graph, state_prev)
    delta = self._propose(graph, state_prev, A, ATb)
    assignments_proposed = state_prev.assignments.manifold_retract(delta)
    proposed_cost, proposed_residual = graph.compute_cost(assignments_proposed)
    quality = self.compute_step_quality(A, proposed_cost, state_prev, delta.storage)
    accept = quality >= self.step_quality_min
    converged = self.check_convergence(state_prev, proposed_cost, delta, ATb)
    pick = functools.partial(jnp.where, accept)
    return _LevenbergMarquardtState(
        iterations=state_prev.iterations + 1,
        assignments=jdc.replace(
            assignments_proposed,
            storage=pick(assignments_proposed.storage, state_prev.assignments.storage),
        ),
        cost=pick(proposed_cost, state_prev.cost),
        residual_vector=pick(proposed_residual, state_prev.residual_vector),
        done=self.check_exceeded_max_iterations(state_prev) | (accept & converged),
        lambd=pick(state_prev.lambd / self.lambda_factor, self._increased(state_prev.lambd)),
    )

def _linearize(self, graph, state):
    A = graph.compute_whitened_residual_jacobian(state.assignments, state.residual_vector)
    return A, -(A.T @ state.residual_vector)

def _propose(self, graph, state, A, ATb):
    step = self.linear_solver.solve_subproblem(A, ATb, state.lambd, state.iterations)
    return VariableAssignments(step, graph.local_storage_layout)

def _increased(self, lambd):
    return jnp.maximum(jnp.minimum(self.lambda_factor * lambd, self.lambda_max), self.lambda_min)
'''), (LM, "import jax_dataclasses as jdc\n", "import functools\n\nimport jax_dataclasses as jdc\n"))
R("LM: state by replace", (LM,'''        return _LevenbergMarquardtState(
            iterations=state_prev.iterations + 1,
            assignments=assignments,
            lambd=lambd,
''','''        return jdc.replace(
            state_prev,
            iterations=1 + state_prev.iterations,
            assignments=assignments,
            lambd=lambd,
'''))
R("LM: reject flag", (LM,'''            self.compute_step_quality(
                A=A,
                proposed_cost=proposed_cost,
                state_prev=state_prev,
                step_vector=step_vector,
            )
            >= self.step_quality_min
        )
''','''            self.step_quality_min
            <= self.compute_step_quality(
                A=A,
                proposed_cost=proposed_cost,
                state_prev=state_prev,
                step_vector=local_delta_assignments.storage,
            )
        )
'''))
R("DL: helper functions at module level", (DL,'''@jdc.pytree_dataclass
class DoglegSolver(''','''def _blend(a, b, radius):
    """Point on the segment a-b at the given distance from the origin."""
    diff = b - a
    c = jnp.dot(a, diff)
    gap = radius**2 - jnp.dot(a, a)
    diff_sq = jnp.dot(diff, diff)
    root = jnp.sqrt(c * c + diff_sq * gap)
    beta = jnp.where(c > 0, gap / (c + root), (root - c) / diff_sq)
    return a + beta * diff


@jdc.pytree_dataclass
class DoglegSolver('''),(DL,'''            alpha = jnp.sum(step_vector_sd**2) / jnp.sum((A @ step_vector_sd) ** 2)
            a = alpha * step_vector_sd
            b = step_vector_gn
            c = jnp.sum(a * (b - a))
            a_norm_sq = jnp.sum(a**2)
            b_minus_a_norm_sq = jnp.sum((b - a) ** 2)
            radius_sq = state_prev.radius**2
            radius_sq_minus_a_norm_sq = radius_sq - a_norm_sq
            sqrt_c_sq_plus = jnp.sqrt(
                c**2 + b_minus_a_norm_sq * radius_sq_minus_a_norm_sq
            )
            beta = jnp.where(
                c <= 0,
                (-c + sqrt_c_sq_plus) / b_minus_a_norm_sq,
                radius_sq_minus_a_norm_sq / (c + sqrt_c_sq_plus),
            )
''','''            A_sd = A @ step_vector_sd
            alpha = jnp.dot(step_vector_sd, step_vector_sd) / jnp.dot(A_sd, A_sd)
            a = alpha * step_vector_sd
'''),(DL,"                    a + beta * (step_vector_gn - a),\n","                    _blend(a, step_vector_gn, state_prev.radius),\n"))
R("DL: select list", (DL,'''            return jnp.where(
                # Use GN if it's within trust region
                norm_gn <= state_prev.radius,
                step_vector_gn,
                jnp.where(
                    # Use normed SD if neither are within trust region
                    norm_sd >= state_prev.radius,
                    state_prev.radius / norm_sd * a,
                    a + beta * (step_vector_gn - a),
                ),
            )
''','''            return jnp.select(
                [norm_gn <= state_prev.radius, norm_sd >= state_prev.radius],
                [step_vector_gn, a * (state_prev.radius / norm_sd)],
                default=(1 - beta) * a + beta * step_vector_gn,
            )
'''))
R("DL: radius rule reordered", (DL,'''        radius = jnp.where(
            step_quality < 0.25,
            state_prev.radius / 2.0,
            jnp.where(
                step_quality > 0.75,
                jnp.max(
                    jnp.array([state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)])
                ),
                state_prev.radius,
            ),
        )
''','''        grown = jnp.maximum(state_prev.radius, 3.0 * jnp.linalg.norm(step_vector))
        radius = jnp.where(
            step_quality > 0.75,
            grown,
            jnp.where(step_quality < 0.25, 0.5 * state_prev.radius, state_prev.radius),
        )
'''))
R("DL: python helper for select on nested lax.cond", (DL,'''        radius = jnp.where(
            step_quality < 0.25,
            state_prev.radius / 2.0,
            jnp.where(
                step_quality > 0.75,
                jnp.max(
                    jnp.array([state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)])
                ),
                state_prev.radius,
            ),
        )
''','''        def next_radius():
            shrink = step_quality < 0.25
            grow = jnp.logical_and(jnp.logical_not(shrink), step_quality > 0.75)
            factor_free = jnp.maximum(3.0 * jnp.sqrt(jnp.sum(step_vector**2)), state_prev.radius)
            return jnp.where(shrink, state_prev.radius / 2.0, jnp.where(grow, factor_free, state_prev.radius))

        radius = next_radius()
'''))
R("GN: step shares with fixed through base helper", (NB,'''    # Shared.
    @jdc.jit
    def solve(''','''    def _gauss_newton_update(self, graph, state_prev):
        """Linearize, solve, retract."""
        A = graph.compute_whitened_residual_jacobian(
            assignments=state_prev.assignments, residual_vector=state_prev.residual_vector
        )
        ATb = -(A.T @ state_prev.residual_vector)
        delta = VariableAssignments(
            storage=self.linear_solver.solve_subproblem(
                A=A, ATb=ATb, lambd=0.0, iteration=state_prev.iterations
            ),
            storage_layout=graph.local_storage_layout,
        )
        assignments = state_prev.assignments.manifold_retract(local_delta_assignments=delta)
        return delta, ATb, assignments

    # Shared.
    @jdc.jit
    def solve('''), D(GN,"GaussNewtonSolver._step",'''
@overrides
def _step(
    self,
    graph: "StackedFactorGraph",
    state_prev: NonlinearSolverState,
) -> NonlinearSolverState:
    """Linearize, solve linear subproblem, and update on manifold."""
    self._hcb_print(
        lambda i, max_i, cost: f"Iteration #{i}/{max_i}: cost={str(cost)}",
        i=state_prev.iterations,
        max_i=self.max_iterations,
        cost=state_prev.cost,
    )
    delta, negative_gradient, assignments = self._gauss_newton_update(graph, state_prev)
    cost, residual_vector = graph.compute_cost(assignments)
    converged = self.check_convergence(
        state_prev=state_prev,
        cost_updated=cost,
        local_delta_assignments=delta,
        negative_gradient=negative_gradient,
    )
    return NonlinearSolverState(
        iterations=state_prev.iterations + 1,
        assignments=assignments,
        cost=cost,
        residual_vector=residual_vector,
        done=converged | self.check_exceeded_max_iterations(state_prev),
    )
'''), D(FX,"FixedIterationGaussNewtonSolver._step",'''
@overrides
def _step(
    self,
    graph: "StackedFactorGraph",
    state_prev: NonlinearSolverState,
) -> NonlinearSolverState:
    """Linearize, solve linear subproblem, and update on manifold."""
    self._hcb_print(
        lambda i, cost: f"Iteration #{i}: cost={str(cost)}",
        i=state_prev.iterations,
        cost=state_prev.cost,
    )
    _, _, assignments = self._gauss_newton_update(graph, state_prev)
    cost, residual_vector = graph.compute_cost(assignments)
    iterations = state_prev.iterations + 1
    return jdc.replace(
        state_prev,
        iterations=iterations,
        assignments=assignments,
        cost=cost,
        residual_vector=residual_vector,
        done=iterations >= self.iterations,
    )
'''))
R("fixed: fori loop when not unrolled", (FX,'''            state = jax.lax.while_loop(
                cond_fun=lambda state: jnp.logical_not(state.done),
                body_fun=functools.partial(self._step, graph),
                init_val=state,
            )
''','''            def keep_going(state):
                return ~state.done

            def body(state):
                return self._step(graph, state)

            state = jax.lax.while_loop(keep_going, body, state)
'''))
R("fixed: unroll with while counter", (FX,'''            for i in range(self.iterations):
                state = self._step(graph, state)
''','''            remaining = self.iterations
            for _ in [None] * remaining:
                state = self._step(graph=graph, state_prev=state)
'''))
R("fixed: functools.reduce", (FX,'''            for i in range(self.iterations):
                state = self._step(graph, state)
''','''            state = functools.reduce(
                lambda carry, _: self._step(graph, carry), range(self.iterations), state
            )
'''))
R("solve: shared run helper", (NB,'''        # Optimization.
        state = jax.lax.while_loop(
            cond_fun=lambda state: jnp.logical_not(state.done),
            body_fun=functools.partial(self._step, graph),
            init_val=state,
        )
''','''        state = self._run(graph, state)
'''),(NB,'''    def _hcb_print(
        self,''','''    def _run(self, graph, state):
        def not_done(s):
            return jnp.invert(jnp.asarray(s.done))

        return jax.lax.while_loop(not_done, lambda s: self._step(graph, s), state)

    def _hcb_print(
        self,'''))
R("termination: named tuple of flags", D(MX,"_TerminationCriteriaMixin.check_convergence",'''
@jax.jit
def check_convergence(
    self,
    state_prev: NonlinearSolverState,
    cost_updated: hints.Scalar,
    local_delta_assignments: VariableAssignments,
    negative_gradient: hints.Array,
) -> jax.Array:
    """Check for convergence!"""
    cost_ok = jnp.abs(state_prev.cost - cost_updated) / state_prev.cost < self.cost_tolerance
    gradient_step = VariableAssignments(negative_gradient, local_delta_assignments.storage_layout)
    moved = state_prev.assignments.manifold_retract(gradient_step).storage
    gradient_ok = jnp.logical_and(
        state_prev.iterations >= self.gradient_tolerance_start_step,
        jnp.max(jnp.abs(moved - state_prev.assignments.storage)) < self.gradient_tolerance,
    )
    x_norm = jnp.linalg.norm(state_prev.assignments.storage)
    step_norm = jnp.linalg.norm(local_delta_assignments.storage)
    parameters_ok = step_norm < self.parameter_tolerance * (x_norm + self.parameter_tolerance)
    return cost_ok | gradient_ok | parameters_ok
'''))
R("termination: inf norm", (MX,'''            jnp.max(
                jnp.abs(
                    state_prev.assignments.storage
                    - state_prev.assignments.manifold_retract(
                        VariableAssignments(
                            storage=negative_gradient,
                            storage_layout=local_delta_assignments.storage_layout,
                        ),
                    ).storage
                )
            )
            < self.gradient_tolerance,
''','''            jnp.linalg.norm(
                state_prev.assignments.storage
                - state_prev.assignments.manifold_retract(
                    jdc.replace(local_delta_assignments, storage=negative_gradient)
                ).storage,
                ord=jnp.inf,
            )
            < self.gradient_tolerance,
'''))
R("termination: helpers per criterion", D(MX,"_TerminationCriteriaMixin.check_convergence",'''
@jax.jit
def check_convergence(
    self,
    state_prev: NonlinearSolverState,
    cost_updated: hints.Scalar,
    local_delta_assignments: VariableAssignments,
    negative_gradient: hints.Array,
) -> jax.Array:
    """Check for convergence!"""
    flags = (
        self._cost_converged(state_prev.cost, cost_updated),
        self._gradient_converged(state_prev, local_delta_assignments.storage_layout, negative_gradient),
        self._parameters_converged(state_prev.assignments.storage, local_delta_assignments.storage),
    )
    return jnp.stack(flags).any(axis=0)

def _cost_converged(self, before, after):
    return jnp.abs(after - before) / before < self.cost_tolerance

def _gradient_converged(self, state, layout, gradient):
    here = state.assignments
    there = here.manifold_retract(VariableAssignments(storage=gradient, storage_layout=layout))
    small = jnp.abs(here.storage - there.storage).max() < self.gradient_tolerance
    return jnp.where(state.iterations < self.gradient_tolerance_start_step, False, small)

def _parameters_converged(self, x, step):
    bound = (jnp.sqrt(jnp.sum(x**2)) + self.parameter_tolerance) * self.parameter_tolerance
    return jnp.sqrt(jnp.sum(step**2)) < bound
'''))
R("max iterations: plus one", (MX,"        return state_prev.iterations >= (self.max_iterations - 1)  # type: ignore\n","        return jnp.greater_equal(state_prev.iterations + 1, self.max_iterations)\n"))
R("max iterations: strict", (MX,"        return state_prev.iterations >= (self.max_iterations - 1)  # type: ignore\n","        remaining = self.max_iterations - 1 - state_prev.iterations\n        return remaining <= 0\n"))
R("quality: ratio of decreases", D(MX,"_TrustRegionMixin.compute_step_quality",'''
def compute_step_quality(
    self,
    A: sparse.SparseCooMatrix,
    proposed_cost: hints.Scalar,
    state_prev: NonlinearSolverState,
    step_vector: jnp.ndarray,
) -> hints.Scalar:
    """Ratio."""
    linearized = A @ step_vector + state_prev.residual_vector
    predicted_decrease = state_prev.cost - jnp.vdot(linearized, linearized)
    actual_decrease = state_prev.cost - proposed_cost
    return actual_decrease / predicted_decrease
'''))
R("cholmod: factor looked up once", (LIN,'''        if cache_key not in _cholmod_analyze_cache:
            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)

        # Factorize and solve
        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
            A_T_scipy,
            beta=args.lambd
            + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
        )
        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)
''','''        factor = _cholmod_analyze_cache.get(cache_key)
        if factor is None:
            factor = sksparse.cholmod.analyze_AAt(A_T_scipy)
            _cholmod_analyze_cache[cache_key] = factor
        factor.cholesky_AAt_inplace(A_T_scipy, beta=args.lambd + 1e-5)
        return factor.solve_A(args.ATb)
'''))
R("cholmod: try / except", (LIN,'''        if cache_key not in _cholmod_analyze_cache:
            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)

        # Factorize and solve
        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
            A_T_scipy,
            beta=args.lambd
            + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
        )
        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)
''','''        try:
            factor = _cholmod_analyze_cache[cache_key]
        except KeyError:
            factor = sksparse.cholmod.analyze_AAt(A_T_scipy)
            _cholmod_analyze_cache[cache_key] = factor
        factor.cholesky_AAt_inplace(A_T_scipy, beta=1e-5 + args.lambd)
        return factor(args.ATb)
'''))
R("cholmod: numeric copy of symbolic factor", (LIN,'''        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
            A_T_scipy,
            beta=args.lambd
            + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
        )
        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)
''','''        symbolic = _cholmod_analyze_cache[cache_key]
        numeric = symbolic.cholesky_AAt(A_T_scipy, beta=args.lambd + 1e-5)
        return numeric.solve_A(args.ATb)
'''))
R("cholmod: key helper, csc of csr transposed", (LIN,'''        A_T = args.A.T
        A_T_scipy = A_T.as_scipy_coo_matrix().tocsc(copy=False)
''','''        A_T_scipy = scipy.sparse.csc_matrix(args.A.T.as_scipy_coo_matrix())
'''),(LIN,"import numpy as onp\n","import numpy as onp\nimport scipy.sparse\n"))
R("cg: diagonals by segment_sum", (LIN,'''        ATA_diagonals = jnp.zeros_like(initial_x).at[A.coords.cols].add(A.values**2)
''','''        ATA_diagonals = jax.ops.segment_sum(
            jnp.square(A.values), A.coords.cols, num_segments=A.shape[1]
        )
'''))
R("cg: lambdas", (LIN,'''        def ATA_function(x: hints.Array):
            # Compute ATAx
            ATAx = A.T @ (A @ x)

            # Return regularized (scale-invariant)
            return ATAx + lambd * ATA_diagonals * x

            # Vanilla regularization
            # return ATAx + lambd * x

        def jacobi_preconditioner(x):
            return x / ATA_diagonals
''','''        A_T = A.T
        damping = lambd * ATA_diagonals
        ATA_function = lambda x: A_T @ (A @ x) + damping * x
        inverse_diagonals = 1.0 / ATA_diagonals
        jacobi_preconditioner = lambda x: inverse_diagonals * x
'''))
R("cg: maxiter from shape", (LIN,'''            maxiter=len(
                initial_x
            ),  # https://en.wikipedia.org/wiki/Conjugate_gradient_method#Convergence_properties
''','''            maxiter=ATb.shape[0],
'''), (LIN,"        initial_x = onp.zeros(ATb.shape)\n","        initial_x = jnp.zeros_like(ATb)\n"))
R("coo: matmul by segment sum", (COO,'''        return (
            jnp.zeros(self.shape[0], dtype=other.dtype)
            .at[self.coords.rows]
            .add(self.values * other[self.coords.cols])
        )
''','''        products = self.values * jnp.take(other, self.coords.cols)
        return jax.ops.segment_sum(products, self.coords.rows, num_segments=self.shape[0])
'''),(COO,"import jax_dataclasses as jdc\n","import jax\nimport jax_dataclasses as jdc\n"))
R("coo: transpose by replace", (COO,'''        return SparseCooMatrix(
            values=self.values,
            coords=SparseCooCoordinates(
                rows=self.coords.cols,
                cols=self.coords.rows,
            ),
            shape=self.shape[::-1],
        )
''','''        height, width = self.shape
        return jdc.replace(
            self,
            coords=SparseCooCoordinates(self.coords.cols, self.coords.rows),
            shape=(width, height),
        )
'''))
R("coo: coords method", (COO,'''    # Shape checks break under vmap
    # def __post_init__(self):
    #     assert self.rows.shape == self.cols.shape
''','''    def swapped(self) -> "SparseCooCoordinates":
        return SparseCooCoordinates(rows=self.cols, cols=self.rows)
'''),(COO,'''            coords=SparseCooCoordinates(
                rows=self.coords.cols,
                cols=self.coords.rows,
            ),
            shape=self.shape[::-1],
''','''            coords=self.coords.swapped(),
            shape=tuple(reversed(self.shape)),
'''))
R("gaussian: matmul and triangular solve", D(GAUSS,"Gaussian.make_from_covariance",'''
@staticmethod
def make_from_covariance(covariance: hints.Array) -> "Gaussian":
    assert covariance.ndim == 2 and covariance.shape[0] == covariance.shape[1], "square!"
    lower = jnp.linalg.cholesky(covariance)
    identity = jnp.eye(covariance.shape[0])
    return Gaussian(jax.scipy.linalg.solve_triangular(lower, identity, lower=True))
'''),(GAUSS,"import jax_dataclasses as jdc\n","import jax\nimport jax_dataclasses as jdc\n"),
 (GAUSS,'        return jnp.einsum("ij,j->i", self.sqrt_precision_matrix, residual_vector)\n','        return self.sqrt_precision_matrix @ residual_vector\n'),
 (GAUSS,'        return jnp.einsum("ij,jk->ik", self.sqrt_precision_matrix, jacobian)\n','        return jnp.matmul(self.sqrt_precision_matrix, jacobian)\n'))
R("diagonal: reciprocal sqrt forms", (GAUSS,'            sqrt_precision_diagonal=1.0 / jnp.sqrt(jnp.asarray(diagonal))\n','            sqrt_precision_diagonal=jnp.sqrt(1.0 / jnp.asarray(diagonal))\n'),
 (GAUSS,'        return self.sqrt_precision_diagonal[:, None] * jacobian\n','        return jnp.einsum("i,ij->ij", self.sqrt_precision_diagonal, jacobian)\n'))
R("diagonal: power, vmap rows", (GAUSS,'            sqrt_precision_diagonal=1.0 / jnp.sqrt(jnp.asarray(diagonal))\n','            sqrt_precision_diagonal=jnp.asarray(diagonal) ** -0.5\n'),
 (GAUSS,'        return self.sqrt_precision_diagonal[:, None] * jacobian\n','        return (jacobian.T * self.sqrt_precision_diagonal).T\n'))
R("huber: weight helper", D(HUBER,"HuberWrapper.whiten_residual_vector",'''
@overrides
def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
    whitened = self.wrapped.whiten_residual_vector(residual_vector)
    norm = jnp.sqrt(jnp.sum(whitened**2))
    weight = jnp.where(norm >= self.delta, jnp.sqrt(self.delta / norm), 1.0)
    return weight * whitened
'''), D(HUBER,"HuberWrapper.whiten_jacobian",'''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,
) -> hints.Array:
    norm = jnp.linalg.norm(residual_vector)
    scale = jnp.where(norm < self.delta, 1.0, self.delta / norm)
    return scale * self.wrapped.whiten_jacobian(jacobian, residual_vector)
'''))
R("covariance: dense by solve", (COV,'''            L_inv = onp.linalg.inv(self.L.todense())
            return L_inv.T @ L_inv
''','''            L = self.L.toarray()
            return onp.linalg.inv(L @ L.T)
'''))
R("covariance: marginal by comprehension", D(COV,"SparseCovariance._compute_marginal",'''
def _compute_marginal(self, indices: Sequence[int]) -> onp.ndarray:
    """Marginal."""
    return onp.array([[self[row, col] for col in indices] for row in indices])
'''),D(COV,"SparseCovariance.compute_marginal",'''
def compute_marginal(self, *variables: core.VariableBase) -> onp.ndarray:
    """Marginal."""
    starts = self.local_storage_layout.index_from_variable
    return self._compute_marginal(
        [starts[v] + k for v in variables for k in range(v.get_local_parameter_dim())]
    )
'''))
R("covariance: sorted key", D(COV,"SparseCovariance.__getitem__",'''
def __getitem__(self, indices: Tuple[int, int]) -> float:
    """Get a single value in our sparse covariance matrix."""
    row, col = min(indices), max(indices)
    key = (row, col)
    if key not in self._value_cache:
        tail = self._sum_over_col(row, col)
        if row == col:
            self._value_cache[key] = self.L_diag_inv[row] * (self.L_diag_inv[row] - tail)
        else:
            self._value_cache[key] = -self.L_diag_inv[row] * tail
    return self._value_cache[key]
'''))
R("covariance: sum expression", D(COV,"SparseCovariance._sum_over_col",'''
def _sum_over_col(self, col: int, col_l: int) -> float:
    begin, end = self.L.indptr[col], self.L.indptr[col + 1]
    return sum(
        value * self[row, col_l]
        for row, value in zip(self.L.indices[begin:end], self.L.data[begin:end])
        if row != col
    )
'''))
R("lie: inverse compose log", (GEO,'        return jaxlie.manifold.rminus(T, self.mu)\n','        return (T.inverse() @ self.mu).log()\n'),
 (GEO,'        return jaxlie.manifold.rminus(T_world_a.inverse() @ T_world_b, self.T_a_b)\n','        T_b_a = T_world_b.inverse() @ T_world_a\n        return (T_b_a @ self.T_a_b).log()\n'),
 (GEO,'            (T_world_a.inverse() @ T_world_b).inverse().adjoint(),\n','            (T_world_b.inverse() @ T_world_a).adjoint(),\n'))
R("lie: minus identity forms", (GEO,'            -jnp.eye(group_cls.tangent_dim),\n','            jnp.diag(-jnp.ones(group_cls.tangent_dim)),\n'),
 (GEO,'        return (-jnp.eye(type(T).tangent_dim),)\n','        dim = T.tangent_dim\n        return (jnp.eye(dim) * -1.0,)\n'))
R("lie: retract compose exp", (LIE,'        return jaxlie.manifold.rplus(x, local_delta)\n','        return x @ cls.get_group_type().exp(local_delta)\n'))
R("variables: ravel by hand", (VARS,'''        example = cls.get_default_value()
        flat, unflatten = flatten_util.ravel_pytree(example)
        (parameter_dim,) = flat.shape
        cls._parameter_dim = parameter_dim
        cls._unflatten = unflatten
''','''        flat, cls._unflatten = flatten_util.ravel_pytree(cls.get_default_value())
        cls._parameter_dim = flat.size
'''))
R("variables: retract jacobian by partial", (VARS,'''        return jax.jacfwd(
            lambda x, local_delta: jax.tree_leaves(
                cls.manifold_retract(x, local_delta)
            ),
            argnums=1,
        )(
            x,
            onp.zeros(cls.get_local_parameter_dim()),
        )
''','''        def leaves_of(local_delta):
            return jax.tree_leaves(cls.manifold_retract(x, local_delta))

        return jax.jacfwd(leaves_of)(jnp.zeros((cls.get_local_parameter_dim(),)))
'''))
R("variables: template with explicit dict", (VARS,'''    @classmethod
    @functools.lru_cache(maxsize=None)
    def __getitem__(cls, dim: int) -> Type[VariableBase]:
        assert isinstance(dim, int)

        class''','''    @classmethod
    @functools.lru_cache(None)
    def __getitem__(cls, dim: int) -> Type[VariableBase]:
        if not isinstance(dim, int):
            raise AssertionError("dimension must be an integer")

        class'''))
R("factor: values through namedtuple star", (FACTOR,'''        return self.build_variable_value_tuple(
            tuple(assignments.get_value(v) for v in self.variables)
        )
''','''        values = tuple(map(assignments.get_value, self.variables))
        return self.build_variable_value_tuple(values)
'''))
R("factor: anonymize by map", (FACTOR,'''        v: VariableBase
        return jdc.replace(
            self, variables=tuple(type(v).canonical_instance() for v in self.variables)
        )
''','''        stand_ins = []
        for v in self.variables:
            stand_ins.append(v.canonical_instance())
        return jdc.replace(self, variables=tuple(stand_ins))
'''))
R("factor: jacobians by zip over slots", (FACTOR,'''        jacobians = jax.tree_map(
            jnp.dot,
            tuple(
                jnp.concatenate(jax.tree_leaves(tree), axis=-1)
                for tree in reshape_leaves(
                    jax.jacfwd(self.compute_residual_vector)(variable_values),
                    (self.get_residual_dim(), -1),
                )
            ),
            tuple(
                jnp.concatenate(
                    reshape_leaves(
                        self.variables[i].manifold_retract_jacobian(variable_values[i]),
                        (-1, v.get_local_parameter_dim()),
                    ),
                    axis=0,
                )
                for i, v in enumerate(self.variables)
            ),
        )
        return jacobians
''','''        residual_dim = self.get_residual_dim()
        wrt_parameters = jax.jacfwd(self.compute_residual_vector)(variable_values)
        jacobians = []
        for variable, value, tree in zip(self.variables, variable_values, wrt_parameters):
            outer = jnp.concatenate(
                [leaf.reshape((residual_dim, -1)) for leaf in jax.tree_leaves(tree)], axis=1
            )
            inner = jnp.concatenate(
                [
                    leaf.reshape((-1, variable.get_local_parameter_dim()))
                    for leaf in variable.manifold_retract_jacobian(value)
                ],
                axis=0,
            )
            jacobians.append(outer @ inner)
        return tuple(jacobians)
'''))
R("g2o: symmetric by sum", (G2O,'''            precision_matrix = onp.zeros((3, 3))
            precision_matrix[onp.triu_indices(3)] = precision_matrix_components
            precision_matrix = precision_matrix.T
            precision_matrix[onp.triu_indices(3)] = precision_matrix_components
''','''            upper = onp.zeros((3, 3))
            upper[onp.triu_indices(3)] = precision_matrix_components
            precision_matrix = upper + upper.T - onp.diag(onp.diag(upper))
'''))
R("g2o: symmetric by where", (G2O,'''            precision_matrix = onp.zeros((6, 6))
            precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]
            precision_matrix = precision_matrix.T
            precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]
''','''            precision_matrix = onp.zeros((6, 6))
            rows, cols = onp.triu_indices(6)
            precision_matrix[rows, cols] = numerical_parts[7:]
            precision_matrix[cols, rows] = numerical_parts[7:]
'''))
R("g2o: precision root helper", (G2O,'''def parse_g2o(path''','''def _sqrt_precision(components, dim: int) -> onp.ndarray:
    """Transposed Cholesky factor of a matrix given by its upper triangle."""
    matrix = onp.zeros((dim, dim))
    entries = iter(components)
    for row in range(dim):
        for col in range(row, dim):
            matrix[row, col] = matrix[col, row] = next(entries)
    return onp.linalg.cholesky(matrix).T


def parse_g2o(path'''),(G2O,'''            precision_matrix = onp.zeros((6, 6))
            precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]
            precision_matrix = precision_matrix.T
            precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]
            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T
''','''            sqrt_precision_matrix = _sqrt_precision(numerical_parts[7:], 6)
'''))
R("g2o: helper for symmetric matrix", (G2O,'''def parse_g2o(path''','''def _sqrt_precision(components, dim: int) -> onp.ndarray:
    """Transposed Cholesky factor of a matrix given by its upper triangle."""
    matrix = onp.zeros((dim, dim))
    upper = onp.triu_indices(dim)
    matrix[upper] = components
    matrix = matrix.T
    matrix[upper] = components
    return onp.linalg.cholesky(matrix).T


def parse_g2o(path'''),(G2O,'''            precision_matrix = onp.zeros((6, 6))
            precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]
            precision_matrix = precision_matrix.T
            precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]
            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T
''','''            sqrt_precision_matrix = _sqrt_precision(numerical_parts[7:], dim=6)
'''),(G2O,'''            precision_matrix = onp.zeros((3, 3))
            precision_matrix[onp.triu_indices(3)] = precision_matrix_components
            precision_matrix = precision_matrix.T
            precision_matrix[onp.triu_indices(3)] = precision_matrix_components
            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T
''','''            sqrt_precision_matrix = _sqrt_precision(precision_matrix_components, 3)
'''))
R("g2o: dispatch on a tag variable", (G2O,'''        if parts[0] == "VERTEX_SE2":
''','''        tag = parts[0]
        if tag == "VERTEX_SE2":
'''),(G2O,'''        elif parts[0] == "EDGE_SE2":''','''        elif tag == "EDGE_SE2":'''),(G2O,'''        elif parts[0] == "EDGE_SE3:QUAT":
            # Create relative offset between pair of SE(3) variables
            before_index = int(parts[1])
            after_index = int(parts[2])
            numerical_parts = list(map(float, parts[3:]))
            assert len(numerical_parts) == 7 + 21
''','''        elif tag == "EDGE_SE3:QUAT":
            before_index, after_index = map(int, parts[1:3])
            numerical_parts = [float(p) for p in parts[3:]]
            assert len(numerical_parts) == 28
'''),(G2O,'''            _, index, x, y, theta = parts
            index = int(index)
            x, y, theta = map(float, [x, y, theta])
''','''            index = int(parts[1])
            x, y, theta = (float(p) for p in parts[2:])
'''))
