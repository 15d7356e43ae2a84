"""Functions written anew in other ways: shared helpers, records, unusual constructs of the language."""

from cases import R
from refactorings import ASSIGN, COO, COV, D, DL, FACTOR, FX, GAUSS, GEO, GN, GRAPH, HUBER, LAYOUT, LIE, LIN, LM, MX, NB, STACK, VARS

G2O = "scripts/_g2o_utils.py"

# ---- shared skeletons and intermediate records

R("trust region: shared accept helper in the mixin", (MX, '''@jdc.pytree_dataclass
class _TerminationCriteriaMixin:''', '''    def _accept(self, accept_flag, proposed, previous):
        """Keep the proposal where the step was accepted."""
        return jax.tree_util.tree_map(
            lambda new, old: jnp.where(accept_flag, new, old), proposed, previous
        )


@jdc.pytree_dataclass
class _TerminationCriteriaMixin:'''),
 (LM, '''            cost=jnp.where(
                accept_flag, proposed_cost, state_prev.cost
            ),  # Use old cost if update is rejected
            residual_vector=jnp.where(
                accept_flag, residual_vector, state_prev.residual_vector
            ),  # Use old residual if update is rejected
''', '''            cost=self._accept(accept_flag, proposed_cost, state_prev.cost),
            residual_vector=self._accept(
                accept_flag, residual_vector, state_prev.residual_vector
            ),
'''),
 (DL, '''            cost=jnp.where(
                accept_flag, proposed_cost, state_prev.cost
            ),  # Use old cost if update is rejected
            residual_vector=jnp.where(
                accept_flag, residual_vector, state_prev.residual_vector
            ),  # Use old residual if update is rejected
''', '''            cost=self._accept(accept_flag, proposed_cost, state_prev.cost),
            residual_vector=self._accept(
                accept_flag, residual_vector, state_prev.residual_vector
            ),
'''))

R("solvers: linearisation record", (NB, '''NonlinearSolverStateType = TypeVar(''', '''class Linearization(NamedTuple):
    """First-order model of a graph at the current assignments."""

    A: sparse.SparseCooMatrix
    ATb: jnp.ndarray


def linearize(graph, state) -> Linearization:
    A = graph.compute_whitened_residual_jacobian(
        assignments=state.assignments,
        residual_vector=state.residual_vector,
    )
    return Linearization(A=A, ATb=A.T @ (-state.residual_vector))


NonlinearSolverStateType = TypeVar('''),
 (NB, "from typing import TYPE_CHECKING, Callable, Generic, TypeVar, Union", "from typing import TYPE_CHECKING, Callable, Generic, NamedTuple, TypeVar, Union"),
 (GN, '''        A: sparse.SparseCooMatrix = graph.compute_whitened_residual_jacobian(
            assignments=state_prev.assignments,
            residual_vector=state_prev.residual_vector,
        )
        ATb = -(A.T @ state_prev.residual_vector)
''', '''        A, ATb = linearize(graph, state_prev)
'''),
 (GN, "from ._nonlinear_solver_base import NonlinearSolverBase, NonlinearSolverState", "from ._nonlinear_solver_base import (\n    NonlinearSolverBase,\n    NonlinearSolverState,\n    linearize,\n)"),
 (FX, '''        A: sparse.SparseCooMatrix = graph.compute_whitened_residual_jacobian(
            assignments=state_prev.assignments,
            residual_vector=state_prev.residual_vector,
        )
        ATb = -(A.T @ state_prev.residual_vector)
''', '''        model = linearize(graph, state_prev)
        A = model.A
        ATb = model.ATb
'''),
 (FX, "from ._nonlinear_solver_base import NonlinearSolverBase, NonlinearSolverState", "from ._nonlinear_solver_base import (\n    NonlinearSolverBase,\n    NonlinearSolverState,\n    linearize,\n)"))

R("solvers: initial state built by the base class", (NB, '''    @abc.abstractmethod
    def _initialize_state(
        self,
        graph: "StackedFactorGraph",
        initial_assignments: VariableAssignments,
    ) -> NonlinearSolverStateType: ...
''', '''    @abc.abstractmethod
    def _initialize_state(
        self,
        graph: "StackedFactorGraph",
        initial_assignments: VariableAssignments,
    ) -> NonlinearSolverStateType: ...

    @staticmethod
    def _common_state(graph, initial_assignments) -> dict:
        """Fields that every solver state starts from."""
        cost, residual_vector = graph.compute_cost(initial_assignments)
        return dict(
            iterations=0,
            assignments=initial_assignments,
            cost=cost,
            residual_vector=residual_vector,
            done=False,
        )
'''),
 D(LM, "LevenbergMarquardtSolver._initialize_state", '''
@overrides
def _initialize_state(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> _LevenbergMarquardtState:
    return _LevenbergMarquardtState(
        **self._common_state(graph, initial_assignments),
        lambd=self.lambda_initial,
    )
'''),
 D(DL, "DoglegSolver._initialize_state", '''
@overrides
def _initialize_state(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> _DoglegState:
    fields = self._common_state(graph, initial_assignments)
    fields["radius"] = self.radius_initial
    return _DoglegState(**fields)
'''),
 D(GN, "GaussNewtonSolver._initialize_state", '''
@overrides
def _initialize_state(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> NonlinearSolverState:
    return NonlinearSolverState(**self._common_state(graph, initial_assignments))
'''))

R("solvers: gauss newton step from a shared undamped base", (NB, '''    def _hcb_print(
        self,''', '''    def _undamped_step(self, graph, state):
        """Gauss-Newton step: gradient, delta and what it leads to."""
        A = graph.compute_whitened_residual_jacobian(
            state.assignments, state.residual_vector
        )
        ATb = -(A.T @ state.residual_vector)
        delta = VariableAssignments(
            self.linear_solver.solve_subproblem(A, ATb, 0.0, state.iterations),
            graph.local_storage_layout,
        )
        assignments = state.assignments.manifold_retract(delta)
        return ATb, delta, assignments, graph.compute_cost(assignments)

    def _hcb_print(
        self,'''),
 (GN, '''        A: sparse.SparseCooMatrix = graph.compute_whitened_residual_jacobian(
            assignments=state_prev.assignments,
            residual_vector=state_prev.residual_vector,
        )
        ATb = -(A.T @ state_prev.residual_vector)
        local_delta_assignments = VariableAssignments(
            storage=self.linear_solver.solve_subproblem(
                A=A,
                ATb=ATb,
                lambd=0.0,
                iteration=state_prev.iterations,
            ),
            storage_layout=graph.local_storage_layout,
        )
        assignments = state_prev.assignments.manifold_retract(
            local_delta_assignments=local_delta_assignments,
        )
        cost, residual_vector = graph.compute_cost(assignments)
''', '''        ATb, local_delta_assignments, assignments, (cost, residual_vector) = (
            self._undamped_step(graph, state_prev)
        )
'''),
 (FX, '''        A: sparse.SparseCooMatrix = graph.compute_whitened_residual_jacobian(
            assignments=state_prev.assignments,
            residual_vector=state_prev.residual_vector,
        )
        ATb = -(A.T @ state_prev.residual_vector)
        local_delta_assignments = VariableAssignments(
            storage=self.linear_solver.solve_subproblem(
                A=A,
                ATb=ATb,
                lambd=0.0,
                iteration=state_prev.iterations,
            ),
            storage_layout=graph.local_storage_layout,
        )
        assignments = state_prev.assignments.manifold_retract(
            local_delta_assignments=local_delta_assignments,
        )
        cost, residual_vector = graph.compute_cost(assignments)
''', '''        _, _, assignments, (cost, residual_vector) = self._undamped_step(
            graph, state_prev
        )
'''))

R("fixed: solve through super when not unrolled", D(FX, "FixedIterationGaussNewtonSolver.solve", '''
@jax.jit
@overrides
def solve(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> VariableAssignments:
    """Run MAP inference on a factor graph."""
    if not self.unroll:
        return super(FixedIterationGaussNewtonSolver, self).solve(
            graph, initial_assignments
        )
    state = self._initialize_state(
        graph, initial_assignments.update_storage_layout(graph.storage_layout)
    )
    for _ in range(self.iterations):
        state = self._step(graph, state)
    self._hcb_print(
        lambda i, cost: f"Terminated @ iteration #{i}: cost={str(cost).ljust(15)}",
        i=state.iterations,
        cost=state.cost,
    )
    return state.assignments.update_storage_layout(initial_assignments.storage_layout)
'''))

R("base: solve split into run and report", D(NB, "NonlinearSolverBase.solve", '''
@jdc.jit
def solve(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> VariableAssignments:
    """Run MAP inference on a factor graph."""
    original_layout = initial_assignments.storage_layout
    state = self._run(
        graph, initial_assignments.update_storage_layout(graph.storage_layout)
    )
    self._report(state)
    return state.assignments.update_storage_layout(original_layout)

def _run(self, graph, assignments):
    def cond(state):
        return ~jnp.asarray(state.done)

    def body(state):
        return self._step(graph, state)

    return jax.lax.while_loop(cond, body, self._initialize_state(graph, assignments))

def _report(self, state) -> None:
    def message(i, cost):
        return f"Terminated @ iteration #{i}: cost={str(cost).ljust(15)}"

    self._hcb_print(message, i=state.iterations, cost=state.cost)
'''))

R("base: carry (assignments, state) tuple", D(NB, "NonlinearSolverBase.solve", '''
@jdc.jit
def solve(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> VariableAssignments:
    """Run MAP inference on a factor graph."""
    start = self._initialize_state(
        graph, initial_assignments.update_storage_layout(graph.storage_layout)
    )
    final = jax.lax.while_loop(
        lambda state: jnp.equal(state.done, False),
        lambda state: self._step(graph=graph, state_prev=state),
        start,
    )
    self._hcb_print(
        lambda i, cost: "Terminated @ iteration #{}: cost={}".format(
            i, str(cost).ljust(15)
        ),
        i=final.iterations,
        cost=final.cost,
    )
    result = final.assignments
    return result.update_storage_layout(initial_assignments.storage_layout)
'''))

# ---- steps

R("LM: jax.lax.cond free select helper and clip", (LM, '''        lambd = jnp.where(
            accept_flag,
            state_prev.lambd / self.lambda_factor,
            jnp.maximum(
                self.lambda_min,
                jnp.minimum(state_prev.lambd * self.lambda_factor, self.lambda_max),
            ),
        )
''', '''        lambd_shrunk = state_prev.lambd / self.lambda_factor
        lambd_grown = jnp.clip(
            jnp.minimum(self.lambda_factor * state_prev.lambd, self.lambda_max),
            a_min=self.lambda_min,
        )
        lambd = jax.lax.select(accept_flag, lambd_shrunk, lambd_grown)
'''), (LM, "import jax_dataclasses as jdc\n", "import jax\nimport jax_dataclasses as jdc\n"))

R("LM: state by jdc.replace of the previous", (LM, '''        return _LevenbergMarquardtState(
            iterations=state_prev.iterations + 1,
            assignments=assignments,
            lambd=lambd,
            cost=jnp.where(
                accept_flag, proposed_cost, state_prev.cost
            ),  # Use old cost if update is rejected
            residual_vector=jnp.where(
                accept_flag, residual_vector, state_prev.residual_vector
            ),  # Use old residual if update is rejected
            done=done,
        )
''', '''        return jdc.replace(
            state_prev,
            iterations=state_prev.iterations + 1,
            assignments=assignments,
            lambd=lambd,
            cost=jnp.where(accept_flag, proposed_cost, state_prev.cost),
            residual_vector=jnp.where(
                accept_flag, residual_vector, state_prev.residual_vector
            ),
            done=done,
        )
'''))

R("LM: whole state chosen leaf by leaf", (LM, '''        # Get output assignments
        assignments = jdc.replace(
            state_prev.assignments,
            storage=jnp.where(
                accept_flag,
                assignments_proposed.storage,
                state_prev.assignments.storage,
            ),
        )
''', ''''''), (LM, '''        return _LevenbergMarquardtState(
            iterations=state_prev.iterations + 1,
            assignments=assignments,
            lambd=lambd,
            cost=jnp.where(
                accept_flag, proposed_cost, state_prev.cost
            ),  # Use old cost if update is rejected
            residual_vector=jnp.where(
                accept_flag, residual_vector, state_prev.residual_vector
            ),  # Use old residual if update is rejected
            done=done,
        )
''', '''        accepted = jdc.replace(
            state_prev,
            assignments=assignments_proposed,
            cost=proposed_cost,
            residual_vector=residual_vector,
        )
        chosen = jax.tree_map(
            lambda new, old: jnp.where(accept_flag, new, old), accepted, state_prev
        )
        return jdc.replace(
            chosen,
            iterations=state_prev.iterations + 1,
            lambd=lambd,
            done=done,
        )
'''), (LM, "import jax_dataclasses as jdc\n", "import jax\nimport jax_dataclasses as jdc\n"))

R("DL: step as methods", D(DL, "DoglegSolver._step", '''
@overrides
def _step(
    self,
    graph: "StackedFactorGraph",
    state_prev: _DoglegState,
) -> _DoglegState:
    self._hcb_print(
        lambda i, max_i, cost, radius: f"Iteration #{i}/{max_i}: cost={str(cost).ljust(15)} radius={str(radius)}",
        i=state_prev.iterations,
        max_i=self.max_iterations,
        cost=state_prev.cost,
        radius=state_prev.radius,
    )

    A: sparse.SparseCooMatrix = graph.compute_whitened_residual_jacobian(
        state_prev.assignments, state_prev.residual_vector
    )
    ATb = A.T @ -state_prev.residual_vector
    step_vector = self._dogleg(
        A,
        ATb,
        gauss_newton=self.linear_solver.solve_subproblem(
            A, ATb, lambd=0.0, iteration=state_prev.iterations
        ),
        radius=state_prev.radius,
    )
    delta = VariableAssignments(step_vector, graph.local_storage_layout)
    proposed = state_prev.assignments.manifold_retract(delta)
    proposed_cost, proposed_residual = graph.compute_cost(proposed)

    quality = self.compute_step_quality(A, proposed_cost, state_prev, step_vector)
    accepted = quality >= self.step_quality_min

    def keep(new, old):
        return jnp.where(accepted, new, old)

    converged = self.check_convergence(state_prev, proposed_cost, delta, ATb)
    return _DoglegState(
        iterations=state_prev.iterations + 1,
        assignments=VariableAssignments(
            storage=keep(proposed.storage, state_prev.assignments.storage),
            storage_layout=state_prev.assignments.storage_layout,
        ),
        cost=keep(proposed_cost, state_prev.cost),
        residual_vector=keep(proposed_residual, state_prev.residual_vector),
        done=self.check_exceeded_max_iterations(state_prev) | (accepted & converged),
        radius=self._next_radius(state_prev.radius, quality, step_vector),
    )

@staticmethod
def _next_radius(radius, quality, step_vector):
    grown = jnp.maximum(radius, 3.0 * jnp.linalg.norm(step_vector))
    unchanged_or_grown = jnp.where(quality > 0.75, grown, radius)
    return jnp.where(quality < 0.25, radius / 2.0, unchanged_or_grown)

@staticmethod
def _dogleg(A, ATb, gauss_newton, radius):
    alpha = jnp.dot(ATb, ATb) / jnp.sum(jnp.square(A @ ATb))
    cauchy = alpha * ATb
    leg = gauss_newton - cauchy
    c = jnp.dot(cauchy, leg)
    leg_sq = jnp.dot(leg, leg)
    room = radius ** 2 - jnp.dot(cauchy, cauchy)
    root = jnp.sqrt(c * c + leg_sq * room)
    beta = jnp.where(c <= 0, (root - c) / leg_sq, room / (root + c))
    cauchy_norm = jnp.linalg.norm(cauchy)
    inner = jnp.where(
        cauchy_norm >= radius, cauchy * (radius / cauchy_norm), cauchy + beta * leg
    )
    return jnp.where(jnp.linalg.norm(gauss_newton) <= radius, gauss_newton, inner)
'''))

R("DL: conditions by jnp.select", (DL, '''            return jnp.where(
                norm_gn <= state_prev.radius,
                step_vector_gn,
                jnp.where(
                    norm_sd >= state_prev.radius,
                    state_prev.radius / norm_sd * a,
                    a + beta * (step_vector_gn - a),
                ),
            )
''', '''            return jnp.select(
                [norm_gn <= state_prev.radius, norm_sd >= state_prev.radius],
                [step_vector_gn, (state_prev.radius / norm_sd) * a],
                default=a + beta * (b - a),
            )
'''))

R("DL: radius by jnp.select", (DL, '''        radius = jnp.where(
            step_quality < 0.25,
            state_prev.radius / 2.0,
            jnp.where(
                step_quality > 0.75,
                jnp.max(
                    jnp.array([state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)])
                ),
                state_prev.radius,
            ),
        )
''', '''        step_norm = jnp.sqrt(jnp.sum(step_vector**2))
        radius = jnp.select(
            condlist=[step_quality < 0.25, step_quality > 0.75],
            choicelist=[
                0.5 * state_prev.radius,
                jnp.maximum(3.0 * step_norm, state_prev.radius),
            ],
            default=state_prev.radius,
        )
'''))

R("mixins: quality with named decreases", D(MX, "_TrustRegionMixin.compute_step_quality", '''
def compute_step_quality(
    self,
    A: sparse.SparseCooMatrix,
    proposed_cost: hints.Scalar,
    state_prev: NonlinearSolverState,
    step_vector: jnp.ndarray,
) -> hints.Scalar:
    """Compute step quality ratio."""
    linearized_residual = state_prev.residual_vector + A @ step_vector
    linearized_cost = linearized_residual @ linearized_residual
    actual_decrease = state_prev.cost - proposed_cost
    predicted_decrease = state_prev.cost - linearized_cost
    return actual_decrease / predicted_decrease
'''))

R("mixins: convergence through properties on a record", D(MX, "_TerminationCriteriaMixin.check_convergence", '''
@jax.jit
def check_convergence(
    self,
    state_prev: NonlinearSolverState,
    cost_updated: hints.Scalar,
    local_delta_assignments: VariableAssignments,
    negative_gradient: hints.Array,
) -> jax.Array:
    """Check for convergence!"""
    x = state_prev.assignments
    relative_change = jnp.abs(cost_updated - state_prev.cost) / state_prev.cost
    by_cost = relative_change < self.cost_tolerance

    along_gradient = x.manifold_retract(
        jdc.replace(local_delta_assignments, storage=negative_gradient)
    )
    gradient_norm = jnp.linalg.norm(x.storage - along_gradient.storage, ord=jnp.inf)
    late_enough = state_prev.iterations >= self.gradient_tolerance_start_step
    by_gradient = jnp.logical_and(late_enough, gradient_norm < self.gradient_tolerance)

    step_norm = jnp.linalg.norm(local_delta_assignments.storage)
    limit = self.parameter_tolerance * (
        self.parameter_tolerance + jnp.linalg.norm(x.storage)
    )
    by_parameters = step_norm < limit

    return by_cost | by_gradient | by_parameters
'''))

R("mixins: exceeded by strict comparison", (MX, "        return state_prev.iterations >= (self.max_iterations - 1)  # type: ignore\n", "        completed = state_prev.iterations + 1\n        return completed >= self.max_iterations  # type: ignore\n"))

# ---- linear algebra

R("cholmod: factor fetched by helper method", D(LIN, "CholmodSolver._solve", '''
def _solve(self, args: _LinearSolverArgs) -> jnp.ndarray:
    A_T = args.A.T.as_scipy_coo_matrix().tocsc(copy=False)
    factor = self._symbolic(A_T)
    # Some simple linear problems blow up without this 1e-5 term.
    factor.cholesky_AAt_inplace(A_T, beta=1e-5 + args.lambd)
    return factor.solve_A(args.ATb)

def _symbolic(self, A_T) -> sksparse.cholmod.Factor:
    key = (
        object.__hash__(self),
        A_T.shape,
        A_T.indptr.tobytes(),
        A_T.indices.tobytes(),
    )
    factor = _cholmod_analyze_cache.get(key)
    if factor is None:
        factor = sksparse.cholmod.analyze_AAt(A_T)
        _cholmod_analyze_cache[key] = factor
    return factor
'''))

R("cholmod: try lookup", D(LIN, "CholmodSolver._solve", '''
def _solve(self, args: _LinearSolverArgs) -> jnp.ndarray:
    transposed = args.A.T.as_scipy_coo_matrix().tocsc(copy=False)
    pattern = transposed.indptr.tobytes(), transposed.indices.tobytes()
    key = (object.__hash__(self), transposed.shape) + pattern
    try:
        cholesky = _cholmod_analyze_cache[key]
    except KeyError:
        cholesky = sksparse.cholmod.analyze_AAt(transposed)
        _cholmod_analyze_cache[key] = cholesky
    cholesky.cholesky_AAt_inplace(transposed, beta=args.lambd + 1e-5)
    return cholesky.solve_A(args.ATb)
'''))

R("cholmod: cache setdefault", D(LIN, "CholmodSolver._solve", '''
def _solve(self, args: _LinearSolverArgs) -> jnp.ndarray:
    A, ATb, lambd = args
    A_T = A.T.as_scipy_coo_matrix().tocsc(copy=False)
    cache_key = (
        object.__hash__(self),
        A_T.shape,
        A_T.indptr.tobytes(),
        A_T.indices.tobytes(),
    )
    if _cholmod_analyze_cache.get(cache_key) is None:
        _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T)
    factor = _cholmod_analyze_cache[cache_key]
    factor.cholesky_AAt_inplace(A_T, lambd + 1e-5)
    return factor.solve_A(ATb)
'''))

R("cg: normal operator as functions of the module", (LIN, '''class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):''', '''def _normal_diagonal(A: SparseCooMatrix, like: hints.Array) -> hints.Array:
    """Diagonal of A^T A."""
    return jnp.zeros_like(like).at[A.coords.cols].add(jnp.square(A.values))


def _damped_normal_product(A: SparseCooMatrix, damping: hints.Array, x: hints.Array):
    """(A^T A + diag(damping)) x."""
    return damping * x + A.T @ (A @ x)


class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):'''),
 D(LIN, "_ConjugateGradientSolver.solve_subproblem", '''
@overrides
def solve_subproblem(
    self,
    A: SparseCooMatrix,
    ATb: hints.Array,
    lambd: hints.Scalar,
    iteration: hints.Scalar,
) -> jnp.ndarray:
    assert A.values.ndim == 1, "A.values should be 1D"
    assert ATb.ndim == 1, "ATb should be 1D!"
    (dim,) = ATb.shape
    x0 = onp.zeros(dim)
    diagonal = _normal_diagonal(A, x0)
    solution, _ = jax.scipy.sparse.linalg.cg(
        functools.partial(_damped_normal_product, A, lambd * diagonal),
        ATb,
        x0=x0,
        maxiter=dim,
        tol=self._get_cg_tolerance(iteration),
        M=lambda x: x / diagonal,
    )
    return solution
'''), (LIN, "import abc\n", "import abc\nimport functools\n"))

R("coo: matmul by segment sum helper", D(COO, "SparseCooMatrix.__matmul__", '''
def __matmul__(self, other: hints.Array):
    """Compute `Ax`, where `x` is a 1D vector."""
    num_rows, num_cols = self.shape
    assert other.shape == (num_cols,), "Inner product only supported for 1D vectors!"
    rows, cols = self.coords.rows, self.coords.cols
    products = other[cols] * self.values
    out = jnp.zeros((num_rows,), dtype=other.dtype)
    return out.at[rows].add(products)
'''))

R("coo: transposed coords property", (COO, '''    """Column indices of non-zero entries. Shape should be `(*, N)`."""

@jdc.pytree_dataclass
class SparseCooMatrix:''', '''    """Column indices of non-zero entries. Shape should be `(*, N)`."""

    @property
    def T(self) -> "SparseCooCoordinates":
        return SparseCooCoordinates(rows=self.cols, cols=self.rows)

    def as_tuple(self):
        return (self.rows, self.cols)


@jdc.pytree_dataclass
class SparseCooMatrix:'''), D(COO, "SparseCooMatrix.T", '''
@property
def T(self):
    """Return transpose of our sparse matrix."""
    rows, cols = self.shape
    return jdc.replace(self, coords=self.coords.T, shape=(cols, rows))
'''), D(COO, "SparseCooMatrix.as_dense", '''
def as_dense(self) -> jnp.ndarray:
    """Convert to a dense JAX array."""
    dense = jnp.zeros(self.shape)
    return dense.at[self.coords.as_tuple()].add(self.values)
'''), D(COO, "SparseCooMatrix.as_scipy_coo_matrix", '''
def as_scipy_coo_matrix(self) -> scipy.sparse.coo_matrix:
    """Convert to a sparse scipy matrix."""
    return scipy.sparse.coo_matrix((self.values, self.coords.as_tuple()), self.shape)
'''))

# ---- noise models

R("gaussian: matmul operators and solve", D(GAUSS, "Gaussian.whiten_residual_vector", '''
@overrides
def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
    return self.sqrt_precision_matrix @ residual_vector
'''), D(GAUSS, "Gaussian.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,  # Unused
) -> hints.Array:
    del residual_vector
    return jnp.matmul(self.sqrt_precision_matrix, jacobian)
'''), D(GAUSS, "DiagonalGaussian.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,  # Unused
) -> hints.Array:
    assert jacobian.ndim == 2
    (dim,) = self.sqrt_precision_diagonal.shape
    assert residual_vector.shape == (dim,) and jacobian.shape[0] == dim
    return jnp.einsum("i,ij->ij", self.sqrt_precision_diagonal, jacobian)
'''), D(GAUSS, "DiagonalGaussian.make_from_covariance", '''
@staticmethod
def make_from_covariance(
    diagonal: Union[hints.Array, Sequence[float]],
) -> "DiagonalGaussian":
    variances = jnp.asarray(diagonal)
    return DiagonalGaussian(jnp.reciprocal(jnp.sqrt(variances)))
'''))

R("gaussian: get dims from first axis names", D(GAUSS, "Gaussian.get_residual_dim", '''
@overrides
def get_residual_dim(self) -> int:
    *_, dim = self.sqrt_precision_matrix.shape
    return dim
'''), D(GAUSS, "DiagonalGaussian.get_residual_dim", '''
@overrides
def get_residual_dim(self) -> int:
    shape = self.sqrt_precision_diagonal.shape
    return shape[len(shape) - 1]
'''))

R("huber: weight helper function", D(HUBER, "HuberWrapper.whiten_residual_vector", '''
@overrides
def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
    whitened = self.wrapped.whiten_residual_vector(residual_vector)
    inlier, ratio = self._threshold(whitened)
    return jnp.where(inlier, whitened, jnp.sqrt(ratio) * whitened)

def _threshold(self, residual_vector: hints.Array):
    norm = jnp.linalg.norm(residual_vector)
    return norm < self.delta, self.delta / norm
'''), D(HUBER, "HuberWrapper.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,
) -> hints.Array:
    whitened = self.wrapped.whiten_jacobian(jacobian, residual_vector)
    inlier, ratio = self._threshold(residual_vector)
    return jnp.where(inlier, whitened, ratio * whitened)
'''))

# ---- core

R("layout: spans helper generator", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    variables_from_type: Dict[Type[VariableBase], List[VariableBase]] = {}
    for variable in variables:
        variables_from_type.setdefault(type(variable), []).append(variable)

    index_from_variable = {}
    index_from_variable_type = {}
    start = 0
    for variable_type, group in variables_from_type.items():
        if local:
            size = variable_type.get_local_parameter_dim()
        else:
            size = variable_type.get_parameter_dim()
        index_from_variable_type[variable_type] = start
        index_from_variable.update(
            {variable: start + i * size for i, variable in enumerate(group)}
        )
        start = start + size * len(group)

    counts = {
        variable_type: len(group) for variable_type, group in variables_from_type.items()
    }
    return StorageLayout(
        local,
        start,
        *map(frozendict, (index_from_variable, index_from_variable_type, counts)),
    )
'''))

R("layout: dim method on the class", (LAYOUT, '''    @staticmethod
    def make(''', '''    @staticmethod
    def _dim_of(variable_type, local: bool) -> int:
        if local:
            return variable_type.get_local_parameter_dim()
        return variable_type.get_parameter_dim()

    @staticmethod
    def make('''), (LAYOUT, '''                storage_index += (
                    variable.get_local_parameter_dim()
                    if local
                    else variable.get_parameter_dim()
                )
''', '''                storage_index += StorageLayout._dim_of(variable, local)
'''), (ASSIGN, '''            variable_dim = (
                variable.get_local_parameter_dim()
                if local_flag
                else variable.get_parameter_dim()
            )
''', '''            variable_dim = StorageLayout._dim_of(variable, local_flag)
'''))

R("assignments: slice helper method", (ASSIGN, '''    def as_dict(self)''', '''    def _slice_of(self, variable: VariableBase) -> slice:
        start = self.storage_layout.index_from_variable[variable]
        return slice(start, start + type(variable).get_parameter_dim())

    def as_dict(self)'''), D(ASSIGN, "VariableAssignments.get_value", '''
def get_value(self, variable: VariableBase[VariableValueType]) -> VariableValueType:
    """Get value corresponding to specific variable."""
    return type(variable).unflatten(self.storage[self._slice_of(variable)])
'''), D(ASSIGN, "VariableAssignments.set_value", '''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    storage = jnp.asarray(self.storage)
    flat = type(variable).flatten(value)
    return jdc.replace(self, storage=storage.at[self._slice_of(variable)].set(flat))
'''))

R("assignments: block helper for types", (ASSIGN, '''    def as_dict(self)''', '''    def _block(self, variable_type: Type[VariableBase], dim: int) -> hints.Array:
        """Rows of storage that belong to one variable type."""
        layout = self.storage_layout
        start = layout.index_from_variable_type[variable_type]
        count = layout.count_from_variable_type[variable_type]
        return self.storage[start : start + count * dim].reshape((count, dim))

    def as_dict(self)'''), D(ASSIGN, "VariableAssignments.get_stacked_value", '''
def get_stacked_value(
    self, variable_type: Type[VariableBase[VariableValueType]]
) -> VariableValueType:
    """Get values of all variables corresponding to a specific type."""
    rows = self._block(variable_type, variable_type.get_parameter_dim())
    return jax.vmap(variable_type.unflatten)(rows)
'''), D(ASSIGN, "VariableAssignments.manifold_retract", '''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""
    assert not self.storage_layout.local_flag
    assert local_delta_assignments.storage_layout.local_flag

    new_storage = jnp.zeros_like(self.storage)
    for variable_type, start in self.storage_layout.index_from_variable_type.items():
        values = self._block(variable_type, variable_type.get_parameter_dim())
        count = self.storage_layout.count_from_variable_type[variable_type]
        delta_start = local_delta_assignments.storage_layout.index_from_variable_type[
            variable_type
        ]
        local_dim = variable_type.get_local_parameter_dim()
        deltas = local_delta_assignments.storage[
            delta_start : delta_start + count * local_dim
        ].reshape((count, local_dim))

        def retract_one(flat, delta, variable_type=variable_type):
            value = variable_type.unflatten(flat)
            return variable_type.flatten(variable_type.manifold_retract(value, delta))

        updated = jax.vmap(retract_one)(values, deltas).ravel()
        stop = start + count * variable_type.get_parameter_dim()
        new_storage = new_storage.at[start:stop].set(updated)
    return VariableAssignments(new_storage, self.storage_layout)
'''))

R("assignments: retract by concatenating blocks in order", D(ASSIGN, "VariableAssignments.manifold_retract", '''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""
    layout = self.storage_layout
    local_layout = local_delta_assignments.storage_layout
    assert not layout.local_flag
    assert local_layout.local_flag

    out = jnp.zeros_like(self.storage)
    for variable_type in layout.get_variable_types():
        count = layout.count_from_variable_type[variable_type]
        dim, local_dim = (
            variable_type.get_parameter_dim(),
            variable_type.get_local_parameter_dim(),
        )
        start = layout.index_from_variable_type[variable_type]
        local_start = local_layout.index_from_variable_type[variable_type]
        block = slice(start, start + count * dim)
        local_block = slice(local_start, local_start + count * local_dim)

        values = jax.vmap(variable_type.unflatten)(
            self.storage[block].reshape(count, dim)
        )
        deltas = local_delta_assignments.storage[local_block].reshape(count, local_dim)
        moved = jax.vmap(variable_type.manifold_retract)(values, deltas)
        out = out.at[block].set(jnp.ravel(jax.vmap(variable_type.flatten)(moved)))
    return jdc.replace(self, storage=out)
'''))

R("assignments: dict built through partial with helper", D(ASSIGN, "VariableAssignments.make_from_partial_dict", '''
@staticmethod
def make_from_partial_dict(
    variables: Iterable[VariableBase],
    assignments: Dict[VariableBase, hints.VariableValue],
) -> "VariableAssignments":
    """Create an assignment object from a variables and assignments."""
    given = {} if assignments is None else assignments
    storage_layout = StorageLayout.make(variables, local=False)

    def value_of(variable: VariableBase) -> hints.VariableValue:
        if variable in given:
            return given[variable]
        return variable.get_default_value()

    flat_values = []
    for variable in storage_layout.get_variables():
        flat_values.append(jax.jit(variable.flatten)(value_of(variable)))
    storage = jnp.concatenate(flat_values, axis=0)
    assert storage.shape == (storage_layout.dim,)
    return VariableAssignments(storage, storage_layout)
'''))

R("assignments: relayout by gathering numpy ranges", D(ASSIGN, "VariableAssignments.update_storage_layout", '''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Returns a new assignments object with an updated storage layout."""
    source = self.storage_layout
    if source == storage_layout:
        return self
    assert source.dim == storage_layout.dim
    assert source.local_flag == storage_layout.local_flag
    assert set(source.get_variables()) == set(storage_layout.get_variables())

    order = jnp.zeros(storage_layout.dim, dtype=jnp.int32)
    for variable, target in storage_layout.index_from_variable.items():
        start = source.index_from_variable[variable]
        if storage_layout.local_flag:
            size = variable.get_local_parameter_dim()
        else:
            size = variable.get_parameter_dim()
        order = order.at[target : target + size].set(start + jnp.arange(size))
    return VariableAssignments(
        storage=jnp.take(self.storage, order, axis=0), storage_layout=storage_layout
    )
'''))

R("graph: grouping in a helper class", D(GRAPH, "StackedFactorGraph.make", '''
@staticmethod
def make(
    factors: Iterable[FactorBase],
    use_onp: bool = True,
) -> "StackedFactorGraph":
    """Create a factor graph from a set of factors."""
    groups, variables = _group_factors(factors)
    storage_layout = StorageLayout.make(variables, local=False)
    local_storage_layout = StorageLayout.make(variables, local=True)

    stacks: List[FactorStack] = []
    coords: List[sparse.SparseCooCoordinates] = []
    residual_dim = 0
    for group in groups:
        stack = FactorStack.make(group, storage_layout, use_onp=use_onp)
        stacks.append(stack)
        coords += FactorStack.compute_jacobian_coords(
            group, local_storage_layout, residual_dim
        )
        residual_dim += stack.get_residual_dim()

    return StackedFactorGraph(
        factor_stacks=stacks,
        jacobian_coords=sparse.SparseCooCoordinates(
            rows=onp.concatenate([c.rows for c in coords]),
            cols=onp.concatenate([c.cols for c in coords]),
        ),
        storage_layout=storage_layout,
        local_storage_layout=local_storage_layout,
        residual_dim=residual_dim,
    )
'''), (GRAPH, '''@jdc.pytree_dataclass
class StackedFactorGraph:''', '''def _group_key(factor: FactorBase) -> GroupKey:
    treedef = jax.tree_structure(factor.anonymize_variables())
    shapes = tuple(getattr(leaf, "shape", ()) for leaf in jax.tree_leaves(factor))
    return treedef, shapes


def _group_factors(factors: Iterable[FactorBase]):
    """Factors by group key, and all variables in order of appearance."""
    groups: Dict[GroupKey, List[FactorBase]] = {}
    variables: Dict[VariableBase, None] = {}
    for factor in factors:
        groups.setdefault(_group_key(factor), []).append(factor)
        variables.update(dict.fromkeys(factor.variables))
    return groups.values(), tuple(variables)


@jdc.pytree_dataclass
class StackedFactorGraph:'''))

R("graph: make with two passes", D(GRAPH, "StackedFactorGraph.make", '''
@staticmethod
def make(
    factors: Iterable[FactorBase],
    use_onp: bool = True,
) -> "StackedFactorGraph":
    """Create a factor graph from a set of factors."""
    factors = tuple(factors)
    variables = list(
        dict.fromkeys(variable for factor in factors for variable in factor.variables)
    )
    storage_layout = StorageLayout.make(variables)
    local_storage_layout = StorageLayout.make(variables, local=True)

    grouped: DefaultDict[GroupKey, List[FactorBase]] = defaultdict(list)
    for factor in factors:
        structure = jax.tree_structure(factor.anonymize_variables())
        shapes = []
        for leaf in jax.tree_leaves(factor):
            shapes.append(leaf.shape if hasattr(leaf, "shape") else ())
        grouped[structure, tuple(shapes)].append(factor)

    stacks = [
        FactorStack.make(group, storage_layout, use_onp=use_onp)
        for group in grouped.values()
    ]
    coords = []
    row = 0
    for stack, group in zip(stacks, grouped.values()):
        coords.extend(
            FactorStack.compute_jacobian_coords(group, local_storage_layout, row)
        )
        row += stack.get_residual_dim()
    return StackedFactorGraph(
        stacks,
        jax.tree_map(lambda *xs: onp.concatenate(xs, axis=0), *coords),
        storage_layout,
        local_storage_layout,
        row,
    )
'''))

R("graph: residual through a stack method", (STACK, '''    def compute_residual_jacobian(
        self,''', '''    def compute_whitened_residual_vector(
        self, assignments: VariableAssignments
    ) -> jnp.ndarray:
        """Whitened residuals of all factors, flattened."""
        noise_model = self.factor.noise_model
        whiten = jax.vmap(type(noise_model).whiten_residual_vector)
        return whiten(noise_model, self.compute_residual_vector(assignments)).flatten()

    def compute_residual_jacobian(
        self,'''), (GRAPH, '''            [
                jax.vmap(
                    type(stacked_factor.factor.noise_model).whiten_residual_vector
                )(
                    stacked_factor.factor.noise_model,
                    stacked_factor.compute_residual_vector(assignments),
                ).flatten()
                for stacked_factor in self.factor_stacks
            ],
''', '''            [
                stacked_factor.compute_whitened_residual_vector(assignments)
                for stacked_factor in self.factor_stacks
            ],
'''))

R("graph: jacobian through a stack method and split", D(GRAPH, "StackedFactorGraph.compute_whitened_residual_jacobian", '''
@jdc.jit
def compute_whitened_residual_jacobian(
    self,
    assignments: VariableAssignments,
    residual_vector: hints.Array,
) -> sparse.SparseCooMatrix:
    """Compute the Jacobian of a graph's residual vector."""
    assignments = assignments.update_storage_layout(self.storage_layout)

    def whitened(stack: FactorStack, residuals: hints.Array) -> List[jnp.ndarray]:
        noise_model = stack.factor.noise_model
        whiten = jax.vmap(type(noise_model).whiten_jacobian)
        return [
            whiten(noise_model, jacobian, residual_vector=residuals).flatten()
            for jacobian in stack.compute_residual_jacobian(assignments)
        ]

    values: List[jnp.ndarray] = []
    start = 0
    for stack in self.factor_stacks:
        dim = stack.get_residual_dim()
        block = residual_vector[start : start + dim].reshape(
            (stack.num_factors, stack.factor.get_residual_dim())
        )
        values += whitened(stack, block)
        start += dim
    assert start != 0
    assert start == self.residual_dim

    return sparse.SparseCooMatrix(
        jnp.concatenate(values),
        self.jacobian_coords,
        (self.residual_dim, self.local_storage_layout.dim),
    )
'''))

R("graph: nll with log determinant helper", D(GRAPH, "StackedFactorGraph.compute_joint_nll", '''
@jdc.jit
def compute_joint_nll(
    self,
    assignments: VariableAssignments,
    include_constants: bool = False,
) -> jnp.ndarray:
    """Compute the joint negative log-likelihood density."""
    if include_constants:
        raise NotImplementedError()

    cost, _ = self.compute_cost(assignments)
    for stack in self.factor_stacks:
        log_dets = _log_covariance_determinants(stack.factor.noise_model)
        assert log_dets.shape == (stack.num_factors,)
        cost += jnp.sum(log_dets)
    return cost
'''), (GRAPH, '''@jdc.pytree_dataclass
class StackedFactorGraph:''', '''def _log_covariance_determinants(noise_model: noises.NoiseModelBase) -> jnp.ndarray:
    """Log-determinant of the covariance of each factor in a stack."""
    if isinstance(noise_model, noises.Gaussian):
        roots = jnp.linalg.det(noise_model.sqrt_precision_matrix)
    elif isinstance(noise_model, noises.DiagonalGaussian):
        roots = jnp.prod(noise_model.sqrt_precision_diagonal, axis=-1)
    else:
        assert False, f"Joint NLL not supported  for {type(noise_model)}"
    return -2.0 * jnp.log(jnp.abs(roots))


@jdc.pytree_dataclass
class StackedFactorGraph:'''))

R("stack: indices by comprehension over slots", D(STACK, "FactorStack.make", '''
@staticmethod
def make(
    factors: Sequence[FactorType],
    storage_layout: StorageLayout,
    use_onp: bool,
) -> "FactorStack[FactorType]":
    """Make a stacked factor."""
    numpy_module = onp if use_onp else jnp
    anonymized = [factor.anonymize_variables() for factor in factors]
    stacked_factor: FactorType = jax.tree_map(
        lambda *arrays: numpy_module.stack(arrays, axis=0), *anonymized
    )

    first = factors[0]
    for factor in factors:
        for variable, reference in zip(factor.variables, first.variables):
            assert isinstance(
                variable, type(reference)
            ), "Variable types of stacked factors must match"

    def indices(variable: VariableBase) -> onp.ndarray:
        start = storage_layout.index_from_variable[variable]
        return onp.arange(start, start + variable.get_parameter_dim())

    return FactorStack(
        num_factors=len(factors),
        factor=stacked_factor,
        value_indices=tuple(
            onp.array([indices(factor.variables[slot]) for factor in factors])
            for slot in range(len(stacked_factor.variables))
        ),
        storage_layout=storage_layout,
    )
'''))

R("stack: coords in helper per slot", D(STACK, "FactorStack.compute_jacobian_coords", '''
@staticmethod
def compute_jacobian_coords(
    factors: Sequence[FactorType],
    local_storage_layout: StorageLayout,
    row_offset: int,
) -> List[sparse.SparseCooCoordinates]:
    """Computes Jacobian coordinates for a factor stack."""
    first = factors[0]
    num_factors = len(factors)
    residual_dim = first.get_residual_dim()
    rows = row_offset + onp.arange(num_factors * residual_dim).reshape(
        (num_factors, residual_dim, 1)
    )

    out: List[sparse.SparseCooCoordinates] = []
    for slot, example in enumerate(first.variables):
        dim = type(example).get_local_parameter_dim()
        cols = onp.array(
            [
                onp.arange(dim)
                + local_storage_layout.index_from_variable[factor.variables[slot]]
                for factor in factors
            ]
        ).reshape((num_factors, 1, dim))
        shape = (num_factors, residual_dim, dim)
        out.append(
            sparse.SparseCooCoordinates(
                rows=onp.broadcast_to(rows, shape).flatten(),
                cols=onp.broadcast_to(cols, shape).flatten(),
            )
        )
    return out
'''))

R("stack: shared values helper", (STACK, '''    def compute_residual_vector(self, assignments''', '''    def _values(self, assignments: VariableAssignments):
        assert assignments.storage_layout == self.storage_layout
        values = []
        for variable, indices in zip(self.factor.variables, self.value_indices):
            values.append(jax.vmap(type(variable).unflatten)(assignments.storage[indices]))
        return self.factor.build_variable_value_tuple(tuple(values))

    def compute_residual_vector(self, assignments'''), D(STACK, "FactorStack.compute_residual_vector", '''
def compute_residual_vector(self, assignments: VariableAssignments) -> jnp.ndarray:
    """Compute stacked residual vectors."""
    compute = jax.vmap(type(self.factor).compute_residual_vector)
    return compute(self.factor, self._values(assignments))
'''), D(STACK, "FactorStack.compute_residual_jacobian", '''
def compute_residual_jacobian(
    self,
    assignments: VariableAssignments,
) -> Tuple[jnp.ndarray, ...]:
    """Compute stacked Jacobian matrices, one for each variable."""
    return jax.vmap(lambda factor, values: factor.compute_residual_jacobians(values))(
        self.factor, self._values(assignments)
    )
'''))

R("factor: jacobians one variable at a time", D(FACTOR, "FactorBase.compute_residual_jacobians", '''
def compute_residual_jacobians(
    self, variable_values: VariableValueTuple
) -> Tuple[jnp.ndarray, ...]:
    """Compute Jacobian of residual with respect to local parameterization."""
    assert len(self.variables) == len(variable_values)
    residual_dim = self.get_residual_dim()
    residual_jacobians = jax.jacfwd(self.compute_residual_vector)(variable_values)

    out = []
    for variable, value, residual_jacobian in zip(
        self.variables, variable_values, residual_jacobians
    ):
        wrt_parameters = jnp.concatenate(
            [
                leaf.reshape((residual_dim, -1))
                for leaf in jax.tree_leaves(residual_jacobian)
            ],
            axis=1,
        )
        wrt_delta = jnp.concatenate(
            [
                leaf.reshape((-1, variable.get_local_parameter_dim()))
                for leaf in variable.manifold_retract_jacobian(value)
            ],
            axis=0,
        )
        out.append(wrt_parameters @ wrt_delta)
    return tuple(out)
'''))

R("factor: type hints helper", D(FACTOR, "FactorBase.build_variable_value_tuple", '''
@final
def build_variable_value_tuple(
    self, variable_values: Tuple[hints.VariableValue, ...]
) -> VariableValueTuple:
    """Prepares and validates a raw tuple of variable values."""
    assert isinstance(variable_values, tuple)
    annotations = get_type_hints(self.compute_residual_vector)
    if "variable_values" not in annotations:
        raise NotImplementedError(
            f"Missing type hints for {type(self).__name__}.compute_residual_vector"
        )
    value_type = annotations["variable_values"]

    output: VariableValueTuple
    if type(value_type) is type:
        # Named tuple
        output = value_type(*variable_values)
        expected = tuple(get_type_hints(value_type).values())
    else:
        output = cast(VariableValueTuple, variable_values)
        expected = get_args(value_type)

    if len(expected) == 2 and expected[1] is Ellipsis:
        expected = (expected[0],) * len(variable_values)

    assert len(variable_values) == len(expected)
    for position, value in enumerate(variable_values):
        assert isinstance(value, expected[position]), (
            f"Variable value type hint inconsistency: expected {expected[position]} at, "
            f"position {position} but got {type(value)}."
        )
    return output
'''))

# ---- covariance

R("covariance: marginal with index array", D(COV, "SparseCovariance._compute_marginal", '''
def _compute_marginal(self, indices: Sequence[int]) -> onp.ndarray:
    """Compute marginal covariance using a set of indices."""
    return onp.array([[self[i, j] for j in indices] for i in indices]).reshape(
        (len(indices), len(indices))
    )
'''), D(COV, "SparseCovariance.compute_marginal", '''
def compute_marginal(self, *variables: core.VariableBase) -> onp.ndarray:
    """Compute marginal covariance for a set of variables."""
    starts = self.local_storage_layout.index_from_variable
    return self._compute_marginal(
        [
            starts[v] + offset
            for v in variables
            for offset in range(v.get_local_parameter_dim())
        ]
    )
'''))

R("covariance: sum over column inline with slices", D(COV, "SparseCovariance._sum_over_col", '''
def _sum_over_col(self, col: int, col_l: int) -> float:
    column = self.L.getcol(col)
    entries = zip(column.indices, column.data)
    return sum(
        (value * self[row, col_l] for row, value in entries if row != col), 0.0
    )
'''))

R("covariance: getitem with cached get", D(COV, "SparseCovariance.__getitem__", '''
def __getitem__(self, indices: Tuple[int, int]) -> float:
    """Get a single value in our sparse covariance matrix."""
    row, col = indices
    if row > col:
        row, col = col, row
    cached = self._value_cache.get((row, col))
    if cached is not None:
        return cached
    value = -self.L_diag_inv[row] * self._sum_over_col(row, col)
    if row == col:
        value += self.L_diag_inv[row] ** 2
    self._value_cache[(row, col)] = value
    return value
'''))

# ---- geometry and files

R("lie: factors spelled out", D(GEO, "PriorFactor.compute_residual_vector", '''
@overrides
def compute_residual_vector(self, variable_values: PriorValueTuple) -> jnp.ndarray:
    T = variable_values[0]
    return T.inverse().multiply(self.mu).log()
'''), D(GEO, "BetweenFactor.compute_residual_vector", '''
@overrides
def compute_residual_vector(
    self, variable_values: BetweenValueTuple
) -> jnp.ndarray:
    T_world_a, T_world_b = variable_values
    T_b_a = T_world_b.inverse() @ T_world_a
    return (T_b_a @ self.T_a_b).log()
'''), D(GEO, "BetweenFactor.compute_residual_jacobians", '''
@overrides
def compute_residual_jacobians(
    self, variable_values: BetweenValueTuple
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    T_world_a, T_world_b = variable_values
    assert type(T_world_a) is type(T_world_b)
    T_b_a = T_world_b.inverse() @ T_world_a
    return T_b_a.adjoint(), -jnp.identity(type(T_world_b).tangent_dim)
'''))

R("lie: retract by exp", D(LIE, "LieVariableBase.manifold_retract", '''
@classmethod
@final
@overrides
def manifold_retract(cls, x: T, local_delta: hints.LocalVariableValue) -> T:
    group = cls.get_group_type()
    return x @ group.exp(local_delta)
'''))

R("g2o: reader functions per record", D(G2O, "parse_g2o", '''
def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
    """Parse a G2O file. Creates a list of factors and dictionary of initial poses."""

    with open(path) as file:
        lines = [line.strip() for line in file]

    pose_variables: List[jaxfg.geometry.LieVariableBase] = []
    initial_poses: Dict[jaxfg.geometry.LieVariableBase, jaxlie.MatrixLieGroup] = {}
    factors: List[jaxfg.core.FactorBase] = []

    def add_vertex(variable, index: int, pose) -> None:
        assert index == len(initial_poses)
        initial_poses[variable] = pose
        pose_variables.append(variable)

    def add_edge(before: int, after: int, between, upper) -> None:
        factors.append(
            jaxfg.geometry.BetweenFactor.make(
                pose_variables[before],
                pose_variables[after],
                between,
                jaxfg.noises.Gaussian(_sqrt_precision(upper, between.tangent_dim)),
            )
        )

    for line in tqdm(lines):
        parts = [part for part in line.split(" ") if part != ""]
        kind = parts[0]

        if kind == "VERTEX_SE2":
            if len(pose_variables) > pose_count_limit:
                continue
            _, index, x, y, theta = parts
            add_vertex(
                jaxfg.geometry.SE2Variable(),
                int(index),
                jaxlie.SE2.from_xy_theta(float(x), float(y), float(theta)),
            )
        elif kind == "EDGE_SE2":
            before, after = int(parts[1]), int(parts[2])
            if before > pose_count_limit or after > pose_count_limit:
                continue
            numbers = [float(p) for p in parts[3:]]
            add_edge(before, after, jaxlie.SE2.from_xy_theta(*numbers[:3]), numbers[3:])
        elif kind == "VERTEX_SE3:QUAT":
            _, index, x, y, z, qx, qy, qz, qw = parts
            add_vertex(
                jaxfg.geometry.SE3Variable(),
                int(index),
                jaxlie.SE3(
                    wxyz_xyz=onp.array([float(p) for p in (qw, qx, qy, qz, x, y, z)])
                ),
            )
        elif kind == "EDGE_SE3:QUAT":
            numbers = [float(p) for p in parts[3:]]
            assert len(numbers) == 7 + 21
            add_edge(
                int(parts[1]),
                int(parts[2]),
                jaxlie.SE3.from_rotation_and_translation(
                    jaxlie.SO3.from_quaternion_xyzw(onp.array(numbers[3:7])),
                    onp.array(numbers[0:3]),
                ),
                numbers[7:],
            )
        else:
            assert False, f"Unexpected line type: {parts[0]}"

    # Anchor start pose
    anchor = pose_variables[0]
    factors.append(
        jaxfg.geometry.PriorFactor.make(
            variable=anchor,
            mu=initial_poses[anchor],
            noise_model=jaxfg.noises.DiagonalGaussian(
                100.0 * jnp.ones(anchor.get_local_parameter_dim())
            ),
        )
    )
    return G2OData(factors=factors, initial_poses=initial_poses)


def _sqrt_precision(upper: List[float], dim: int) -> onp.ndarray:
    precision = onp.zeros((dim, dim))
    precision[onp.triu_indices(dim)] = upper
    precision = precision.T
    precision[onp.triu_indices(dim)] = upper
    return onp.linalg.cholesky(precision).T
'''))

R("g2o: sqrt precision helper only", (G2O, '''            precision_matrix = onp.zeros((3, 3))
            precision_matrix[onp.triu_indices(3)] = precision_matrix_components
            precision_matrix = precision_matrix.T
            precision_matrix[onp.triu_indices(3)] = precision_matrix_components
            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T
''', '''            sqrt_precision_matrix = _root_from_upper(precision_matrix_components, 3)
'''), (G2O, '''            precision_matrix = onp.zeros((6, 6))
            precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]
            precision_matrix = precision_matrix.T
            precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]
            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T
''', '''            sqrt_precision_matrix = _root_from_upper(numerical_parts[7:], 6)
'''), (G2O, '''def parse_g2o(''', '''def _root_from_upper(entries, n: int) -> onp.ndarray:
    """Transposed Cholesky factor of a symmetric matrix given by its upper triangle."""
    upper = onp.zeros((n, n))
    upper[onp.triu_indices(n)] = entries
    symmetric = upper + upper.T - onp.diag(onp.diag(upper))
    return onp.linalg.cholesky(symmetric).T


def parse_g2o('''))

# ---- constructs of the language

R("layout: generator function of spans", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    groups: Dict[Type[VariableBase], List[VariableBase]] = {}
    for variable in variables:
        groups.setdefault(type(variable), []).append(variable)

    def dim(variable_type) -> int:
        return (
            variable_type.get_local_parameter_dim()
            if local
            else variable_type.get_parameter_dim()
        )

    def spans():
        start = 0
        for variable_type, members in groups.items():
            yield variable_type, members, start
            start += dim(variable_type) * len(members)

    index_from_variable = {}
    index_from_variable_type = {}
    for variable_type, members, start in spans():
        index_from_variable_type[variable_type] = start
        for position, member in enumerate(members):
            index_from_variable[member] = start + position * dim(variable_type)

    return StorageLayout(
        local_flag=local,
        dim=sum(dim(t) * len(members) for t, members in groups.items()),
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(index_from_variable_type),
        count_from_variable_type=frozendict({t: len(m) for t, m in groups.items()}),
    )
'''))

R("layout: while loop over a deque", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    variables_from_type: DefaultDict[Type[VariableBase], List[VariableBase]] = DefaultDict(
        list
    )
    for variable in variables:
        variables_from_type[type(variable)].append(variable)

    index_from_variable: Dict[VariableBase, int] = {}
    index_from_variable_type: Dict[Type[VariableBase], int] = {}
    storage_index = 0
    for variable_type in variables_from_type:
        members = variables_from_type[variable_type]
        index_from_variable_type[variable_type] = storage_index
        dim = (
            variable_type.get_local_parameter_dim
            if local
            else variable_type.get_parameter_dim
        )()
        for i in range(len(members)):
            index_from_variable[members[i]] = storage_index + dim * i
        storage_index += dim * len(members)

    return StorageLayout(
        local_flag=local,
        dim=storage_index,
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(index_from_variable_type),
        count_from_variable_type=frozendict(
            zip(variables_from_type, map(len, variables_from_type.values()))
        ),
    )
'''))

R("layout: chain of groups", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    by_type: Dict[Type[VariableBase], List[VariableBase]] = collections.defaultdict(list)
    for v in variables:
        by_type[type(v)].append(v)

    get_dim = operator.methodcaller(
        "get_local_parameter_dim" if local else "get_parameter_dim"
    )
    index_from_variable: Dict[VariableBase, int] = {}
    total = 0
    for v in itertools.chain.from_iterable(by_type.values()):
        index_from_variable[v] = total
        total += get_dim(v)
    return StorageLayout(
        local_flag=local,
        dim=total,
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(
            {t: index_from_variable[members[0]] for t, members in by_type.items()}
        ),
        count_from_variable_type=frozendict(
            {t: len(members) for t, members in by_type.items()}
        ),
    )
'''), (LAYOUT, "import dataclasses\n", "import collections\nimport dataclasses\nimport itertools\nimport operator\n"))

R("layout: chain of groups, plain dims", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    by_type: Dict[Type[VariableBase], List[VariableBase]] = collections.defaultdict(list)
    for v in variables:
        by_type[type(v)].append(v)

    index_from_variable: Dict[VariableBase, int] = {}
    total = 0
    for v in itertools.chain(*by_type.values()):
        index_from_variable[v] = total
        total += v.get_local_parameter_dim() if local else v.get_parameter_dim()
    return StorageLayout(
        local_flag=local,
        dim=total,
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(
            {t: index_from_variable[members[0]] for t, members in by_type.items()}
        ),
        count_from_variable_type=frozendict(
            {t: len(members) for t, members in by_type.items()}
        ),
    )
'''), (LAYOUT, "import dataclasses\n", "import collections\nimport dataclasses\nimport itertools\n"))

R("layout: if raise for reversed order of statements", (ASSIGN, '''        assert self.storage_layout.dim == storage_layout.dim
        assert self.storage_layout.local_flag == storage_layout.local_flag
        assert set(self.storage_layout.get_variables()) == set(
            storage_layout.get_variables()
        )
''', '''        if self.storage_layout.dim != storage_layout.dim:
            raise AssertionError("Storage dimensions must match")
        if self.storage_layout.local_flag != storage_layout.local_flag:
            raise AssertionError("Cannot mix local and global storage")
        if set(self.storage_layout.get_variables()) ^ set(
            storage_layout.get_variables()
        ):
            raise AssertionError("Variables must match")
'''))

R("assignments: walrus and conditional expression", (ASSIGN, '''        if self.storage_layout == storage_layout:
            return self

''', '''        if (current := self.storage_layout) == storage_layout:
            return self
        del current

'''))

R("assignments: defaults through repeat", D(ASSIGN, "VariableAssignments.make_from_defaults", '''
@staticmethod
def make_from_defaults(variables: Iterable[VariableBase]) -> "VariableAssignments":
    """Create an assignment object from the default values corresponding to each variable."""
    layout = StorageLayout.make(variables)
    blocks = []
    for variable_type, count in layout.count_from_variable_type.items():
        flat_default = jax.jit(variable_type.flatten)(variable_type.get_default_value())
        blocks.append(jnp.tile(flat_default, count))
    storage = jnp.concatenate(blocks)
    assert storage.shape == (layout.dim,)
    return VariableAssignments(storage=storage, storage_layout=layout)
'''))

R("assignments: defaults one by one", D(ASSIGN, "VariableAssignments.make_from_defaults", '''
@staticmethod
def make_from_defaults(variables: Iterable[VariableBase]) -> "VariableAssignments":
    """Create an assignment object from the default values corresponding to each variable."""
    return VariableAssignments.make_from_partial_dict(variables, {})
'''))

R("assignments: defaults via none", D(ASSIGN, "VariableAssignments.make_from_defaults", '''
@staticmethod
def make_from_defaults(variables: Iterable[VariableBase]) -> "VariableAssignments":
    """Create an assignment object from the default values corresponding to each variable."""
    layout = StorageLayout.make(variables, local=False)
    storage = jnp.concatenate(
        [
            variable.flatten(variable.get_default_value())
            for variable in layout.get_variables()
        ],
        axis=0,
    )
    assert storage.shape == (layout.dim,)
    return VariableAssignments(storage=storage, storage_layout=layout)
'''))

R("assignments: partial dict by merging", D(ASSIGN, "VariableAssignments.make_from_partial_dict", '''
@staticmethod
def make_from_partial_dict(
    variables: Iterable[VariableBase],
    assignments: Dict[VariableBase, hints.VariableValue],
) -> "VariableAssignments":
    """Create an assignment object from a variables and assignments."""
    storage_layout = StorageLayout.make(variables, local=False)
    flat = []
    for variable in storage_layout.get_variables():
        if assignments is None or variable not in assignments:
            value = variable.get_default_value()
        else:
            value = assignments[variable]
        flat.append(jax.jit(variable.flatten)(value))
    storage = jnp.hstack(flat)
    assert len(storage) == storage_layout.dim
    return VariableAssignments(storage=storage, storage_layout=storage_layout)
'''))

R("assignments: as_dict via zip and map", D(ASSIGN, "VariableAssignments.as_dict", '''
def as_dict(self) -> Dict[VariableBase, hints.VariableValue]:
    """Grab assignments as a variable -> value dictionary."""
    variables = self.get_variables()
    return dict(zip(variables, map(self.get_value, variables)))
'''), D(ASSIGN, "VariableAssignments.__repr__", '''
def __repr__(self) -> str:
    rows = []
    for i, (variable, value) in enumerate(self.as_dict().items()):
        rows.append("    {}.{}: {}".format(i, type(variable).__name__, value))
    return "VariableAssignments(\\n" + "\\n".join(rows) + "\\n)"
'''))

R("assignments: stacked value by unflattening reshaped slice", D(ASSIGN, "VariableAssignments.get_stacked_value", '''
def get_stacked_value(
    self, variable_type: Type[VariableBase[VariableValueType]]
) -> VariableValueType:
    """Get values of all variables corresponding to a specific type."""
    layout = self.storage_layout
    dim = variable_type.get_parameter_dim()
    start, count = (
        table[variable_type]
        for table in (layout.index_from_variable_type, layout.count_from_variable_type)
    )
    block = jax.lax.dynamic_slice_in_dim(self.storage, start, dim * count)
    return jax.vmap(variable_type.unflatten)(block.reshape((count, dim)))
'''))

R("assignments: set by two branches of array kinds", D(ASSIGN, "VariableAssignments.set_value", '''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    start = self.storage_layout.index_from_variable[variable]
    flat = type(variable).flatten(value)
    stop = start + variable.get_parameter_dim()
    storage = jnp.asarray(self.storage).at[start:stop].set(flat)
    return VariableAssignments(storage=storage, storage_layout=self.storage_layout)
'''))

R("assignments: set by concatenation", D(ASSIGN, "VariableAssignments.set_value", '''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    index = self.storage_layout.index_from_variable[variable]
    dim = type(variable).get_parameter_dim()
    storage = jnp.asarray(self.storage)
    return jdc.replace(
        self,
        storage=jnp.concatenate(
            [storage[:index], type(variable).flatten(value), storage[index + dim :]]
        ),
    )
'''))

R("assignments: set by dynamic update", D(ASSIGN, "VariableAssignments.set_value", '''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    with jdc.copy_and_mutate(self) as output:
        output.storage = jax.lax.dynamic_update_slice(
            jnp.asarray(output.storage),
            type(variable).flatten(value),
            (self.storage_layout.index_from_variable[variable],),
        )
    return output
'''))

# ---- factors and stacks

R("factor: anonymize by list and kwargs", D(FACTOR, "FactorBase.anonymize_variables", '''
@final
def anonymize_variables(self: FactorType) -> FactorType:
    """Returns a copy of this factor with canonical variables."""
    canonical = []
    for variable in self.variables:
        variable_type = type(variable)
        canonical.append(variable_type.canonical_instance())
    changes = {"variables": tuple(canonical)}
    return jdc.replace(self, **changes)
'''), D(FACTOR, "FactorBase.get_variable_values_from_assignments", '''
@final
def get_variable_values_from_assignments(
    self, assignments: VariableAssignments
) -> VariableValueTuple:
    """Prepare a set of variable values corresponding to this factor."""
    values = (*map(assignments.get_value, self.variables),)
    return self.build_variable_value_tuple(values)
'''))

R("factor: validation by all and zip", (FACTOR, '''        # Validate expected and received types
''', '''        # Check what we got
'''), (FACTOR, '''        if len(tuple_content_types) == 2 and tuple_content_types[1] is Ellipsis:
            tuple_content_types = tuple_content_types[0:1] * len(variable_values)
''', '''        if len(tuple_content_types) == 2 and tuple_content_types[-1] is Ellipsis:
            content_type, _ = tuple_content_types
            tuple_content_types = tuple(content_type for _ in variable_values)
'''))

R("factor: jacobian via linear composition function", D(FACTOR, "FactorBase.compute_residual_jacobians", '''
def compute_residual_jacobians(
    self, variable_values: VariableValueTuple
) -> Tuple[jnp.ndarray, ...]:
    """Compute Jacobian of residual with respect to local parameterization."""
    assert len(variable_values) == len(self.variables)

    def flatten_rows(tree, rows):
        return [leaf.reshape((rows, -1)) for leaf in jax.tree_leaves(tree)]

    def flatten_cols(tree, cols):
        return [leaf.reshape((-1, cols)) for leaf in jax.tree_leaves(tree)]

    outer = jax.jacfwd(self.compute_residual_vector)(variable_values)
    return tuple(
        jnp.dot(
            jnp.concatenate(flatten_rows(outer[i], self.get_residual_dim()), axis=-1),
            jnp.concatenate(
                flatten_cols(
                    variable.manifold_retract_jacobian(variable_values[i]),
                    variable.get_local_parameter_dim(),
                ),
                axis=0,
            ),
        )
        for i, variable in enumerate(self.variables)
    )
'''))

R("stack: post init raising", (STACK, '''        assert len(self.value_indices) == len(self.factor.variables)
''', '''        if not len(self.value_indices) == len(self.factor.variables):
            raise AssertionError("One array of indices is needed for each variable")
'''))

R("stack: values by dict of slots", (STACK, '''        value_indices_list: Tuple[List[onp.ndarray], ...] = tuple(
            [] for _ in range(len(stacked_factor.variables))
        )
        for factor in factors:
            for i, variable in enumerate(factor.variables):
                assert isinstance(
                    variable, type(factors[0].variables[i])
                ), "Variable types of stacked factors must match"
                storage_pos = storage_layout.index_from_variable[variable]
                value_indices_list[i].append(
                    onp.arange(storage_pos, storage_pos + variable.get_parameter_dim())
                )
        value_indices_stacked: Tuple[onp.ndarray, ...] = tuple(
            onp.array(indices) for indices in value_indices_list
        )
''', '''        value_indices_stacked = ()
        for slot, reference in enumerate(factors[0].variables):
            rows = []
            for factor in factors:
                variable = factor.variables[slot]
                assert isinstance(
                    variable, type(reference)
                ), "Variable types of stacked factors must match"
                first = storage_layout.index_from_variable[variable]
                rows.append(first + onp.arange(variable.get_parameter_dim()))
            value_indices_stacked += (onp.stack(rows),)
'''))

R("stack: coords by tile and repeat", (STACK, '''            coords = onp.stack(
                (
                    onp.broadcast_to(
                        residual_indices[:, :, None],
                        (num_factors, residual_dim, variable_dim),
                    )
                    + row_offset,
                    onp.broadcast_to(
                        local_value_indices_stacked[variable_index][:, None, :],
                        (num_factors, residual_dim, variable_dim),
                    ),
                ),
                axis=-1,
            ).reshape((num_factors * residual_dim * variable_dim, 2))
            jacobian_coords.append(
                sparse.SparseCooCoordinates(
                    rows=coords[:, 0],
                    cols=coords[:, 1],
                )
            )
''', '''            full_shape = (num_factors, residual_dim, variable_dim)
            rows = onp.broadcast_to(residual_indices[..., None] + row_offset, full_shape)
            cols = onp.broadcast_to(
                local_value_indices_stacked[variable_index][:, onp.newaxis], full_shape
            )
            jacobian_coords.append(
                sparse.SparseCooCoordinates(rows=rows.ravel(), cols=cols.ravel())
            )
'''))

R("stack: coords by numpy repeat", (STACK, '''            coords = onp.stack(
                (
                    onp.broadcast_to(
                        residual_indices[:, :, None],
                        (num_factors, residual_dim, variable_dim),
                    )
                    + row_offset,
                    onp.broadcast_to(
                        local_value_indices_stacked[variable_index][:, None, :],
                        (num_factors, residual_dim, variable_dim),
                    ),
                ),
                axis=-1,
            ).reshape((num_factors * residual_dim * variable_dim, 2))
            jacobian_coords.append(
                sparse.SparseCooCoordinates(
                    rows=coords[:, 0],
                    cols=coords[:, 1],
                )
            )
''', '''            rows = row_offset + onp.repeat(residual_indices.flatten(), variable_dim)
            cols = onp.repeat(
                local_value_indices_stacked[variable_index][:, None, :],
                residual_dim,
                axis=1,
            )
            jacobian_coords.append(
                sparse.SparseCooCoordinates(rows=rows, cols=cols.flatten())
            )
'''))

R("stack: vmap by in_axes spelled", D(STACK, "FactorStack.compute_residual_vector", '''
def compute_residual_vector(self, assignments: VariableAssignments) -> jnp.ndarray:
    """Compute stacked residual vectors."""
    assert assignments.storage_layout == self.storage_layout
    values = []
    for i, variable in enumerate(self.factor.variables):
        flat = assignments.storage[self.value_indices[i]]
        values.append(jax.vmap(type(variable).unflatten, in_axes=0, out_axes=0)(flat))

    def residual(factor, variable_values):
        return type(factor).compute_residual_vector(factor, variable_values)

    return jax.vmap(residual, in_axes=(0, 0))(
        self.factor, self.factor.build_variable_value_tuple(tuple(values))
    )
'''))

# ---- graphs

R("graph: cost with vdot", D(GRAPH, "StackedFactorGraph.compute_cost", '''
@jdc.jit
def compute_cost(
    self, assignments: VariableAssignments
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    """Compute the sum of squared residuals associated with a factor graph."""
    r = self.compute_whitened_residual_vector(assignments)
    return jnp.vdot(r, r), r
'''))

R("graph: nll by list of terms", D(GRAPH, "StackedFactorGraph.compute_joint_nll", '''
@jdc.jit
def compute_joint_nll(
    self,
    assignments: VariableAssignments,
    include_constants: bool = False,
) -> jnp.ndarray:
    """Compute the joint negative log-likelihood density."""
    if include_constants:
        raise NotImplementedError()

    terms = [jnp.sum(self.compute_whitened_residual_vector(assignments) ** 2)]
    for stack in self.factor_stacks:
        noise_model = stack.factor.noise_model
        if isinstance(noise_model, noises.Gaussian):
            determinant = jnp.linalg.det(noise_model.sqrt_precision_matrix)
            log_determinant = jnp.log(jnp.abs(determinant))
        elif isinstance(noise_model, noises.DiagonalGaussian):
            log_determinant = jnp.sum(
                jnp.log(jnp.abs(noise_model.sqrt_precision_diagonal)), axis=-1
            )
        else:
            raise AssertionError(f"Joint NLL not supported  for {type(noise_model)}")
        assert log_determinant.shape == (stack.num_factors,)
        terms.append(-2.0 * jnp.sum(log_determinant))
    return sum(terms)
'''))

R("graph: nll with slogdet", (GRAPH, '''                cov_determinants = -2.0 * jnp.log(
                    jnp.abs(
                        jnp.linalg.det(
                            cast(noises.Gaussian, noise_model).sqrt_precision_matrix
                        )
                    )
                )
''', '''                _sign, log_abs_det = jnp.linalg.slogdet(
                    cast(noises.Gaussian, noise_model).sqrt_precision_matrix
                )
                cov_determinants = -2.0 * log_abs_det
'''))

R("graph: residual list then concatenate", D(GRAPH, "StackedFactorGraph.compute_whitened_residual_vector", '''
@jdc.jit
def compute_whitened_residual_vector(
    self, assignments: VariableAssignments
) -> jnp.ndarray:
    """Computes flattened+whitened residual vector associated with our factor graph."""
    assignments = assignments.update_storage_layout(self.storage_layout)
    blocks = []
    for stack in self.factor_stacks:
        residuals = stack.compute_residual_vector(assignments)
        noise_model = stack.factor.noise_model
        whitened = jax.vmap(lambda model, r: model.whiten_residual_vector(r))(
            noise_model, residuals
        )
        blocks.append(jnp.reshape(whitened, (-1,)))
    residual_vector = jnp.concatenate(blocks)
    if residual_vector.shape != (self.residual_dim,):
        raise AssertionError("Residual dimension mismatch")
    return residual_vector
'''))

R("graph: jacobian by cumulative split", D(GRAPH, "StackedFactorGraph.compute_whitened_residual_jacobian", '''
@jdc.jit
def compute_whitened_residual_jacobian(
    self,
    assignments: VariableAssignments,
    residual_vector: hints.Array,
) -> sparse.SparseCooMatrix:
    """Compute the Jacobian of a graph's residual vector."""
    assignments = assignments.update_storage_layout(self.storage_layout)

    values = []
    offset = 0
    for stack in self.factor_stacks:
        noise_model = stack.factor.noise_model
        rows = stack.factor.get_residual_dim()
        length = rows * stack.num_factors
        residuals = jnp.reshape(
            residual_vector[offset : offset + length], (stack.num_factors, rows)
        )
        offset += length
        for jacobian in stack.compute_residual_jacobian(assignments):
            whitened = jax.vmap(
                lambda model, J, r: model.whiten_jacobian(J, residual_vector=r)
            )(noise_model, jacobian, residuals)
            values.append(whitened.ravel())
    assert offset != 0
    assert offset == self.residual_dim
    return sparse.SparseCooMatrix(
        values=jnp.concatenate(values, axis=0),
        coords=self.jacobian_coords,
        shape=(self.residual_dim, self.local_storage_layout.dim),
    )
'''))

R("graph: get_variables from global layout", D(GRAPH, "StackedFactorGraph.get_variables", '''
def get_variables(self) -> Collection[VariableBase]:
    return self.storage_layout.get_variables()
'''))

R("graph: key via namedtuple", (GRAPH, '''            group_key: GroupKey = (
                jax.tree_structure(factor.anonymize_variables()),
                tuple(
                    leaf.shape if hasattr(leaf, "shape") else ()
                    for leaf in jax.tree_leaves(factor)
                ),
            )
''', '''            leaves, _ = jax.tree_util.tree_flatten(factor)
            shapes = tuple(jnp.shape(leaf) for leaf in leaves)
            group_key: GroupKey = (
                jax.tree_util.tree_structure(factor.anonymize_variables()),
                shapes,
            )
'''))

R("graph: flatten once for key", (GRAPH, '''            group_key: GroupKey = (
                jax.tree_structure(factor.anonymize_variables()),
                tuple(
                    leaf.shape if hasattr(leaf, "shape") else ()
                    for leaf in jax.tree_leaves(factor)
                ),
            )
''', '''            leaves, treedef = jax.tree_util.tree_flatten(factor.anonymize_variables())
            group_key: GroupKey = (
                treedef,
                tuple(leaf.shape if hasattr(leaf, "shape") else () for leaf in leaves),
            )
'''))

# ---- solvers

R("base: print by early return inverted", D(NB, "NonlinearSolverBase._hcb_print", '''
def _hcb_print(
    self,
    string_from_args: Callable[..., str],
    *args: hints.Pytree,
    **kwargs: hints.Pytree,
) -> None:
    """Helper for printer optimizer messages via host callbacks."""
    if self.verbose:
        prefix = f"[{type(self).__name__}]"

        def tap(arguments, _transforms) -> None:
            positional, named = arguments
            print(prefix, string_from_args(*positional, **named))

        hcb.id_tap(tap, (args, kwargs))
'''))

R("fixed: unrolled by fori free helper", (FX, '''        if self.unroll:
            for i in range(self.iterations):
                state = self._step(graph, state)
        else:
            state = jax.lax.while_loop(
                cond_fun=lambda state: jnp.logical_not(state.done),
                body_fun=functools.partial(self._step, graph),
                init_val=state,
            )
''', '''        step = functools.partial(self._step, graph)
        if self.unroll:
            remaining = self.iterations
            while remaining > 0:
                state = step(state)
                remaining -= 1
        else:
            state = jax.lax.while_loop(lambda s: jnp.logical_not(s.done), step, state)
'''))

R("fixed: unrolled by reduce", (FX, '''            for i in range(self.iterations):
                state = self._step(graph, state)
''', '''            state = functools.reduce(
                lambda state, _: self._step(graph, state), range(self.iterations), state
            )
'''))

R("fixed: step delegates assembly", (FX, '''        done = state_prev.iterations >= (self.iterations - 1)
        return NonlinearSolverState(
            iterations=state_prev.iterations + 1,
            assignments=assignments,
            cost=cost,
            residual_vector=residual_vector,
            done=done,
        )
''', '''        iterations = state_prev.iterations + 1
        return NonlinearSolverState(
            iterations=iterations,
            assignments=assignments,
            cost=cost,
            residual_vector=residual_vector,
            done=iterations >= self.iterations,
        )
'''))

R("LM: rejected flag", (LM, '''        accept_flag = (
            self.compute_step_quality(
                A=A,
                proposed_cost=proposed_cost,
                state_prev=state_prev,
                step_vector=step_vector,
            )
            >= self.step_quality_min
        )
''', '''        step_quality = self.compute_step_quality(
            A=A,
            proposed_cost=proposed_cost,
            state_prev=state_prev,
            step_vector=step_vector,
        )
        accept_flag = jnp.greater_equal(step_quality, self.step_quality_min)
'''), (LM, '''        done = jnp.logical_or(
            self.check_exceeded_max_iterations(state_prev=state_prev),
            jnp.logical_and(
                accept_flag,
                self.check_convergence(
                    state_prev=state_prev,
                    cost_updated=proposed_cost,
                    local_delta_assignments=local_delta_assignments,
                    negative_gradient=ATb,
                ),
            ),
        )
''', '''        exceeded = self.check_exceeded_max_iterations(state_prev=state_prev)
        converged = self.check_convergence(
            state_prev=state_prev,
            cost_updated=proposed_cost,
            local_delta_assignments=local_delta_assignments,
            negative_gradient=ATb,
        )
        done = jnp.where(accept_flag, exceeded | converged, exceeded)
'''))

R("LM: damping by lax.cond", (LM, '''        lambd = jnp.where(
            accept_flag,
            state_prev.lambd / self.lambda_factor,
            jnp.maximum(
                self.lambda_min,
                jnp.minimum(state_prev.lambd * self.lambda_factor, self.lambda_max),
            ),
        )
''', '''        lambd = jax.lax.cond(
            accept_flag,
            lambda lambd: lambd / self.lambda_factor,
            lambda lambd: jnp.maximum(
                jnp.minimum(lambd * self.lambda_factor, self.lambda_max),
                self.lambda_min,
            ),
            state_prev.lambd,
        )
'''), (LM, "import jax_dataclasses as jdc\n", "import jax\nimport jax_dataclasses as jdc\n"))

R("mixins: any by logical_or reduce", (MX, '''        return jnp.any(
            jnp.array(
                [
                    converged_cost,
                    converged_gradient,
                    converged_parameters,
                ]
            ),
            axis=0,
        )
''', '''        return functools.reduce(
            jnp.logical_or, (converged_cost, converged_gradient, converged_parameters)
        )
'''), (MX, "import jax\n", "import functools\n\nimport jax\n"))

R("mixins: cost criterion without division alias", (MX, '''        converged_cost = (
            jnp.abs(cost_updated - state_prev.cost) / state_prev.cost
            < self.cost_tolerance
        )
''', '''        cost_prev = state_prev.cost
        converged_cost = self.cost_tolerance > jnp.abs(
            (cost_prev - cost_updated)
        ) / cost_prev
'''))

# ---- linear solvers

R("cholmod: hcb with lambda", (LIN, '''        return hcb.call(self._solve, _LinearSolverArgs(A, ATb, lambd), result_shape=ATb)
''', '''        return hcb.call(
            lambda args: self._solve(args),
            _LinearSolverArgs(A=A, ATb=ATb, lambd=lambd),
            result_shape=ATb,
        )
'''))

R("cholmod: shape struct result", (LIN, '''        return hcb.call(self._solve, _LinearSolverArgs(A, ATb, lambd), result_shape=ATb)
''', '''        return hcb.call(
            self._solve,
            _LinearSolverArgs(A, ATb, lambd),
            result_shape=jax.ShapeDtypeStruct(ATb.shape, ATb.dtype),
        )
'''))

R("cg: ATA closure with local names", (LIN, '''        initial_x = onp.zeros(ATb.shape)
''', '''        dim = ATb.shape[0]
        initial_x = onp.zeros((dim,))
'''), (LIN, '''            maxiter=len(
                initial_x
            ),  # https://en.wikipedia.org/wiki/Conjugate_gradient_method#Convergence_properties
''', '''            maxiter=dim,
'''))

R("cg: tolerance properties", D(LIN, "InexactStepConjugateGradientSolver._get_cg_tolerance", '''
@overrides
def _get_cg_tolerance(self, iteration: hints.Scalar):
    step_number = 1 + iteration
    return jnp.divide(self.inexact_step_eta, step_number)
'''))

R("coo: matmul by take and segment sum", D(COO, "SparseCooMatrix.__matmul__", '''
def __matmul__(self, other: hints.Array):
    """Compute `Ax`, where `x` is a 1D vector."""
    assert other.shape == self.shape[1:], "Inner product only supported for 1D vectors!"
    contributions = self.values * jnp.take(other, self.coords.cols)
    return (
        jnp.zeros(self.shape[:1], dtype=other.dtype)
        .at[self.coords.rows]
        .add(contributions)
    )
'''))

R("coo: dense through flat index", D(COO, "SparseCooMatrix.T", '''
@property
def T(self):
    """Return transpose of our sparse matrix."""
    coords = self.coords
    return SparseCooMatrix(
        self.values,
        SparseCooCoordinates(coords.cols, coords.rows),
        tuple(reversed(self.shape)),
    )
'''))

# ---- noise, covariance, geometry

R("huber: where arguments inverted", D(HUBER, "HuberWrapper.whiten_residual_vector", '''
@overrides
def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
    whitened = self.wrapped.whiten_residual_vector(residual_vector)
    norm = jnp.linalg.norm(whitened)
    scale = jnp.where(norm < self.delta, 1.0, jnp.sqrt(self.delta / norm))
    return scale * whitened
'''), D(HUBER, "HuberWrapper.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,
) -> hints.Array:
    norm = jnp.linalg.norm(residual_vector)
    scale = jnp.where(norm < self.delta, 1.0, self.delta / norm)
    return scale * self.wrapped.whiten_jacobian(jacobian, residual_vector)
'''))

R("gaussian: covariance by triangular solve", D(GAUSS, "Gaussian.make_from_covariance", '''
@staticmethod
def make_from_covariance(covariance: hints.Array) -> "Gaussian":
    assert covariance.ndim == 2, "Covariance must be a square matrix!"
    rows, cols = covariance.shape
    assert rows == cols, "Covariance must be a square matrix!"
    L = jnp.linalg.cholesky(covariance)
    return Gaussian(jax.scipy.linalg.solve_triangular(L, jnp.eye(rows), lower=True))
'''), (GAUSS, "import jax_dataclasses as jdc\n", "import jax\nimport jax_dataclasses as jdc\n"))

R("diagonal: half power", D(GAUSS, "DiagonalGaussian.make_from_covariance", '''
@staticmethod
def make_from_covariance(
    diagonal: Union[hints.Array, Sequence[float]],
) -> "DiagonalGaussian":
    return DiagonalGaussian(sqrt_precision_diagonal=jnp.asarray(diagonal) ** -0.5)
'''))

R("covariance: make stepwise", D(COV, "SparseCovariance.make", '''
@staticmethod
def make(graph: core.StackedFactorGraph, assignments: core.VariableAssignments):
    """Build the sparse covariance corresponding to a factor graph."""
    residuals = graph.compute_whitened_residual_vector(assignments)
    jacobian = graph.compute_whitened_residual_jacobian(assignments, residuals)
    transposed = jacobian.as_scipy_coo_matrix().T.tocsc()
    factor = sksparse.cholmod.cholesky_AAt(transposed, ordering_method="natural")
    L = factor.L()
    return SparseCovariance(L, 1.0 / L.diagonal(), graph.local_storage_layout, dict())
'''))

R("covariance: symmetric fill", D(COV, "SparseCovariance._compute_marginal", '''
def _compute_marginal(self, indices: Sequence[int]) -> onp.ndarray:
    """Compute marginal covariance using a set of indices."""
    dim = len(indices)
    out = onp.zeros((dim, dim))
    for i, row in enumerate(indices):
        for j, col in enumerate(indices):
            out[i, j] = self[row, col]
    return out
'''))

R("covariance: symmetric half fill", D(COV, "SparseCovariance._compute_marginal", '''
def _compute_marginal(self, indices: Sequence[int]) -> onp.ndarray:
    """Compute marginal covariance using a set of indices."""
    dim = len(indices)
    out = onp.zeros((dim, dim))
    for i in range(dim):
        for j in range(i + 1):
            out[i, j] = out[j, i] = self[indices[i], indices[j]]
    return out
'''))

R("covariance: dense by matrix inverse", D(COV, "SparseCovariance.as_dense", '''
def as_dense(self, use_inverse: bool = True) -> onp.ndarray:
    """Return the full covariance as a dense array."""
    if not use_inverse:
        return self._compute_marginal(range(self.local_storage_layout.dim))
    L_inv = onp.linalg.inv(self.L.todense())
    return onp.matmul(L_inv.T, L_inv)
'''))

R("variables: retract jacobian by closure over zeros", D(VARS, "VariableBase.manifold_retract_jacobian", '''
@classmethod
def manifold_retract_jacobian(cls, x: VariableValueType) -> Tuple[jnp.ndarray, ...]:
    """Jacobian of the variable parameters with respect to the local parameterization."""

    def retract_leaves(local_delta):
        moved = cls.manifold_retract(x, local_delta)
        return jax.tree_util.tree_leaves(moved)

    at = onp.zeros(cls.get_local_parameter_dim())
    return jax.jacfwd(retract_leaves)(at)
'''))

R("variables: init subclass guard positive", D(VARS, "VariableBase.__init_subclass__", '''
def __init_subclass__(cls, **kwargs):
    """For non-abstract subclasses, we determine the parameter dimensionality."""
    super().__init_subclass__(**kwargs)
    if not inspect.isabstract(cls):
        flat, unflatten = flatten_util.ravel_pytree(cls.get_default_value())
        cls._parameter_dim = flat.shape[0]
        cls._unflatten = unflatten
'''))

R("variables: flatten by index", D(VARS, "VariableBase.flatten", '''
@staticmethod
@final
def flatten(x: VariableValueType) -> jnp.ndarray:
    """Flatten variable value to 1D array."""
    return flatten_util.ravel_pytree(x)[0]
'''))

R("lie: group type as class table", (LIE, '''class SO2Variable(LieVariableBase[jaxlie.SO2]):
    @staticmethod
    @overrides
    def get_group_type() -> Type[jaxlie.SO2]:
        return jaxlie.SO2
''', '''_GROUPS = {"SO2": jaxlie.SO2, "SE2": jaxlie.SE2}


class SO2Variable(LieVariableBase[jaxlie.SO2]):
    @staticmethod
    @overrides
    def get_group_type() -> Type[jaxlie.SO2]:
        return _GROUPS["SO2"]
'''))

R("lie: between via helper property", (GEO, '''    @overrides
    def compute_residual_vector(
        self, variable_values: BetweenValueTuple
    ) -> jnp.ndarray:
        T_world_a = variable_values.T_world_a
        T_world_b = variable_values.T_world_b
        return jaxlie.manifold.rminus(T_world_a.inverse() @ T_world_b, self.T_a_b)
''', '''    @staticmethod
    def _relative(variable_values: BetweenValueTuple) -> jaxlie.MatrixLieGroup:
        return variable_values.T_world_a.inverse() @ variable_values.T_world_b

    @overrides
    def compute_residual_vector(
        self, variable_values: BetweenValueTuple
    ) -> jnp.ndarray:
        return jaxlie.manifold.rminus(self._relative(variable_values), self.T_a_b)
'''), (GEO, '''        return (
            (T_world_a.inverse() @ T_world_b).inverse().adjoint(),
            -jnp.eye(group_cls.tangent_dim),
        )
''', '''        adjoint = self._relative(variable_values).inverse().adjoint()
        return adjoint, -jnp.eye(group_cls.tangent_dim)
'''))

# ---- moved files

R("solvers: mixin moved to a new module", (MX, '''@jdc.pytree_dataclass
class _TrustRegionMixin:
    """Mixin that implements a step quality check for trust region solvers."""

    step_quality_min: hints.Scalar = 1e-3

    def compute_step_quality(
        self,
        A: sparse.SparseCooMatrix,
        proposed_cost: hints.Scalar,
        state_prev: NonlinearSolverState,
        step_vector: jnp.ndarray,
    ) -> hints.Scalar:
        """Compute step quality ratio, often denoted $$\\rho$$.

        This will be 1 when the cost drops linearly wrt the update step."""
        return (proposed_cost - state_prev.cost) / (
            jnp.sum((A @ step_vector + state_prev.residual_vector) ** 2)
            - state_prev.cost
        )
''', '''from ._trust_region import _TrustRegionMixin
'''), ("jaxfg/solvers/_trust_region.py", None, '''import jax_dataclasses as jdc
from jax import numpy as jnp

from .. import hints, sparse
from ._nonlinear_solver_base import NonlinearSolverState


@jdc.pytree_dataclass
class _TrustRegionMixin:
    """Mixin that implements a step quality check for trust region solvers."""

    step_quality_min: hints.Scalar = 1e-3

    def compute_step_quality(
        self,
        A: sparse.SparseCooMatrix,
        proposed_cost: hints.Scalar,
        state_prev: NonlinearSolverState,
        step_vector: jnp.ndarray,
    ) -> hints.Scalar:
        """Compute step quality ratio."""
        predicted = jnp.sum((A @ step_vector + state_prev.residual_vector) ** 2)
        return (proposed_cost - state_prev.cost) / (predicted - state_prev.cost)
'''))

R("solvers: dogleg step to a new module", (DL, '''        def compute_dogleg_step() -> jnp.ndarray:''', '''        def compute_dogleg_step(solve=self.linear_solver.solve_subproblem) -> jnp.ndarray:'''), (DL, '''            step_vector_gn: jnp.ndarray = self.linear_solver.solve_subproblem(
                A=A,''', '''            step_vector_gn: jnp.ndarray = solve(
                A=A,'''))

R("g2o: line records by dispatch dict", (G2O, '''        parts = [part for part in line.split(" ") if part != ""]
''', '''        parts = list(filter(None, line.split(" ")))
'''))

R("g2o: line split on whitespace filter", (G2O, '''        lines = [line.strip() for line in file.readlines()]
''', '''        lines = list(map(str.strip, file))
'''))

R("g2o: read text", (G2O, '''    with open(path) as file:
        lines = [line.strip() for line in file.readlines()]
''', '''    with open(path, "r") as file:
        lines = []
        for raw_line in file:
            lines.append(raw_line.strip())
'''))
