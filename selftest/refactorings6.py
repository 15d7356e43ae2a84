"""Responsibilities moved between classes: helper objects with state, builders, shared methods, new modules."""

from cases import R
from refactorings import ASSIGN, COO, COV, D, DL, FACTOR, FX, GAUSS, GEO, GN, GRAPH, HUBER, LAYOUT, LIE, LIN, LM, MX, NB, STACK, VARS

G2O = "scripts/_g2o_utils.py"

# ---- larger restructurings

R("solvers: template step in the base", (NB, '''    # Shared.

    @jdc.jit''', '''    # Shared.

    def _linearize(self, graph, state):
        """Jacobian and descent direction around the current estimate."""
        jacobian = graph.compute_whitened_residual_jacobian(
            assignments=state.assignments, residual_vector=state.residual_vector
        )
        return jacobian, -(jacobian.T @ state.residual_vector)

    def _propose(self, graph, state, step):
        """Retract a step; returns the delta, the assignments and what they cost."""
        delta = VariableAssignments(
            storage=step, storage_layout=graph.local_storage_layout
        )
        proposal = state.assignments.manifold_retract(local_delta_assignments=delta)
        return (delta, proposal, *graph.compute_cost(proposal))

    @jdc.jit'''),
  D(GN, "GaussNewtonSolver._step", '''
@overrides
def _step(self, graph: "StackedFactorGraph", state_prev: NonlinearSolverState) -> NonlinearSolverState:
    """Linearize, solve linear subproblem, and update on manifold."""
    self._hcb_print(
        lambda i, max_i, cost: f"Iteration #{i}/{max_i}: cost={str(cost)}",
        i=state_prev.iterations,
        max_i=self.max_iterations,
        cost=state_prev.cost,
    )
    A, ATb = self._linearize(graph, state_prev)
    step = self.linear_solver.solve_subproblem(
        A=A, ATb=ATb, lambd=0.0, iteration=state_prev.iterations
    )
    delta, assignments, cost, residual_vector = self._propose(graph, state_prev, step)
    converged = self.check_convergence(
        state_prev=state_prev,
        cost_updated=cost,
        local_delta_assignments=delta,
        negative_gradient=ATb,
    )
    out_of_time = self.check_exceeded_max_iterations(state_prev=state_prev)
    return jdc.replace(
        state_prev,
        iterations=state_prev.iterations + 1,
        assignments=assignments,
        cost=cost,
        residual_vector=residual_vector,
        done=out_of_time | converged,
    )
'''),
  D(FX, "FixedIterationGaussNewtonSolver._step", '''
@overrides
def _step(self, graph: "StackedFactorGraph", state_prev: NonlinearSolverState) -> NonlinearSolverState:
    """Linearize, solve linear subproblem, and update on manifold."""
    self._hcb_print(
        lambda i, cost: f"Iteration #{i}: cost={str(cost)}",
        i=state_prev.iterations,
        cost=state_prev.cost,
    )
    A, ATb = self._linearize(graph, state_prev)
    _, assignments, cost, residual_vector = self._propose(
        graph,
        state_prev,
        self.linear_solver.solve_subproblem(A, ATb, 0.0, state_prev.iterations),
    )
    iterations = state_prev.iterations + 1
    return NonlinearSolverState(
        iterations=iterations,
        assignments=assignments,
        cost=cost,
        residual_vector=residual_vector,
        done=iterations >= self.iterations,
    )
'''),
  D(LM, "LevenbergMarquardtSolver._step", '''
@overrides
def _step(
    self, graph: "StackedFactorGraph", state_prev: _LevenbergMarquardtState
) -> _LevenbergMarquardtState:
    self._hcb_print(
        lambda i, max_i, cost, lambd: f"Iteration #{i}/{max_i}: cost={str(cost).ljust(15)} lambda={str(lambd)}",
        i=state_prev.iterations,
        max_i=self.max_iterations,
        cost=state_prev.cost,
        lambd=state_prev.lambd,
    )
    A, ATb = self._linearize(graph, state_prev)
    step = self.linear_solver.solve_subproblem(A, ATb, state_prev.lambd, state_prev.iterations)
    delta, proposal, cost, residual = self._propose(graph, state_prev, step)
    accept = (
        self.compute_step_quality(A, cost, state_prev, step) >= self.step_quality_min
    )

    def pick(new, old):
        return jnp.where(accept, new, old)

    shrunk = state_prev.lambd / self.lambda_factor
    grown = jnp.clip(
        state_prev.lambd * self.lambda_factor, a_max=self.lambda_max
    )
    done = self.check_exceeded_max_iterations(state_prev=state_prev) | (
        accept
        & self.check_convergence(
            state_prev=state_prev,
            cost_updated=cost,
            local_delta_assignments=delta,
            negative_gradient=ATb,
        )
    )
    return _LevenbergMarquardtState(
        iterations=state_prev.iterations + 1,
        assignments=jdc.replace(
            state_prev.assignments,
            storage=pick(proposal.storage, state_prev.assignments.storage),
        ),
        lambd=pick(shrunk, jnp.maximum(grown, self.lambda_min)),
        cost=pick(cost, state_prev.cost),
        residual_vector=pick(residual, state_prev.residual_vector),
        done=done,
    )
'''))

R("dogleg: pure functions module", ("jaxfg/solvers/_dogleg_math.py", None, '''"""Geometry of Powell's dogleg path."""

from jax import numpy as jnp


def squared_norm(x):
    return jnp.sum(x**2)


def cauchy_point(A, gradient):
    """Minimiser of the linearised cost along the steepest descent direction."""
    return squared_norm(gradient) / squared_norm(A @ gradient) * gradient


def blend(a, b, radius):
    """Point on the segment from a to b at distance radius from the origin."""
    direction = b - a
    c = jnp.sum(a * direction)
    length_sq = squared_norm(direction)
    slack = radius**2 - squared_norm(a)
    root = jnp.sqrt(c**2 + length_sq * slack)
    beta = jnp.where(c <= 0, (root - c) / length_sq, slack / (c + root))
    return a + beta * direction


def dogleg(cauchy, newton, radius):
    cauchy_norm = jnp.linalg.norm(cauchy)
    outside = jnp.where(
        cauchy_norm < radius,
        blend(cauchy, newton, radius),
        cauchy * (radius / cauchy_norm),
    )
    return jnp.where(jnp.linalg.norm(newton) <= radius, newton, outside)


def next_radius(radius, quality, step):
    grown = jnp.maximum(radius, 3.0 * jnp.linalg.norm(step))
    return jnp.where(
        quality < 0.25, radius / 2.0, jnp.where(quality > 0.75, grown, radius)
    )
'''), (DL, "from ._mixins import", "from . import _dogleg_math\nfrom ._mixins import"),
  D(DL, "DoglegSolver._step", '''
@overrides
def _step(self, graph: "StackedFactorGraph", state_prev: _DoglegState) -> _DoglegState:
    self._hcb_print(
        lambda i, max_i, cost, radius: f"Iteration #{i}/{max_i}: cost={str(cost).ljust(15)} radius={str(radius)}",
        i=state_prev.iterations,
        max_i=self.max_iterations,
        cost=state_prev.cost,
        radius=state_prev.radius,
    )
    A = graph.compute_whitened_residual_jacobian(
        state_prev.assignments, state_prev.residual_vector
    )
    ATb = A.T @ -state_prev.residual_vector
    newton = self.linear_solver.solve_subproblem(
        A=A, ATb=ATb, lambd=0.0, iteration=state_prev.iterations
    )
    step = _dogleg_math.dogleg(
        _dogleg_math.cauchy_point(A, ATb), newton, state_prev.radius
    )
    delta = VariableAssignments(step, graph.local_storage_layout)
    proposed = state_prev.assignments.manifold_retract(delta)
    cost, residual = graph.compute_cost(proposed)
    quality = self.compute_step_quality(A, cost, state_prev, step)
    accept_flag = quality >= self.step_quality_min
    old = (state_prev.assignments.storage, state_prev.cost, state_prev.residual_vector)
    new = (proposed.storage, cost, residual)
    storage, kept_cost, kept_residual = (
        jnp.where(accept_flag, n, o) for n, o in zip(new, old)
    )
    return _DoglegState(
        iterations=state_prev.iterations + 1,
        assignments=jdc.replace(state_prev.assignments, storage=storage),
        radius=_dogleg_math.next_radius(state_prev.radius, quality, step),
        cost=kept_cost,
        residual_vector=kept_residual,
        done=jnp.logical_or(
            self.check_exceeded_max_iterations(state_prev=state_prev),
            jnp.logical_and(
                accept_flag, self.check_convergence(state_prev, cost, delta, ATb)
            ),
        ),
    )
'''))

R("solvers: initial state in the base", (NB, '''    # Shared.

    @jdc.jit''', '''    # Shared.

    @staticmethod
    def _initial(state_type, graph, assignments, **extra):
        cost, residual_vector = graph.compute_cost(assignments)
        return state_type(
            iterations=0,
            assignments=assignments,
            cost=cost,
            residual_vector=residual_vector,
            done=False,
            **extra,
        )

    @jdc.jit'''),
  *[D(f, q + "._initialize_state", '''
@overrides
def _initialize_state(self, graph: "StackedFactorGraph", initial_assignments: VariableAssignments) -> %s:
    return self._initial(%s, graph, initial_assignments%s)
''' % (s, s, x)) for f, q, s, x in [
    (GN, "GaussNewtonSolver", "NonlinearSolverState", ""), (FX, "FixedIterationGaussNewtonSolver", "NonlinearSolverState", ""),
    (LM, "LevenbergMarquardtSolver", "_LevenbergMarquardtState", ", lambd=self.lambda_initial"), (DL, "DoglegSolver", "_DoglegState", ", radius=self.radius_initial")]])

R("solvers: shared solve with optimise hook", (NB, '''        # Optimization.
        state = jax.lax.while_loop(
            cond_fun=lambda state: jnp.logical_not(state.done),
            body_fun=functools.partial(self._step, graph),
            init_val=state,
        )
''', '''        # Optimization.
        state = self._optimize(graph, state)
'''), (NB, '''    def _hcb_print(
        self,''', '''    def _optimize(self, graph, state):
        """Iterate until the state says that it is done."""

        def body(current):
            return self._step(graph, current)

        return jax.lax.while_loop(lambda current: ~current.done, body, state)

    def _hcb_print(
        self,'''), (NB, "import functools\n", ""), D(FX, "FixedIterationGaussNewtonSolver.solve", '''
@overrides
def _optimize(self, graph, state):
    if not self.unroll:
        return super()._optimize(graph, state)
    for _ in range(self.iterations):
        state = self._step(graph, state)
    return state
'''))

R("assignments: block helper functions", (ASSIGN, '''@jdc.pytree_dataclass
class VariableAssignments:''', '''def _dim(variable, local: bool) -> int:
    if local:
        return variable.get_local_parameter_dim()
    return variable.get_parameter_dim()


def _block(layout: StorageLayout, variable) -> slice:
    """Part of the storage vector that belongs to a variable."""
    begin = layout.index_from_variable[variable]
    return slice(begin, begin + _dim(variable, layout.local_flag))


def _type_block(layout: StorageLayout, variable_type):
    """Part of the storage vector that belongs to a type, and the shape of its table."""
    begin = layout.index_from_variable_type[variable_type]
    shape = (
        layout.count_from_variable_type[variable_type],
        _dim(variable_type, layout.local_flag),
    )
    return slice(begin, begin + shape[0] * shape[1]), shape


@jdc.pytree_dataclass
class VariableAssignments:'''),
  D(ASSIGN, "VariableAssignments.update_storage_layout", '''
@jdc.jit
def update_storage_layout(self, storage_layout: jdc.Static[StorageLayout]) -> "VariableAssignments":
    """Returns a new assignments object with an updated storage layout."""
    current = self.storage_layout
    if current == storage_layout:
        return self
    assert current.dim == storage_layout.dim
    assert current.local_flag == storage_layout.local_flag
    assert set(current.get_variables()) == set(storage_layout.get_variables())
    pieces = [self.storage[_block(current, v)] for v in storage_layout.get_variables()]
    return VariableAssignments(
        storage=jnp.concatenate(pieces), storage_layout=storage_layout
    )
'''),
  D(ASSIGN, "VariableAssignments.manifold_retract", '''
@jdc.jit
def manifold_retract(self, local_delta_assignments: "VariableAssignments") -> "VariableAssignments":
    """Update variables on manifold."""
    assert not self.storage_layout.local_flag
    assert local_delta_assignments.storage_layout.local_flag

    def updated(variable_type):
        block, shape = _type_block(self.storage_layout, variable_type)
        delta_block, delta_shape = _type_block(
            local_delta_assignments.storage_layout, variable_type
        )
        values = jax.vmap(variable_type.unflatten)(self.storage[block].reshape(shape))
        deltas = local_delta_assignments.storage[delta_block].reshape(
            (shape[0], delta_shape[1])
        )
        moved = jax.vmap(variable_type.manifold_retract)(values, deltas)
        return jax.vmap(variable_type.flatten)(moved).flatten()

    return jdc.replace(
        self,
        storage=jnp.concatenate(
            [updated(t) for t in self.storage_layout.get_variable_types()]
        ),
    )
'''))

R("stack: shared index table", (STACK, '''@jdc.pytree_dataclass
class FactorStack(Generic[FactorType]):''', '''def _index_tables(factors, layout: StorageLayout) -> List[onp.ndarray]:
    """For each variable slot, the storage indices used by each of the factors."""

    def indices(variable):
        begin = layout.index_from_variable[variable]
        if layout.local_flag:
            return onp.arange(begin, begin + variable.get_local_parameter_dim())
        return onp.arange(begin, begin + variable.get_parameter_dim())

    return [
        onp.array([indices(variable) for variable in slot])
        for slot in zip(*[factor.variables for factor in factors])
    ]


@jdc.pytree_dataclass
class FactorStack(Generic[FactorType]):'''),
  (STACK, '''        # Get indices for each variable of each factor.
        value_indices_list: Tuple[List[onp.ndarray], ...] = tuple(
            [] for _ in range(len(stacked_factor.variables))
        )
        for factor in factors:
            for i, variable in enumerate(factor.variables):
                assert isinstance(
                    variable, type(factors[0].variables[i])
                ), "Variable types of stacked factors must match"
                storage_pos = storage_layout.index_from_variable[variable]
                value_indices_list[i].append(
                    onp.arange(storage_pos, storage_pos + variable.get_parameter_dim())
                )

        # Stack: end result should be Tuple[array of shape (N, parameter_dim), ...].
        value_indices_stacked: Tuple[onp.ndarray, ...] = tuple(
            onp.array(indices) for indices in value_indices_list
        )
''', '''        for factor in factors:
            for variable, first in zip(factor.variables, factors[0].variables):
                assert isinstance(
                    variable, type(first)
                ), "Variable types of stacked factors must match"
'''), (STACK, "value_indices=value_indices_stacked,", "value_indices=tuple(_index_tables(factors, storage_layout)),"))

R("graph: grouping and layout split out", (GRAPH, '''# Key for determining''', '''def _group_key(factor: FactorBase):
    """Factors can be stacked if their structure and the shapes of their leaves match."""
    shapes = tuple(getattr(leaf, "shape", ()) for leaf in jax.tree_leaves(factor))
    return jax.tree_structure(factor.anonymize_variables()), shapes


def _group(factors):
    groups: Dict = {}
    for factor in factors:
        groups.setdefault(_group_key(factor), []).append(factor)
    return list(groups.values())


def _ordered_variables(factors):
    return list(dict.fromkeys(v for factor in factors for v in factor.variables))


# Key for determining'''), D(GRAPH, "StackedFactorGraph.make", '''
@staticmethod
def make(factors: Iterable[FactorBase], use_onp: bool = True) -> "StackedFactorGraph":
    """Create a factor graph from a set of factors."""
    factors = tuple(factors)
    variables = _ordered_variables(factors)
    layouts = {
        local: StorageLayout.make(variables, local=local) for local in (False, True)
    }

    stacks: List[FactorStack] = []
    rows: List[onp.ndarray] = []
    cols: List[onp.ndarray] = []
    residual_dim = 0
    for members in _group(factors):
        stack = FactorStack.make(members, layouts[False], use_onp=use_onp)
        for coords in FactorStack.compute_jacobian_coords(
            members, layouts[True], row_offset=residual_dim
        ):
            rows.append(coords.rows)
            cols.append(coords.cols)
        stacks.append(stack)
        residual_dim += stack.get_residual_dim()

    return StackedFactorGraph(
        factor_stacks=stacks,
        jacobian_coords=sparse.SparseCooCoordinates(
            rows=onp.concatenate(rows, axis=0), cols=onp.concatenate(cols, axis=0)
        ),
        storage_layout=layouts[False],
        local_storage_layout=layouts[True],
        residual_dim=residual_dim,
    )
'''))

R("graph: stack methods for whitening", (STACK, '''    def compute_residual_jacobian(
        self,''', '''    def compute_whitened_residual_vector(self, assignments: VariableAssignments):
        """Whitened residuals, one row per factor."""
        noise_model = self.factor.noise_model
        return jax.vmap(type(noise_model).whiten_residual_vector)(
            noise_model, self.compute_residual_vector(assignments)
        )

    def compute_whitened_jacobians(self, assignments, residuals):
        """Whitened Jacobians, one array per variable."""
        noise_model = self.factor.noise_model
        whiten = jax.vmap(type(noise_model).whiten_jacobian)
        residuals = residuals.reshape((self.num_factors, self.factor.get_residual_dim()))
        return [
            whiten(noise_model, jacobian, residual_vector=residuals)
            for jacobian in self.compute_residual_jacobian(assignments)
        ]

    def compute_residual_jacobian(
        self,'''), D(GRAPH, "StackedFactorGraph.compute_whitened_residual_vector", '''
@jdc.jit
def compute_whitened_residual_vector(self, assignments: VariableAssignments) -> jnp.ndarray:
    """Computes flattened+whitened residual vector associated with our factor graph."""
    assignments = assignments.update_storage_layout(self.storage_layout)
    residual_vector = jnp.concatenate(
        [
            stack.compute_whitened_residual_vector(assignments).ravel()
            for stack in self.factor_stacks
        ]
    )
    assert residual_vector.shape == (self.residual_dim,)
    return residual_vector
'''), D(GRAPH, "StackedFactorGraph.compute_whitened_residual_jacobian", '''
@jdc.jit
def compute_whitened_residual_jacobian(
    self, assignments: VariableAssignments, residual_vector: hints.Array
) -> sparse.SparseCooMatrix:
    """Compute the Jacobian of a graph's residual vector."""
    assignments = assignments.update_storage_layout(self.storage_layout)
    values: List[jnp.ndarray] = []
    position = 0
    for stack in self.factor_stacks:
        size = stack.get_residual_dim()
        values += [
            jacobian.ravel()
            for jacobian in stack.compute_whitened_jacobians(
                assignments, residual_vector[position : position + size]
            )
        ]
        position += size
    assert position == self.residual_dim and position > 0
    return sparse.SparseCooMatrix(
        values=jnp.concatenate(values),
        coords=self.jacobian_coords,
        shape=(self.residual_dim, self.local_storage_layout.dim),
    )
'''))

R("nll: log determinant as noise model method", ("jaxfg/noises/_noise_model_base.py", '''    @abc.abstractmethod
    def get_residual_dim(self) -> int:''', '''    def _log_abs_determinant(self):
        """Log of the absolute determinant of the square root precision."""
        raise AssertionError(f"Joint NLL not supported for {type(self)}")

    @abc.abstractmethod
    def get_residual_dim(self) -> int:'''), (GAUSS, '''    @overrides
    def get_residual_dim(self) -> int:
        return self.sqrt_precision_matrix.shape[-1]
''', '''    @overrides
    def _log_abs_determinant(self):
        return jnp.log(jnp.abs(jnp.linalg.det(self.sqrt_precision_matrix)))

    @overrides
    def get_residual_dim(self) -> int:
        return self.sqrt_precision_matrix.shape[-1]
'''), (GAUSS, '''    @overrides
    def get_residual_dim(self) -> int:
        return self.sqrt_precision_diagonal.shape[-1]
''', '''    @overrides
    def _log_abs_determinant(self):
        return jnp.log(jnp.abs(jnp.prod(self.sqrt_precision_diagonal, axis=-1)))

    @overrides
    def get_residual_dim(self) -> int:
        return self.sqrt_precision_diagonal.shape[-1]
'''), D(GRAPH, "StackedFactorGraph.compute_joint_nll", '''
@jdc.jit
def compute_joint_nll(self, assignments: VariableAssignments, include_constants: bool = False) -> jnp.ndarray:
    """Compute the joint negative log-likelihood density."""
    if include_constants:
        raise NotImplementedError()
    cost, _ = self.compute_cost(assignments)
    for stack in self.factor_stacks:
        cost = cost - 2.0 * jnp.sum(stack.factor.noise_model._log_abs_determinant())
    return cost
'''))

R("coo: coordinates know how to transpose", (COO, '''    # Shape checks break under vmap
    # def __post_init__(self):
    #     assert self.rows.shape == self.cols.shape
''', '''    def swapped(self) -> "SparseCooCoordinates":
        """Coordinates of the transposed matrix."""
        return SparseCooCoordinates(rows=self.cols, cols=self.rows)

    def as_pair(self):
        return self.rows, self.cols
'''), D(COO, "SparseCooMatrix.T", '''
@property
def T(self):
    """Return transpose of our sparse matrix."""
    height, width = self.shape
    return jdc.replace(self, coords=self.coords.swapped(), shape=(width, height))
'''), D(COO, "SparseCooMatrix.as_scipy_coo_matrix", '''
def as_scipy_coo_matrix(self) -> scipy.sparse.coo_matrix:
    """Convert to a sparse scipy matrix."""
    return scipy.sparse.coo_matrix(
        (self.values, self.coords.as_pair()), shape=self.shape
    )
'''), D(COO, "SparseCooMatrix.as_dense", '''
def as_dense(self) -> jnp.ndarray:
    """Convert to a dense JAX array."""
    dense = jnp.zeros(self.shape)
    return dense.at[self.coords.as_pair()].add(self.values)
'''))

R("linear: normal equations object", (LIN, '''class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):''', '''class _NormalEquations(NamedTuple):
    """Damped normal equations, without forming the matrix."""

    A: SparseCooMatrix
    diagonal: jnp.ndarray
    lambd: hints.Scalar

    @staticmethod
    def make(A: SparseCooMatrix, lambd: hints.Scalar) -> "_NormalEquations":
        zeros = jnp.zeros(A.shape[1])
        return _NormalEquations(A, zeros.at[A.coords.cols].add(A.values**2), lambd)

    def apply(self, x):
        return self.A.T @ (self.A @ x) + self.lambd * (self.diagonal * x)

    def precondition(self, x):
        return x / self.diagonal


class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):'''), (LIN, '''        initial_x = onp.zeros(ATb.shape)

        # Get diagonals of ATA, for regularization + Jacobi preconditioning
        ATA_diagonals = jnp.zeros_like(initial_x).at[A.coords.cols].add(A.values**2)

        # Form normal equation
        def ATA_function(x: hints.Array):
            # Compute ATAx
            ATAx = A.T @ (A @ x)

            # Return regularized (scale-invariant)
            return ATAx + lambd * ATA_diagonals * x

            # Vanilla regularization
            # return ATAx + lambd * x

        def jacobi_preconditioner(x):
            return x / ATA_diagonals
''', '''        initial_x = onp.zeros(ATb.shape)
        equations = _NormalEquations.make(A, lambd)
'''), (LIN, "A=ATA_function,", "A=equations.apply,"), (LIN, "M=jacobi_preconditioner,", "M=equations.precondition,"))

R("covariance: free functions", (COV, '''@dataclasses.dataclass
class SparseCovariance:''', '''def _information_factor(graph, assignments):
    """Lower-triangular factor of the information matrix, in storage order."""
    residual_vector = graph.compute_whitened_residual_vector(assignments)
    jacobian = graph.compute_whitened_residual_jacobian(assignments, residual_vector)
    transposed = jacobian.T.as_scipy_coo_matrix().tocsc(copy=False)
    factor = sksparse.cholmod.cholesky_AAt(transposed, ordering_method="natural")
    return factor.L()


def _local_indices(layout, variables):
    for variable in variables:
        begin = layout.index_from_variable[variable]
        yield from range(begin, begin + variable.get_local_parameter_dim())


@dataclasses.dataclass
class SparseCovariance:'''), D(COV, "SparseCovariance.make", '''
@staticmethod
def make(graph: core.StackedFactorGraph, assignments: core.VariableAssignments):
    """Build the sparse covariance corresponding to a factor graph."""
    L = _information_factor(graph, assignments)
    return SparseCovariance(L, 1.0 / L.diagonal(), graph.local_storage_layout, {})
'''), D(COV, "SparseCovariance.compute_marginal", '''
def compute_marginal(self, *variables: core.VariableBase) -> onp.ndarray:
    """Compute marginal covariance for a set of variables. Input order matters."""
    return self._compute_marginal(
        list(_local_indices(self.local_storage_layout, variables))
    )
'''), D(COV, "SparseCovariance._compute_marginal", '''
def _compute_marginal(self, indices: Sequence[int]) -> onp.ndarray:
    """Compute marginal covariance using a set of indices."""
    entries = [self[row, col] for row in indices for col in indices]
    return onp.array(entries).reshape((len(indices), len(indices)))
'''), D(COV, "SparseCovariance.__getitem__", '''
def __getitem__(self, indices: Tuple[int, int]) -> float:
    """Get a single value in our sparse covariance matrix."""
    row, col = min(indices), max(indices)
    value = self._value_cache.get((row, col))
    if value is None:
        weighted = self._sum_over_col(row, col)
        scale = self.L_diag_inv[row]
        value = scale * (scale - weighted) if row == col else -scale * weighted
        self._value_cache[row, col] = value
    return value
'''))

R("huber: shared scale", D(HUBER, "HuberWrapper.whiten_residual_vector", '''
def _scaled(self, array, norm, factor):
    """Scale an array down where the norm reaches the threshold."""
    return jnp.where(norm >= self.delta, array * factor, array)

@overrides
def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
    whitened = self.wrapped.whiten_residual_vector(residual_vector)
    norm = jnp.linalg.norm(whitened)
    return self._scaled(whitened, norm, jnp.sqrt(self.delta / norm))
'''), D(HUBER, "HuberWrapper.whiten_jacobian", '''
@overrides
def whiten_jacobian(self, jacobian: hints.Array, residual_vector: hints.Array) -> hints.Array:
    norm = jnp.linalg.norm(residual_vector)
    whitened = self.wrapped.whiten_jacobian(jacobian, residual_vector)
    return self._scaled(whitened, norm, self.delta / norm)
'''))

R("lie: variable classes made by a helper base", (LIE, '''class SO2Variable(LieVariableBase[jaxlie.SO2]):
    @staticmethod
    @overrides
    def get_group_type() -> Type[jaxlie.SO2]:
        return jaxlie.SO2
''', '''class SO2Variable(LieVariableBase[jaxlie.SO2]):
    """Planar rotations."""

    get_group_type = staticmethod(lambda: jaxlie.SO2)
'''))

R("geometry: relative pose method", (GEO, '''    @overrides
    def compute_residual_vector(
        self, variable_values: BetweenValueTuple
    ) -> jnp.ndarray:
        T_world_a = variable_values.T_world_a
        T_world_b = variable_values.T_world_b

        return jaxlie.manifold.rminus(T_world_a.inverse() @ T_world_b, self.T_a_b)
''', '''    @staticmethod
    def _relative(variable_values: BetweenValueTuple) -> jaxlie.MatrixLieGroup:
        T_world_a, T_world_b = variable_values
        return T_world_a.inverse() @ T_world_b

    @overrides
    def compute_residual_vector(
        self, variable_values: BetweenValueTuple
    ) -> jnp.ndarray:
        return (self._relative(variable_values).inverse() @ self.T_a_b).log()
'''), D(GEO, "BetweenFactor.compute_residual_jacobians", '''
@overrides
def compute_residual_jacobians(
    self, variable_values: BetweenValueTuple
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    relative = self._relative(variable_values)
    wrt_a = relative.inverse().adjoint()
    wrt_b = -jnp.eye(relative.tangent_dim)
    return wrt_a, wrt_b
'''))

R("g2o: parser class", D(G2O, "parse_g2o", '''
class _Parser:
    """Collects what the lines of a file describe."""

    def __init__(self, pose_count_limit):
        self.pose_count_limit = pose_count_limit
        self.pose_variables = []
        self.initial_poses = {}
        self.factors = []

    def vertex(self, index, variable, pose):
        assert index == len(self.initial_poses)
        self.initial_poses[variable] = pose
        self.pose_variables.append(variable)

    def edge(self, before, after, between, information):
        dim = between.tangent_dim
        upper = onp.zeros((dim, dim))
        upper[onp.triu_indices(dim)] = information
        matrix = upper + upper.T - onp.diag(onp.diag(upper))
        self.factors.append(
            jaxfg.geometry.BetweenFactor.make(
                self.pose_variables[before],
                self.pose_variables[after],
                between,
                jaxfg.noises.Gaussian(onp.linalg.cholesky(matrix).T),
            )
        )

    def line(self, tag, *rest):
        if tag == "VERTEX_SE2":
            if len(self.pose_variables) > self.pose_count_limit:
                return
            index, x, y, theta = rest
            self.vertex(
                int(index),
                jaxfg.geometry.SE2Variable(),
                jaxlie.SE2.from_xy_theta(float(x), float(y), float(theta)),
            )
        elif tag == "EDGE_SE2":
            before, after = int(rest[0]), int(rest[1])
            if max(before, after) > self.pose_count_limit:
                return
            numbers = [float(p) for p in rest[2:]]
            self.edge(
                before, after, jaxlie.SE2.from_xy_theta(*numbers[:3]), numbers[3:]
            )
        elif tag == "VERTEX_SE3:QUAT":
            index, x, y, z, qx, qy, qz, qw = rest
            self.vertex(
                int(index),
                jaxfg.geometry.SE3Variable(),
                jaxlie.SE3(
                    wxyz_xyz=onp.array([float(p) for p in (qw, qx, qy, qz, x, y, z)])
                ),
            )
        elif tag == "EDGE_SE3:QUAT":
            numbers = [float(p) for p in rest[2:]]
            assert len(numbers) == 28
            rotation = jaxlie.SO3.from_quaternion_xyzw(onp.array(numbers[3:7]))
            between = jaxlie.SE3.from_rotation_and_translation(
                rotation, onp.array(numbers[:3])
            )
            self.edge(int(rest[0]), int(rest[1]), between, numbers[7:])
        else:
            assert False, f"Unexpected line type: {tag}"


def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
    """Parse a G2O file. Creates a list of factors and dictionary of initial poses."""
    parser = _Parser(pose_count_limit)
    with open(path) as file:
        lines = [line.strip() for line in file.readlines()]
    for line in tqdm(lines):
        parser.line(*[part for part in line.split(" ") if part != ""])

    first = parser.pose_variables[0]
    weights = 100.0 * jnp.ones(first.get_local_parameter_dim())
    parser.factors.append(
        jaxfg.geometry.PriorFactor.make(
            first, parser.initial_poses[first], jaxfg.noises.DiagonalGaussian(weights)
        )
    )
    return G2OData(factors=parser.factors, initial_poses=parser.initial_poses)
'''))

R("variables: flattening spec object", (VARS, '''        example = cls.get_default_value()

        flat, unflatten = flatten_util.ravel_pytree(example)
        (parameter_dim,) = flat.shape

        cls._parameter_dim = parameter_dim
        cls._unflatten = unflatten
''', '''        cls._record_structure(cls.get_default_value())

    @classmethod
    def _record_structure(cls, example) -> None:
        flat, cls._unflatten = flatten_util.ravel_pytree(example)
        cls._parameter_dim = flat.shape[0]
'''))

R("layout: sizes first, cumulative starts", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    groups: Dict[Type[VariableBase], List[VariableBase]] = {}
    for variable in variables:
        groups.setdefault(type(variable), []).append(variable)

    def dim(variable_type: Type[VariableBase]) -> int:
        if local:
            return variable_type.get_local_parameter_dim()
        return variable_type.get_parameter_dim()

    starts: Dict[Type[VariableBase], int] = {}
    total = 0
    for variable_type in groups:
        starts[variable_type] = total
        total += dim(variable_type) * len(groups[variable_type])

    positions = {
        variable: starts[variable_type] + k * dim(variable_type)
        for variable_type, members in groups.items()
        for k, variable in enumerate(members)
    }
    counts = {variable_type: len(members) for variable_type, members in groups.items()}
    return StorageLayout(
        local, total, frozendict(positions), frozendict(starts), frozendict(counts)
    )
'''))

# ---- responsibilities moved between classes

R("layout: allocator class", (LAYOUT, '''@dataclasses.dataclass(frozen=True)
class StorageLayout:''', '''class _Allocator:
    """Hands out consecutive blocks of a storage vector."""

    def __init__(self) -> None:
        self.position = 0

    def take(self, size: int) -> int:
        start = self.position
        self.position = start + size
        return start


@dataclasses.dataclass(frozen=True)
class StorageLayout:'''), D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    variables_from_type: DefaultDict[Type[VariableBase], List[VariableBase]] = (
        DefaultDict(list)
    )
    for variable in variables:
        variables_from_type[type(variable)].append(variable)

    allocator = _Allocator()
    index_from_variable: Dict[VariableBase, int] = {}
    index_from_variable_type: Dict[Type[VariableBase], int] = {}
    for variable_type, group in variables_from_type.items():
        index_from_variable_type[variable_type] = allocator.position
        for variable in group:
            size = (
                variable.get_local_parameter_dim()
                if local
                else variable.get_parameter_dim()
            )
            index_from_variable[variable] = allocator.take(size)

    return StorageLayout(
        local_flag=local,
        dim=allocator.position,
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(index_from_variable_type),
        count_from_variable_type=frozendict(
            {k: len(v) for k, v in variables_from_type.items()}
        ),
    )
'''))
R("layout: methods that give slices", (LAYOUT, '''    @staticmethod
    def make(variables''', '''    def _size_of(self, variable) -> int:
        """Stored size of a variable, or of one variable of a type."""
        if self.local_flag:
            return variable.get_local_parameter_dim()
        return variable.get_parameter_dim()

    def slice_of_variable(self, variable: VariableBase) -> slice:
        start = self.index_from_variable[variable]
        return slice(start, start + self._size_of(variable))

    def slice_of_type(self, variable_type: Type[VariableBase]) -> slice:
        start = self.index_from_variable_type[variable_type]
        size = self._size_of(variable_type) * self.count_from_variable_type[variable_type]
        return slice(start, start + size)

    @staticmethod
    def make(variables'''), D(ASSIGN, "VariableAssignments.manifold_retract", '''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""
    layout = self.storage_layout
    local_layout = local_delta_assignments.storage_layout

    # Check that inputs make sense
    assert not layout.local_flag
    assert local_layout.local_flag

    # On-manifold retractions, one variable type at a time!
    new_storage = jnp.zeros_like(self.storage)
    variable_type: Type[VariableBase]
    for variable_type in layout.get_variable_types():
        count = layout.count_from_variable_type[variable_type]
        where = layout.slice_of_type(variable_type)
        values = jax.vmap(variable_type.unflatten)(
            self.storage[where].reshape((count, variable_type.get_parameter_dim()))
        )
        deltas = local_delta_assignments.storage[
            local_layout.slice_of_type(variable_type)
        ].reshape((count, variable_type.get_local_parameter_dim()))
        updated = jax.vmap(variable_type.manifold_retract)(values, deltas)
        new_storage = new_storage.at[where].set(
            jax.vmap(variable_type.flatten)(updated).flatten()
        )
    return jdc.replace(self, storage=new_storage)
'''), D(ASSIGN, "VariableAssignments.update_storage_layout", '''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Returns a new assignments object representing the same variable->value
    mapping, but with an updated storage layout."""
    current = self.storage_layout

    # No-op if storage layouts already match.
    if current == storage_layout:
        return self

    assert current.dim == storage_layout.dim
    assert current.local_flag == storage_layout.local_flag
    assert set(current.get_variables()) == set(storage_layout.get_variables())

    shuffle_indices = jnp.zeros(storage_layout.dim, dtype=jnp.int32)
    for variable in storage_layout.get_variables():
        source = current.slice_of_variable(variable)
        target = storage_layout.slice_of_variable(variable)
        shuffle_indices = shuffle_indices.at[target].set(
            jnp.arange(source.start, source.stop)
        )

    new_storage = self.storage[shuffle_indices]
    assert new_storage.shape == self.storage.shape
    return VariableAssignments(storage=new_storage, storage_layout=storage_layout)
'''))
R("assignments: constructor from flattened values", (ASSIGN, '''    @staticmethod
    def make_from_dict(''', '''    @staticmethod
    def _from_parts(parts, storage_layout: StorageLayout) -> "VariableAssignments":
        storage = jnp.concatenate(list(parts), axis=0)
        assert storage.shape == (storage_layout.dim,)
        return VariableAssignments(storage=storage, storage_layout=storage_layout)

    @staticmethod
    def make_from_dict('''), D(ASSIGN, "VariableAssignments.make_from_defaults", '''
@staticmethod
def make_from_defaults(variables: Iterable[VariableBase]) -> "VariableAssignments":
    """Create an assignment object from the default values corresponding to each variable."""
    storage_layout = StorageLayout.make(variables, local=False)

    def parts():
        for variable_type in storage_layout.get_variable_types():
            default = jax.jit(variable_type.flatten)(variable_type.get_default_value())
            count = storage_layout.count_from_variable_type[variable_type]
            yield jnp.tile(default, reps=(count,))

    return VariableAssignments._from_parts(parts(), storage_layout)
'''), D(ASSIGN, "VariableAssignments.make_from_partial_dict", '''
@staticmethod
def make_from_partial_dict(
    variables: Iterable[VariableBase],
    assignments: Dict[VariableBase, hints.VariableValue],
) -> "VariableAssignments":
    """Create an assignment object from a variables and assignments. Missing
    assignments are assigned the default variable values."""
    if assignments is None:
        assignments = {}
    storage_layout = StorageLayout.make(variables, local=False)

    def parts():
        for variable in storage_layout.get_variables():
            if variable in assignments:
                value = assignments[variable]
            else:
                value = variable.get_default_value()
            yield jax.jit(variable.flatten)(value)

    return VariableAssignments._from_parts(parts(), storage_layout)
'''))
R("stack: gather method shared by residual and jacobian", (STACK, '''    def compute_residual_vector(self, assignments''', '''    def _gather_values(self, assignments: VariableAssignments):
        """Stack the inputs to our factors."""
        assert assignments.storage_layout == self.storage_layout
        values = []
        for variable, indices in zip(self.factor.variables, self.value_indices):
            flat = assignments.storage[indices]
            values.append(jax.vmap(type(variable).unflatten)(flat))
        return self.factor.build_variable_value_tuple(tuple(values))

    def _map_over_factors(self, method, assignments: VariableAssignments):
        return jax.vmap(method)(self.factor, self._gather_values(assignments))

    def compute_residual_vector(self, assignments'''), D(STACK, "FactorStack.compute_residual_vector", '''
def compute_residual_vector(self, assignments: VariableAssignments) -> jnp.ndarray:
    """Compute stacked residual vectors."""
    return self._map_over_factors(
        type(self.factor).compute_residual_vector, assignments
    )
'''), D(STACK, "FactorStack.compute_residual_jacobian", '''
def compute_residual_jacobian(
    self,
    assignments: VariableAssignments,
) -> Tuple[jnp.ndarray, ...]:
    """Compute stacked Jacobian matrices, one for each variable."""
    return self._map_over_factors(
        type(self.factor).compute_residual_jacobians, assignments
    )
'''))
R("stack: coordinates by meshgrid per factor", D(STACK, "FactorStack.compute_jacobian_coords", '''
@staticmethod
def compute_jacobian_coords(
    factors: Sequence[FactorType],
    local_storage_layout: StorageLayout,
    row_offset: int,
) -> List[sparse.SparseCooCoordinates]:
    """Computes Jacobian coordinates for a factor stack. One array of indices per
    variable."""
    residual_dim = factors[0].get_residual_dim()
    jacobian_coords: List[sparse.SparseCooCoordinates] = []
    for position in range(len(factors[0].variables)):
        rows = []
        cols = []
        for k, factor in enumerate(factors):
            variable = factor.variables[position]
            start = local_storage_layout.index_from_variable[variable]
            block_rows, block_cols = onp.meshgrid(
                row_offset + k * residual_dim + onp.arange(residual_dim),
                start + onp.arange(variable.get_local_parameter_dim()),
                indexing="ij",
            )
            rows.append(block_rows.ravel())
            cols.append(block_cols.ravel())
        jacobian_coords.append(
            sparse.SparseCooCoordinates(
                rows=onp.concatenate(rows), cols=onp.concatenate(cols)
            )
        )
    return jacobian_coords
'''))
R("graph: builder class", (GRAPH, '''@jdc.pytree_dataclass
class StackedFactorGraph:''', '''class _GraphBuilder:
    """Collects factors, then lays them out."""

    def __init__(self) -> None:
        self.groups: DefaultDict[GroupKey, List[FactorBase]] = defaultdict(list)
        self.variables: Dict[VariableBase, None] = {}

    @staticmethod
    def group_key(factor: FactorBase) -> GroupKey:
        treedef = jax.tree_structure(factor.anonymize_variables())
        shapes = tuple(
            leaf.shape if hasattr(leaf, "shape") else ()
            for leaf in jax.tree_leaves(factor)
        )
        return (treedef, shapes)

    def add(self, factor: FactorBase) -> None:
        self.groups[self.group_key(factor)].append(factor)
        for v in factor.variables:
            self.variables[v] = None

    def build(self, use_onp: bool) -> "StackedFactorGraph":
        variables = list(self.variables.keys())
        storage_layout = StorageLayout.make(variables, local=False)
        local_storage_layout = StorageLayout.make(variables, local=True)

        stacks: List[FactorStack] = []
        coords: List[sparse.SparseCooCoordinates] = []
        offset = 0
        for group in self.groups.values():
            stack = FactorStack.make(group, storage_layout, use_onp=use_onp)
            coords.extend(
                FactorStack.compute_jacobian_coords(
                    factors=group,
                    local_storage_layout=local_storage_layout,
                    row_offset=offset,
                )
            )
            offset += stack.get_residual_dim()
            stacks.append(stack)

        return StackedFactorGraph(
            factor_stacks=stacks,
            jacobian_coords=jax.tree_map(
                lambda *arrays: onp.concatenate(arrays, axis=0), *coords
            ),
            storage_layout=storage_layout,
            local_storage_layout=local_storage_layout,
            residual_dim=offset,
        )


@jdc.pytree_dataclass
class StackedFactorGraph:'''), D(GRAPH, "StackedFactorGraph.make", '''
@staticmethod
def make(
    factors: Iterable[FactorBase],
    use_onp: bool = True,
) -> "StackedFactorGraph":
    """Create a factor graph from a set of factors."""
    builder = _GraphBuilder()
    for factor in factors:
        builder.add(factor)
    return builder.build(use_onp)
'''))
R("graph: whitening methods on the stack", (STACK, '''    def get_residual_dim(self) -> int:
        return self.factor''', '''    def whiten_residuals(self, residuals: jnp.ndarray) -> jnp.ndarray:
        noise_model = self.factor.noise_model
        return jax.vmap(type(noise_model).whiten_residual_vector)(
            noise_model, residuals
        )

    def whiten_jacobian(self, jacobian, residuals) -> jnp.ndarray:
        noise_model = self.factor.noise_model
        return jax.vmap(type(noise_model).whiten_jacobian)(
            noise_model, jacobian, residuals
        )

    def get_residual_dim(self) -> int:
        return self.factor'''), D(GRAPH, "StackedFactorGraph.compute_whitened_residual_vector", '''
@jdc.jit
def compute_whitened_residual_vector(
    self, assignments: VariableAssignments
) -> jnp.ndarray:
    """Computes flattened+whitened residual vector associated with our factor graph."""
    assignments = assignments.update_storage_layout(self.storage_layout)
    blocks = [
        stack.whiten_residuals(stack.compute_residual_vector(assignments))
        for stack in self.factor_stacks
    ]
    residual_vector = jnp.concatenate([block.flatten() for block in blocks], axis=0)
    assert residual_vector.shape == (self.residual_dim,)
    return residual_vector
'''), D(GRAPH, "StackedFactorGraph.compute_whitened_residual_jacobian", '''
@jdc.jit
def compute_whitened_residual_jacobian(
    self,
    assignments: VariableAssignments,
    residual_vector: hints.Array,
) -> sparse.SparseCooMatrix:
    """Compute the Jacobian of a graph's residual vector with respect to the stacked
    local delta vectors. Shape should be `(residual_dim, local_delta_storage_dim)`.
    """
    assignments = assignments.update_storage_layout(self.storage_layout)

    values: List[jnp.ndarray] = []
    start = 0
    for stack in self.factor_stacks:
        stop = start + stack.get_residual_dim()
        residuals = residual_vector[start:stop].reshape(
            (stack.num_factors, stack.factor.get_residual_dim())
        )
        values += [
            stack.whiten_jacobian(jacobian, residuals).flatten()
            for jacobian in stack.compute_residual_jacobian(assignments)
        ]
        start = stop
    assert start != 0
    assert start == self.residual_dim

    return sparse.SparseCooMatrix(
        values=jnp.concatenate(values),
        coords=self.jacobian_coords,
        shape=(self.residual_dim, self.local_storage_layout.dim),
    )
'''))
R("nll: one function per noise model in a table", (GRAPH, '''@jdc.pytree_dataclass
class StackedFactorGraph:''', '''def _log_det_full(noise_model: noises.Gaussian) -> jnp.ndarray:
    return jnp.log(jnp.abs(jnp.linalg.det(noise_model.sqrt_precision_matrix)))


def _log_det_diagonal(noise_model: noises.DiagonalGaussian) -> jnp.ndarray:
    return jnp.log(jnp.abs(jnp.prod(noise_model.sqrt_precision_diagonal, axis=-1)))


def _log_det_sqrt_precision(noise_model: noises.NoiseModelBase) -> jnp.ndarray:
    """Log determinants of the square root precisions, one for each stacked model."""
    if isinstance(noise_model, noises.Gaussian):
        return _log_det_full(noise_model)
    if isinstance(noise_model, noises.DiagonalGaussian):
        return _log_det_diagonal(noise_model)
    assert False, f"Joint NLL not supported  for {type(noise_model)}"


@jdc.pytree_dataclass
class StackedFactorGraph:'''), D(GRAPH, "StackedFactorGraph.compute_joint_nll", '''
@jdc.jit
def compute_joint_nll(
    self,
    assignments: VariableAssignments,
    include_constants: bool = False,
) -> jnp.ndarray:
    """Compute the joint negative log-likelihood density associated with a set of
    variable assignments. Assumes Gaussian noise models."""
    if include_constants:
        raise NotImplementedError()

    joint_nll, _ = self.compute_cost(assignments)
    for stacked_factor in self.factor_stacks:
        log_dets = _log_det_sqrt_precision(stacked_factor.factor.noise_model)
        assert log_dets.shape == (stacked_factor.num_factors,)
        joint_nll = joint_nll - 2.0 * jnp.sum(log_dets)
    return joint_nll
'''))

# ---- solvers

R("trust region: propose and select in the mixin", (MX, '''@jdc.pytree_dataclass
class _TerminationCriteriaMixin:''', '''    def _propose(self, graph, state_prev, A, step_vector):
        """Take a step; returns the deltas, the proposal and its quality."""
        delta = VariableAssignments(
            storage=step_vector, storage_layout=graph.local_storage_layout
        )
        proposed = state_prev.assignments.manifold_retract(
            local_delta_assignments=delta
        )
        cost, residual_vector = graph.compute_cost(proposed)
        quality = self.compute_step_quality(
            A=A, proposed_cost=cost, state_prev=state_prev, step_vector=step_vector
        )
        return delta, proposed, cost, residual_vector, quality

    @staticmethod
    def _select(accept, new, old):
        return jax.tree_map(lambda a, b: jnp.where(accept, a, b), new, old)


@jdc.pytree_dataclass
class _TerminationCriteriaMixin:'''), D(LM, "LevenbergMarquardtSolver._step", '''
@overrides
def _step(
    self,
    graph: "StackedFactorGraph",
    state_prev: _LevenbergMarquardtState,
) -> _LevenbergMarquardtState:
    self._hcb_print(
        lambda i, max_i, cost, lambd: f"Iteration #{i}/{max_i}: cost={str(cost).ljust(15)} lambda={str(lambd)}",
        i=state_prev.iterations,
        max_i=self.max_iterations,
        cost=state_prev.cost,
        lambd=state_prev.lambd,
    )

    A: sparse.SparseCooMatrix = graph.compute_whitened_residual_jacobian(
        assignments=state_prev.assignments,
        residual_vector=state_prev.residual_vector,
    )
    ATb = A.T @ -state_prev.residual_vector
    step_vector: jnp.ndarray = self.linear_solver.solve_subproblem(
        A=A, ATb=ATb, lambd=state_prev.lambd, iteration=state_prev.iterations
    )
    delta, proposed, cost, residual_vector, quality = self._propose(
        graph, state_prev, A, step_vector
    )
    accept = quality >= self.step_quality_min

    raised = jnp.clip(
        state_prev.lambd * self.lambda_factor, self.lambda_min, self.lambda_max
    )
    lowered = state_prev.lambd / self.lambda_factor

    converged = self.check_convergence(
        state_prev=state_prev,
        cost_updated=cost,
        local_delta_assignments=delta,
        negative_gradient=ATb,
    )
    out_of_iterations = self.check_exceeded_max_iterations(state_prev=state_prev)

    assignments, cost, residual_vector = self._select(
        accept,
        (proposed, cost, residual_vector),
        (state_prev.assignments, state_prev.cost, state_prev.residual_vector),
    )
    return _LevenbergMarquardtState(
        iterations=state_prev.iterations + 1,
        assignments=assignments,
        cost=cost,
        residual_vector=residual_vector,
        done=out_of_iterations | (accept & converged),
        lambd=jnp.where(accept, lowered, raised),
    )
'''))
R("dogleg: step function with three named candidates", (DL, '''@jdc.pytree_dataclass
class DoglegSolver(''', '''def _squared_norm(x: jnp.ndarray) -> jnp.ndarray:
    return jnp.sum(x**2)


def _boundary_step(cauchy, newton, radius):
    """Point where the segment from the Cauchy point to the Newton point leaves the
    trust region."""
    direction = newton - cauchy
    c = jnp.sum(cauchy * direction)
    slack = radius**2 - _squared_norm(cauchy)
    length_sq = _squared_norm(direction)
    root = jnp.sqrt(c**2 + length_sq * slack)
    beta = jnp.where(c <= 0, (root - c) / length_sq, slack / (root + c))
    return cauchy + beta * direction


def _dogleg_step(A, gradient, newton, radius):
    cauchy = gradient * (_squared_norm(gradient) / _squared_norm(A @ gradient))
    cauchy_norm = jnp.linalg.norm(cauchy)
    return jnp.where(
        jnp.linalg.norm(newton) <= radius,
        newton,
        jnp.where(
            cauchy_norm >= radius,
            cauchy * (radius / cauchy_norm),
            _boundary_step(cauchy, newton, radius),
        ),
    )


@jdc.pytree_dataclass
class DoglegSolver('''), (DL, '''        step_vector = compute_dogleg_step()
''', '''        step_vector = _dogleg_step(
            A,
            ATb,
            self.linear_solver.solve_subproblem(
                A=A, ATb=ATb, lambd=0.0, iteration=state_prev.iterations
            ),
            state_prev.radius,
        )
'''))
R("solvers: finish method in the base", (NB, '''    def _hcb_print(
        self,''', '''    def _print_termination(self, state) -> None:
        self._hcb_print(
            lambda i, cost: f"Terminated @ iteration #{i}: cost={str(cost).ljust(15)}",
            i=state.iterations,
            cost=state.cost,
        )

    def _optimize(self, graph: "StackedFactorGraph", state):
        """Step until the state says that it is done."""

        def keep_going(state):
            return ~jnp.asarray(state.done)

        def body(state):
            return self._step(graph, state)

        return jax.lax.while_loop(keep_going, body, state)

    def _hcb_print(
        self,'''), D(NB, "NonlinearSolverBase.solve", '''
@jdc.jit
def solve(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> VariableAssignments:
    """Run MAP inference on a factor graph."""
    original_layout = initial_assignments.storage_layout
    state = self._optimize(
        graph,
        self._initialize_state(
            graph, initial_assignments.update_storage_layout(graph.storage_layout)
        ),
    )
    self._print_termination(state)
    return state.assignments.update_storage_layout(original_layout)
'''))
R("termination: criteria as separate methods", (MX, '''    @jax.jit
    def check_convergence(''', '''    def _cost_converged(self, cost_prev, cost_updated):
        return jnp.abs(cost_updated - cost_prev) / cost_prev < self.cost_tolerance

    def _gradient_converged(self, state_prev, negative_gradient, layout):
        stepped = state_prev.assignments.manifold_retract(
            VariableAssignments(storage=negative_gradient, storage_layout=layout)
        )
        change = jnp.abs(state_prev.assignments.storage - stepped.storage)
        return jnp.logical_and(
            state_prev.iterations >= self.gradient_tolerance_start_step,
            jnp.max(change) < self.gradient_tolerance,
        )

    def _parameters_converged(self, x, delta):
        tolerance = self.parameter_tolerance
        return jnp.linalg.norm(delta) < (jnp.linalg.norm(x) + tolerance) * tolerance

    @jax.jit
    def check_convergence('''), D(MX, "_TerminationCriteriaMixin.check_convergence", '''
@jax.jit
def check_convergence(
    self,
    state_prev: NonlinearSolverState,
    cost_updated: hints.Scalar,
    local_delta_assignments: VariableAssignments,
    negative_gradient: hints.Array,
) -> jax.Array:
    """Check for convergence!"""
    return (
        self._cost_converged(state_prev.cost, cost_updated)
        | self._gradient_converged(
            state_prev, negative_gradient, local_delta_assignments.storage_layout
        )
        | self._parameters_converged(
            state_prev.assignments.storage, local_delta_assignments.storage
        )
    )
'''))
R("gauss newton: fixed iterations shares the step", (NB, '''    # Shared.

    @jdc.jit''', '''    # Shared.

    def _gauss_newton_update(self, graph, state_prev):
        """Returns the negative gradient, the deltas and the updated assignments."""
        A = graph.compute_whitened_residual_jacobian(
            assignments=state_prev.assignments,
            residual_vector=state_prev.residual_vector,
        )
        ATb = -(A.T @ state_prev.residual_vector)
        deltas = VariableAssignments(
            storage=self.linear_solver.solve_subproblem(
                A=A, ATb=ATb, lambd=0.0, iteration=state_prev.iterations
            ),
            storage_layout=graph.local_storage_layout,
        )
        return ATb, deltas, state_prev.assignments.manifold_retract(deltas)

    @jdc.jit'''), D(GN, "GaussNewtonSolver._step", '''
@overrides
def _step(
    self,
    graph: "StackedFactorGraph",
    state_prev: NonlinearSolverState,
) -> NonlinearSolverState:
    """Linearize, solve linear subproblem, and update on manifold."""
    self._hcb_print(
        lambda i, max_i, cost: f"Iteration #{i}/{max_i}: cost={str(cost)}",
        i=state_prev.iterations,
        max_i=self.max_iterations,
        cost=state_prev.cost,
    )
    ATb, deltas, assignments = self._gauss_newton_update(graph, state_prev)
    cost, residual_vector = graph.compute_cost(assignments)
    stop = self.check_exceeded_max_iterations(state_prev=state_prev)
    stop = jnp.logical_or(
        stop,
        self.check_convergence(
            state_prev=state_prev,
            cost_updated=cost,
            local_delta_assignments=deltas,
            negative_gradient=ATb,
        ),
    )
    return jdc.replace(
        state_prev,
        iterations=state_prev.iterations + 1,
        assignments=assignments,
        cost=cost,
        residual_vector=residual_vector,
        done=stop,
    )
'''))
R("cholmod: cache accessor function", (LIN, '''@jdc.pytree_dataclass
class CholmodSolver(''', '''def _get_symbolic_factor(solver, A_T_scipy) -> sksparse.cholmod.Factor:
    """Symbolic analysis for a sparsity pattern, computed the first time it is seen."""
    key = (
        object.__hash__(solver),
        A_T_scipy.shape,
        A_T_scipy.indptr.tobytes(),
        A_T_scipy.indices.tobytes(),
    )
    try:
        return _cholmod_analyze_cache[key]
    except KeyError:
        factor = sksparse.cholmod.analyze_AAt(A_T_scipy)
        _cholmod_analyze_cache[key] = factor
        return factor


@jdc.pytree_dataclass
class CholmodSolver('''), D(LIN, "CholmodSolver._solve", '''
def _solve(self, args: _LinearSolverArgs) -> jnp.ndarray:
    A, ATb, lambd = args
    A_T_scipy = A.T.as_scipy_coo_matrix().tocsc(copy=False)
    factor = _get_symbolic_factor(self, A_T_scipy)
    # Some simple linear problems blow up without this 1e-5 term
    factor.cholesky_AAt_inplace(A_T_scipy, beta=lambd + 1e-5)
    return factor.solve_A(ATb)
'''))
R("cg: tolerance as attribute free function and closures lifted", D(LIN, "_ConjugateGradientSolver.solve_subproblem", '''
@overrides
def solve_subproblem(
    self,
    A: SparseCooMatrix,
    ATb: hints.Array,
    lambd: hints.Scalar,
    iteration: hints.Scalar,
) -> jnp.ndarray:
    assert A.values.ndim == 1, "A.values should be 1D"
    assert ATb.ndim == 1, "ATb should be 1D!"

    (n,) = ATb.shape
    diagonal = self._ata_diagonal(A, n)
    A_T = A.T
    solution, _info = jax.scipy.sparse.linalg.cg(
        lambda x: A_T @ (A @ x) + lambd * diagonal * x,
        ATb,
        x0=onp.zeros(n),
        tol=self._get_cg_tolerance(iteration),
        maxiter=n,
        M=lambda x: x / diagonal,
    )
    return solution

@staticmethod
def _ata_diagonal(A: SparseCooMatrix, n: int) -> jnp.ndarray:
    """Diagonal of A^T A."""
    return jnp.zeros(n).at[A.coords.cols].add(jnp.square(A.values))
'''))
R("coo: static scatter helper", (COO, '''@jdc.pytree_dataclass
class SparseCooMatrix:''', '''def _scatter_add(shape, index, values, dtype=None) -> jnp.ndarray:
    """Sum values into an array of zeros; repeated positions accumulate."""
    return jnp.zeros(shape, dtype=dtype).at[index].add(values)


@jdc.pytree_dataclass
class SparseCooMatrix:'''), D(COO, "SparseCooMatrix.__matmul__", '''
def __matmul__(self, other: hints.Array):
    """Compute `Ax`, where `x` is a 1D vector."""
    num_rows, num_cols = self.shape
    assert other.shape == (num_cols,), "Inner product only supported for 1D vectors!"
    products = self.values * other[self.coords.cols]
    return _scatter_add(num_rows, self.coords.rows, products, dtype=other.dtype)
'''), D(COO, "SparseCooMatrix.as_dense", '''
def as_dense(self) -> jnp.ndarray:
    """Convert to a dense JAX array."""
    return _scatter_add(
        self.shape, (self.coords.rows, self.coords.cols), self.values
    )
'''))
R("covariance: index lookup and recursion split", (COV, '''    def __getitem__(self, indices''', '''    def _indices_of(self, variable: core.VariableBase) -> Sequence[int]:
        start = self.local_storage_layout.index_from_variable[variable]
        return range(start, start + variable.get_local_parameter_dim())

    def _compute_value(self, row: int, col: int) -> float:
        """Covariance value from the square-root information matrix; row <= col."""
        total = self._sum_over_col(row, col)
        scale = self.L_diag_inv[row]
        if row == col:
            return scale * (scale - total)
        return -scale * total

    def __getitem__(self, indices'''), D(COV, "SparseCovariance.compute_marginal", '''
def compute_marginal(self, *variables: core.VariableBase) -> onp.ndarray:
    """Compute marginal covariance for a set of variables. Input order matters.

    Output will be a square matrix."""
    return self._compute_marginal(
        [index for v in variables for index in self._indices_of(v)]
    )
'''), D(COV, "SparseCovariance.__getitem__", '''
def __getitem__(self, indices: Tuple[int, int]) -> float:
    """Get a single value in our sparse covariance matrix."""
    row, col = indices
    if row > col:
        row, col = col, row
    key = (row, col)
    if key not in self._value_cache:
        self._value_cache[key] = self._compute_value(row, col)
    return self._value_cache[key]
'''))
R("g2o: dispatch table of handlers", D(G2O, "parse_g2o", '''
def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
    """Parse a G2O file. Creates a list of factors and dictionary of initial poses."""

    pose_variables: List[jaxfg.geometry.LieVariableBase] = []
    initial_poses: Dict[jaxfg.geometry.LieVariableBase, jaxlie.MatrixLieGroup] = {}
    factors: List[jaxfg.core.FactorBase] = []

    def add_pose(index, variable, pose):
        assert len(initial_poses) == index
        initial_poses[variable] = pose
        pose_variables.append(variable)

    def add_edge(before_index, after_index, between, dim, components):
        factors.append(
            jaxfg.geometry.BetweenFactor.make(
                variable_T_world_a=pose_variables[before_index],
                variable_T_world_b=pose_variables[after_index],
                T_a_b=between,
                noise_model=_noise_from_upper_triangle(dim, components),
            )
        )

    with open(path) as file:
        lines = [line.strip() for line in file.readlines()]

    for line in tqdm(lines):
        tag, *parts = [part for part in line.split(" ") if part != ""]
        if tag == "VERTEX_SE2":
            if len(pose_variables) > pose_count_limit:
                continue
            index, x, y, theta = parts
            add_pose(
                int(index),
                jaxfg.geometry.SE2Variable(),
                jaxlie.SE2.from_xy_theta(float(x), float(y), float(theta)),
            )
        elif tag == "EDGE_SE2":
            before_index, after_index = int(parts[0]), int(parts[1])
            if before_index > pose_count_limit or after_index > pose_count_limit:
                continue
            x, y, theta = map(float, parts[2:5])
            add_edge(
                before_index,
                after_index,
                jaxlie.SE2.from_xy_theta(x, y, theta),
                3,
                [float(p) for p in parts[5:]],
            )
        elif tag == "VERTEX_SE3:QUAT":
            index, x, y, z, qx, qy, qz, qw = parts
            add_pose(
                int(index),
                jaxfg.geometry.SE3Variable(),
                jaxlie.SE3(
                    wxyz_xyz=onp.array([float(p) for p in (qw, qx, qy, qz, x, y, z)])
                ),
            )
        elif tag == "EDGE_SE3:QUAT":
            numbers = [float(p) for p in parts[2:]]
            assert len(numbers) == 7 + 21
            add_edge(
                int(parts[0]),
                int(parts[1]),
                jaxlie.SE3.from_rotation_and_translation(
                    rotation=jaxlie.SO3.from_quaternion_xyzw(onp.array(numbers[3:7])),
                    translation=onp.array(numbers[:3]),
                ),
                6,
                numbers[7:],
            )
        else:
            assert False, f"Unexpected line type: {tag}"

    # Anchor start pose
    first = pose_variables[0]
    factors.append(
        jaxfg.geometry.PriorFactor.make(
            variable=first,
            mu=initial_poses[first],
            noise_model=jaxfg.noises.DiagonalGaussian(
                jnp.ones(first.get_local_parameter_dim()) * 100.0
            ),
        )
    )
    return G2OData(factors=factors, initial_poses=initial_poses)


def _noise_from_upper_triangle(dim, components) -> jaxfg.noises.Gaussian:
    precision = onp.zeros((dim, dim))
    upper = onp.triu_indices(dim)
    precision[upper] = components
    precision = precision.T
    precision[upper] = components
    return jaxfg.noises.Gaussian(
        sqrt_precision_matrix=onp.linalg.cholesky(precision).T
    )
'''))
R("factor: jacobians as explicit chain rule loop", D(FACTOR, "FactorBase.compute_residual_jacobians", '''
def compute_residual_jacobians(
    self, variable_values: VariableValueTuple
) -> Tuple[jnp.ndarray, ...]:
    """Compute Jacobian of residual with respect to local parameterization, by
    composing the residual computation Jacobian with the manifold retraction
    Jacobian."""
    assert len(self.variables) == len(variable_values)
    residual_dim = self.get_residual_dim()
    jacobian_trees = jax.jacfwd(self.compute_residual_vector)(variable_values)

    output = []
    for variable, value, tree in zip(self.variables, variable_values, jacobian_trees):
        wrt_parameters = jnp.concatenate(
            [leaf.reshape((residual_dim, -1)) for leaf in jax.tree_leaves(tree)],
            axis=-1,
        )
        local_dim = variable.get_local_parameter_dim()
        wrt_local = jnp.concatenate(
            [
                leaf.reshape((-1, local_dim))
                for leaf in variable.manifold_retract_jacobian(value)
            ],
            axis=0,
        )
        output.append(wrt_parameters @ wrt_local)
    return tuple(output)
'''))
R("factor: hint resolution split out", (FACTOR, '''    @final
    def build_variable_value_tuple(''', '''    def _get_value_tuple_type(self):
        """Type hint of the values passed into our residual function."""
        hints_ = get_type_hints(self.compute_residual_vector)
        if "variable_values" not in hints_:
            raise NotImplementedError(
                f"Missing type hints for {type(self).__name__}.compute_residual_vector"
            )
        return hints_["variable_values"]

    @final
    def build_variable_value_tuple('''), D(FACTOR, "FactorBase.build_variable_value_tuple", '''
@final
def build_variable_value_tuple(
    self, variable_values: Tuple[hints.VariableValue, ...]
) -> VariableValueTuple:
    """Prepares and validates a raw tuple of variable values to be passed into
    `compute_residual_vector` or `compute_residual_jacobians`."""
    assert isinstance(variable_values, tuple)
    value_type = self._get_value_tuple_type()
    is_named_tuple = type(value_type) is type

    if is_named_tuple:
        content_types = tuple(get_type_hints(value_type).values())
    else:
        content_types = get_args(value_type)

    # Handle Ellipsis in type hints, eg `Tuple[SomeType, ...]`
    if len(content_types) == 2 and content_types[1] is Ellipsis:
        content_types = (content_types[0],) * len(variable_values)

    # Validate expected and received types
    output = value_type(*variable_values) if is_named_tuple else variable_values
    assert len(variable_values) == len(content_types)
    for i, (value, expected_type) in enumerate(zip(variable_values, content_types)):
        assert isinstance(value, expected_type), (
            f"Variable value type hint inconsistency: expected {expected_type} at, "
            f"position {i} but got {type(value)}."
        )
    return output
'''))
R("noises: scale helper in the base class", ("jaxfg/noises/_noise_model_base.py", '''    @abc.abstractmethod
    def get_residual_dim''', '''    @staticmethod
    def _check_square(matrix) -> None:
        rows, cols = matrix.shape
        assert rows == cols, "Covariance must be a square matrix!"

    @abc.abstractmethod
    def get_residual_dim'''), D(GAUSS, "Gaussian.make_from_covariance", '''
@staticmethod
def make_from_covariance(covariance: hints.Array) -> "Gaussian":
    assert len(covariance.shape) == 2, "Covariance must be a square matrix!"
    NoiseModelBase._check_square(covariance)
    cholesky_factor = jnp.linalg.cholesky(covariance)
    return Gaussian(sqrt_precision_matrix=jnp.linalg.inv(cholesky_factor))
'''), D(GAUSS, "Gaussian.whiten_residual_vector", '''
@overrides
def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
    return self.sqrt_precision_matrix @ residual_vector
'''), D(GAUSS, "Gaussian.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,  # Unused
) -> hints.Array:
    return self.sqrt_precision_matrix @ jacobian
'''))
R("huber: weight from norm", (HUBER, '''    @overrides
    def get_residual_dim(self) -> int:''', '''    def _apply(self, array, norm, weight):
        """Weight an array where the norm exceeds the threshold."""
        return jnp.where(norm < self.delta, array, array * weight)

    @overrides
    def get_residual_dim(self) -> int:'''), D(HUBER, "HuberWrapper.whiten_residual_vector", '''
@overrides
def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
    whitened = self.wrapped.whiten_residual_vector(residual_vector)
    norm = jnp.linalg.norm(whitened)
    return self._apply(whitened, norm, jnp.sqrt(self.delta / norm))
'''), D(HUBER, "HuberWrapper.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,
) -> hints.Array:
    norm = jnp.linalg.norm(residual_vector)
    return self._apply(
        self.wrapped.whiten_jacobian(jacobian, residual_vector),
        norm,
        self.delta / norm,
    )
'''))
R("lie: group type as a class attribute read by the method", (LIE, '''class SO2Variable(LieVariableBase[jaxlie.SO2]):
    @staticmethod
    @overrides
    def get_group_type() -> Type[jaxlie.SO2]:
        return jaxlie.SO2


class SE2Variable(LieVariableBase[jaxlie.SE2]):
    @staticmethod
    @overrides
    def get_group_type() -> Type[jaxlie.SE2]:
        return jaxlie.SE2
''', '''_GROUPS = {"SO2": jaxlie.SO2, "SE2": jaxlie.SE2}


class SO2Variable(LieVariableBase[jaxlie.SO2]):
    @staticmethod
    @overrides
    def get_group_type() -> Type[jaxlie.SO2]:
        return _GROUPS["SO2"]


class SE2Variable(LieVariableBase[jaxlie.SE2]):
    @staticmethod
    @overrides
    def get_group_type() -> Type[jaxlie.SE2]:
        return _GROUPS["SE2"]
'''))
R("geometry: residual through explicit group operations", D(GEO, "BetweenFactor.compute_residual_vector", '''
@overrides
def compute_residual_vector(
    self, variable_values: BetweenValueTuple
) -> jnp.ndarray:
    T_world_a, T_world_b = variable_values
    T_a_b_predicted = T_world_a.inverse() @ T_world_b
    return (T_a_b_predicted.inverse() @ self.T_a_b).log()
'''), D(GEO, "PriorFactor.compute_residual_vector", '''
@overrides
def compute_residual_vector(self, variable_values: PriorValueTuple) -> jnp.ndarray:
    return (variable_values[0].inverse() @ self.mu).log()
'''), D(GEO, "BetweenFactor.compute_residual_jacobians", '''
@overrides
def compute_residual_jacobians(
    self, variable_values: BetweenValueTuple
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    T_world_a, T_world_b = variable_values
    assert type(T_world_a) == type(T_world_b)
    T_b_a = T_world_b.inverse() @ T_world_a
    return T_b_a.adjoint(), -jnp.eye(type(T_world_b).tangent_dim)
'''))
