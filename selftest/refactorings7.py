"""Other library calls for the same arrays, and other control flow for the same results."""

from cases import R
from refactorings import ASSIGN, COO, COV, D, DL, FACTOR, FX, GAUSS, GEO, GN, GRAPH, HUBER, LAYOUT, LIE, LIN, LM, MX, NB, STACK, VARS

G2O = "scripts/_g2o_utils.py"

# ---- library alternatives, in combination

R("layout: accumulate and chain", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    buckets: Dict[Type[VariableBase], List[VariableBase]] = {}
    for variable in variables:
        buckets.setdefault(type(variable), []).append(variable)

    ordered = list(itertools.chain.from_iterable(buckets.values()))
    sizes = [
        v.get_local_parameter_dim() if local else v.get_parameter_dim() for v in ordered
    ]
    starts = [0, *itertools.accumulate(sizes)]
    index_from_variable = dict(zip(ordered, starts))
    return StorageLayout(
        local_flag=local,
        dim=starts[-1],
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(
            {t: index_from_variable[members[0]] for t, members in buckets.items()}
        ),
        count_from_variable_type=frozendict(
            {t: len(members) for t, members in buckets.items()}
        ),
    )
'''), (LAYOUT, "import dataclasses\n", "import dataclasses\nimport itertools\n"))

R("assignments: dynamic slices", D(ASSIGN, "VariableAssignments.get_value", '''
def get_value(self, variable: VariableBase[VariableValueType]) -> VariableValueType:
    """Get value corresponding to specific variable."""
    variable_type = type(variable)
    flat = jax.lax.dynamic_slice_in_dim(
        self.storage,
        self.storage_layout.index_from_variable[variable],
        variable_type.get_parameter_dim(),
    )
    return variable_type.unflatten(flat)
'''))

R("assignments: set by dynamic update", D(ASSIGN, "VariableAssignments.set_value", '''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    start = self.storage_layout.index_from_variable[variable]
    flat = type(variable).flatten(value)
    return jdc.replace(
        self,
        storage=jax.lax.dynamic_update_slice_in_dim(
            jnp.asarray(self.storage), flat, start, axis=0
        ),
    )
'''))

R("assignments: set by slices joined", D(ASSIGN, "VariableAssignments.set_value", '''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    start = self.storage_layout.index_from_variable[variable]
    stop = start + variable.get_parameter_dim()
    return jdc.replace(
        self,
        storage=jnp.concatenate(
            [self.storage[:start], variable.flatten(value), self.storage[stop:]]
        ),
    )
'''))

R("assignments: retract list joined per type", D(ASSIGN, "VariableAssignments.manifold_retract", '''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""
    base_layout = self.storage_layout
    delta_layout = local_delta_assignments.storage_layout
    assert not base_layout.local_flag and delta_layout.local_flag

    def retract_flat(variable_type, flat, delta):
        x = variable_type.unflatten(flat)
        return variable_type.flatten(variable_type.manifold_retract(x, delta))

    blocks = []
    for variable_type, count in base_layout.count_from_variable_type.items():
        start = base_layout.index_from_variable_type[variable_type]
        local_start = delta_layout.index_from_variable_type[variable_type]
        dim = variable_type.get_parameter_dim()
        local_dim = variable_type.get_local_parameter_dim()
        values = jnp.reshape(self.storage[start : start + count * dim], (count, dim))
        deltas = jnp.reshape(
            local_delta_assignments.storage[local_start : local_start + count * local_dim],
            (count, local_dim),
        )
        blocks.append(
            jax.vmap(functools.partial(retract_flat, variable_type))(values, deltas).ravel()
        )
    return VariableAssignments(
        storage=jnp.concatenate(blocks), storage_layout=base_layout
    )
'''), (ASSIGN, "import jax\n", "import functools\n\nimport jax\n"))

R("graph: reduce for residual", D(GRAPH, "StackedFactorGraph.compute_whitened_residual_vector", '''
@jdc.jit
def compute_whitened_residual_vector(
    self, assignments: VariableAssignments
) -> jnp.ndarray:
    """Computes flattened+whitened residual vector associated with our factor graph."""
    assignments = assignments.update_storage_layout(self.storage_layout)

    def whitened(stack: FactorStack) -> jnp.ndarray:
        noise_model = stack.factor.noise_model
        whiten = jax.vmap(type(noise_model).whiten_residual_vector)
        return jnp.ravel(whiten(noise_model, stack.compute_residual_vector(assignments)))

    residual_vector = jnp.hstack(list(map(whitened, self.factor_stacks)))
    assert residual_vector.shape == (self.residual_dim,)
    return residual_vector
'''))

R("graph: cost by vdot", D(GRAPH, "StackedFactorGraph.compute_cost", '''
@jdc.jit
def compute_cost(
    self, assignments: VariableAssignments
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    """Compute the sum of squared residuals associated with a factor graph."""
    r = self.compute_whitened_residual_vector(assignments)
    return jnp.vdot(r, r), r
'''))

R("graph: nll with slogdet and log sums", D(GRAPH, "StackedFactorGraph.compute_joint_nll", '''
@jdc.jit
def compute_joint_nll(
    self,
    assignments: VariableAssignments,
    include_constants: bool = False,
) -> jnp.ndarray:
    """Compute the joint negative log-likelihood density."""
    if include_constants:
        raise NotImplementedError()

    cost, _ = self.compute_cost(assignments)
    log_dets = []
    for stack in self.factor_stacks:
        noise_model = stack.factor.noise_model
        if isinstance(noise_model, noises.Gaussian):
            _sign, log_det = jnp.linalg.slogdet(noise_model.sqrt_precision_matrix)
        elif isinstance(noise_model, noises.DiagonalGaussian):
            log_det = jnp.sum(
                jnp.log(jnp.abs(noise_model.sqrt_precision_diagonal)), axis=-1
            )
        else:
            raise AssertionError(f"Joint NLL not supported  for {type(noise_model)}")
        assert log_det.shape == (stack.num_factors,)
        log_dets.append(jnp.sum(log_det))
    return cost - 2.0 * sum(log_dets)
'''))

R("graph: jacobian with split", D(GRAPH, "StackedFactorGraph.compute_whitened_residual_jacobian", '''
@jdc.jit
def compute_whitened_residual_jacobian(
    self,
    assignments: VariableAssignments,
    residual_vector: hints.Array,
) -> sparse.SparseCooMatrix:
    """Compute the Jacobian of a graph's residual vector."""
    assignments = assignments.update_storage_layout(self.storage_layout)

    dims = [stack.get_residual_dim() for stack in self.factor_stacks]
    assert sum(dims) != 0
    assert sum(dims) == self.residual_dim
    offsets = onp.cumsum(dims)[:-1]
    parts = jnp.split(residual_vector, offsets)

    values: List[jnp.ndarray] = []
    for stack, part in zip(self.factor_stacks, parts):
        noise_model = stack.factor.noise_model
        whiten = jax.vmap(type(noise_model).whiten_jacobian)
        part = part.reshape((stack.num_factors, stack.factor.get_residual_dim()))
        values.extend(
            whiten(noise_model, jacobian, residual_vector=part).flatten()
            for jacobian in stack.compute_residual_jacobian(assignments)
        )
    return sparse.SparseCooMatrix(
        values=jnp.concatenate(values),
        coords=self.jacobian_coords,
        shape=(self.residual_dim, self.local_storage_layout.dim),
    )
'''))

R("stack: advanced indexing tables", D(STACK, "FactorStack.make", '''
@staticmethod
def make(
    factors: Sequence[FactorType],
    storage_layout: StorageLayout,
    use_onp: bool,
) -> "FactorStack[FactorType]":
    """Make a stacked factor."""
    xp = onp if use_onp else jnp
    first = factors[0]

    anonymous = [factor.anonymize_variables() for factor in factors]
    stacked_factor: FactorType = jax.tree_map(
        lambda *arrays: xp.stack(arrays, axis=0), *anonymous
    )

    def indices_for(position: int) -> onp.ndarray:
        expected = type(first.variables[position])
        starts = []
        for factor in factors:
            variable = factor.variables[position]
            assert isinstance(
                variable, expected
            ), "Variable types of stacked factors must match"
            starts.append(storage_layout.index_from_variable[variable])
        return onp.array(starts)[:, None] + onp.arange(expected.get_parameter_dim())[None, :]

    return FactorStack(
        num_factors=len(factors),
        factor=stacked_factor,
        value_indices=tuple(indices_for(i) for i in range(len(first.variables))),
        storage_layout=storage_layout,
    )
'''))

R("stack: repeat and tile coordinates", D(STACK, "FactorStack.compute_jacobian_coords", '''
@staticmethod
def compute_jacobian_coords(
    factors: Sequence[FactorType],
    local_storage_layout: StorageLayout,
    row_offset: int,
) -> List[sparse.SparseCooCoordinates]:
    """Computes Jacobian coordinates for a factor stack."""
    num_factors = len(factors)
    residual_dim = factors[0].get_residual_dim()
    coords: List[sparse.SparseCooCoordinates] = []
    for i, variable in enumerate(factors[0].variables):
        local_dim = variable.get_local_parameter_dim()
        rows = row_offset + onp.repeat(
            onp.arange(num_factors * residual_dim), local_dim
        )
        starts = onp.array(
            [local_storage_layout.index_from_variable[f.variables[i]] for f in factors]
        )
        cols = onp.repeat(starts, residual_dim * local_dim) + onp.tile(
            onp.arange(local_dim), num_factors * residual_dim
        )
        coords.append(sparse.SparseCooCoordinates(rows=rows, cols=cols))
    return coords
'''))

R("termination: or-chain with lax", D(MX, "_TerminationCriteriaMixin.check_convergence", '''
@jax.jit
def check_convergence(
    self,
    state_prev: NonlinearSolverState,
    cost_updated: hints.Scalar,
    local_delta_assignments: VariableAssignments,
    negative_gradient: hints.Array,
) -> jax.Array:
    """Check for convergence!"""
    x = state_prev.assignments
    gradient_step = jdc.replace(local_delta_assignments, storage=negative_gradient)
    gradient_change = x.manifold_retract(gradient_step).storage - x.storage
    small_cost_change = (
        jnp.abs(state_prev.cost - cost_updated) / state_prev.cost < self.cost_tolerance
    )
    small_gradient = jnp.logical_and(
        state_prev.iterations >= self.gradient_tolerance_start_step,
        jnp.linalg.norm(gradient_change, ord=jnp.inf) < self.gradient_tolerance,
    )
    small_step = jnp.linalg.norm(
        local_delta_assignments.storage
    ) < self.parameter_tolerance * (
        self.parameter_tolerance + jnp.linalg.norm(x.storage)
    )
    return small_cost_change | small_gradient | small_step
'''))

R("lm: lax cond accept", (LM, '''        lambd = jnp.where(
            accept_flag,
            # If accept, decrease damping: note that we *don't* enforce any bounds here
            state_prev.lambd / self.lambda_factor,
            # If reject: increase lambda and enforce bounds
            jnp.maximum(
                self.lambda_min,
                jnp.minimum(state_prev.lambd * self.lambda_factor, self.lambda_max),
            ),
        )
''', '''        lambd = jax.lax.cond(
            accept_flag,
            lambda lam: lam / self.lambda_factor,
            lambda lam: jnp.clip(
                lam * self.lambda_factor, self.lambda_min, self.lambda_max
            ),
            state_prev.lambd,
        )
'''), (LM, "import jax_dataclasses as jdc\n", "import jax\nimport jax_dataclasses as jdc\n"))

R("dogleg: select over conditions", (DL, '''            return jnp.where(
                # Use GN if it's within trust region
                norm_gn <= state_prev.radius,
                step_vector_gn,
                jnp.where(
                    # Use normed SD if neither are within trust region
                    norm_sd >= state_prev.radius,
                    state_prev.radius / norm_sd * a,
                    a + beta * (step_vector_gn - a),
                ),
            )
''', '''            return jnp.select(
                [norm_gn <= state_prev.radius, norm_sd >= state_prev.radius],
                [step_vector_gn, a * (state_prev.radius / norm_sd)],
                default=(1.0 - beta) * a + beta * b,
            )
'''))

R("coo: segment sum", D(COO, "SparseCooMatrix.__matmul__", '''
def __matmul__(self, other: hints.Array):
    """Compute `Ax`, where `x` is a 1D vector."""
    rows, cols = self.shape
    assert other.shape == (cols,), "Inner product only supported for 1D vectors!"
    return jax.ops.segment_sum(
        self.values * other[self.coords.cols],
        self.coords.rows,
        num_segments=rows,
    )
'''), (COO, "from jax import numpy as jnp\n", "import jax\nfrom jax import numpy as jnp\n"))

R("cg: diagonal by segment sum", (LIN, '''        ATA_diagonals = jnp.zeros_like(initial_x).at[A.coords.cols].add(A.values**2)
''', '''        ATA_diagonals = jax.ops.segment_sum(
            jnp.square(A.values), A.coords.cols, num_segments=ATb.shape[0]
        )
'''))

R("gaussian: triangular solve for inverse", (GAUSS, '''            sqrt_precision_matrix=jnp.linalg.inv(jnp.linalg.cholesky(covariance))
''', '''            sqrt_precision_matrix=jax.scipy.linalg.solve_triangular(
                jnp.linalg.cholesky(covariance),
                jnp.eye(covariance.shape[0]),
                lower=True,
            )
'''), (GAUSS, "from jax import numpy as jnp\n", "import jax\nfrom jax import numpy as jnp\n"))

R("covariance: ix_ and comprehension", D(COV, "SparseCovariance._compute_marginal", '''
def _compute_marginal(self, indices: Sequence[int]) -> onp.ndarray:
    """Compute marginal covariance using a set of indices."""
    return onp.array([[self[i, j] for j in indices] for i in indices])
'''))

R("covariance: itertools product", D(COV, "SparseCovariance._compute_marginal", '''
def _compute_marginal(self, indices: Sequence[int]) -> onp.ndarray:
    """Compute marginal covariance using a set of indices."""
    marginal = onp.zeros((len(indices), len(indices)))
    for (i, row), (j, col) in itertools.product(enumerate(indices), repeat=2):
        marginal[i, j] = self[row, col]
    return marginal
'''), (COV, "import dataclasses\n", "import dataclasses\nimport itertools\n"))

R("covariance: sum by generator", D(COV, "SparseCovariance._sum_over_col", '''
def _sum_over_col(self, col: int, col_l: int) -> float:
    column: scipy.sparse.csc_matrix = self.L.getcol(col)
    return sum(
        (
            val * self[row, col_l]
            for row, val in zip(column.indices, column.data)
            if row != col
        ),
        0.0,
    )
'''))

R("huber: minimum weight", D(HUBER, "HuberWrapper.whiten_residual_vector", '''
@overrides
def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
    whitened = self.wrapped.whiten_residual_vector(residual_vector)
    norm = jnp.linalg.norm(whitened)
    weight = jnp.where(norm < self.delta, 1.0, jnp.sqrt(self.delta / norm))
    return weight * whitened
'''))

R("fixed: fori loop when rolled", (FX, '''            state = jax.lax.while_loop(
                cond_fun=lambda state: jnp.logical_not(state.done),
                body_fun=functools.partial(self._step, graph),
                init_val=state,
            )
''', '''            step = functools.partial(self._step, graph)

            def not_done(current):
                return jnp.logical_not(current.done)

            state = jax.lax.while_loop(not_done, step, state)
'''))

R("factor: jacobians by closure over retraction leaves", D(FACTOR, "FactorBase.compute_residual_jacobians", '''
def compute_residual_jacobians(
    self, variable_values: VariableValueTuple
) -> Tuple[jnp.ndarray, ...]:
    """Compute Jacobian of residual with respect to local parameterization."""
    assert len(self.variables) == len(variable_values)
    residual_dim = self.get_residual_dim()
    residual_wrt_values = jax.jacfwd(self.compute_residual_vector)(variable_values)

    jacobians = []
    for variable, value, residual_wrt_value in zip(
        self.variables, variable_values, residual_wrt_values
    ):
        local_dim = variable.get_local_parameter_dim()
        left = jnp.hstack(
            [leaf.reshape((residual_dim, -1)) for leaf in jax.tree_leaves(residual_wrt_value)]
        )
        right = jnp.vstack(
            [
                leaf.reshape((-1, local_dim))
                for leaf in jax.tree_leaves(variable.manifold_retract_jacobian(value))
            ]
        )
        jacobians.append(left @ right)
    return tuple(jacobians)
'''))

R("layout: counter and generator of blocks", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    def dim_of(variable_type: Type[VariableBase]) -> int:
        if local:
            return variable_type.get_local_parameter_dim()
        return variable_type.get_parameter_dim()

    given = list(variables)
    counts = collections.Counter(map(type, given))
    starts: Dict[Type[VariableBase], int] = {}
    total = 0
    for variable_type, count in counts.items():
        starts[variable_type] = total
        total += count * dim_of(variable_type)

    def blocks():
        for variable_type, start in starts.items():
            members = (v for v in given if type(v) is variable_type)
            for k, variable in enumerate(members):
                yield variable, start + k * dim_of(variable_type)

    return StorageLayout(
        local_flag=local,
        dim=total,
        index_from_variable=frozendict(blocks()),
        index_from_variable_type=frozendict(starts),
        count_from_variable_type=frozendict(counts),
    )
'''), (LAYOUT, "import dataclasses\n", "import collections\nimport dataclasses\n"))

R("assignments: partial dict via merged mapping", D(ASSIGN, "VariableAssignments.make_from_partial_dict", '''
@staticmethod
def make_from_partial_dict(
    variables: Iterable[VariableBase],
    assignments: Dict[VariableBase, hints.VariableValue],
) -> "VariableAssignments":
    """Create an assignment object from a variables and assignments."""
    given = assignments if assignments is not None else {}
    layout = StorageLayout.make(variables, local=False)

    pieces = []
    for variable in layout.get_variables():
        try:
            value = given[variable]
        except KeyError:
            value = variable.get_default_value()
        pieces.append(variable.flatten(value))

    storage = jnp.concatenate(pieces)
    if storage.shape != (layout.dim,):
        raise AssertionError
    return VariableAssignments(storage, layout)
'''))

R("assignments: layout change by gather of blocks", D(ASSIGN, "VariableAssignments.update_storage_layout", '''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Returns a new assignments object with an updated storage layout."""
    source = self.storage_layout
    if source == storage_layout:
        return self
    for left, right in (
        (source.dim, storage_layout.dim),
        (source.local_flag, storage_layout.local_flag),
        (set(source.get_variables()), set(storage_layout.get_variables())),
    ):
        assert left == right

    def block(variable: VariableBase) -> jnp.ndarray:
        start = source.index_from_variable[variable]
        size = (
            variable.get_local_parameter_dim()
            if source.local_flag
            else variable.get_parameter_dim()
        )
        return self.storage[start : start + size]

    return VariableAssignments(
        storage=jnp.concatenate([block(v) for v in storage_layout.get_variables()]),
        storage_layout=storage_layout,
    )
'''))

R("graph make: grouping with operator and yield", D(GRAPH, "StackedFactorGraph.make", '''
@staticmethod
def make(
    factors: Iterable[FactorBase],
    use_onp: bool = True,
) -> "StackedFactorGraph":
    """Create a factor graph from a set of factors."""
    def key_of(factor: FactorBase) -> GroupKey:
        shapes = (getattr(leaf, "shape", ()) for leaf in jax.tree_leaves(factor))
        return jax.tree_structure(factor.anonymize_variables()), tuple(shapes)

    groups: Dict[GroupKey, List[FactorBase]] = {}
    seen: Dict[VariableBase, None] = {}
    for factor in factors:
        groups.setdefault(key_of(factor), []).append(factor)
        seen.update(dict.fromkeys(factor.variables))

    layouts = {flag: StorageLayout.make(list(seen), local=flag) for flag in (False, True)}

    stacks: List[FactorStack] = []
    coords: List[sparse.SparseCooCoordinates] = []
    rows = 0
    for members in groups.values():
        stack = FactorStack.make(members, layouts[False], use_onp=use_onp)
        coords += FactorStack.compute_jacobian_coords(
            factors=members, local_storage_layout=layouts[True], row_offset=rows
        )
        rows += stack.get_residual_dim()
        stacks.append(stack)

    return StackedFactorGraph(
        factor_stacks=stacks,
        jacobian_coords=sparse.SparseCooCoordinates(
            rows=onp.concatenate([c.rows for c in coords]),
            cols=onp.concatenate([c.cols for c in coords]),
        ),
        storage_layout=layouts[False],
        local_storage_layout=layouts[True],
        residual_dim=rows,
    )
'''))

R("gauss newton: replace on previous state", (GN, '''        return NonlinearSolverState(
            iterations=state_prev.iterations + 1,
            assignments=assignments,
            cost=cost,
            residual_vector=residual_vector,
            done=done,
        )
''', '''        return jdc.replace(
            state_prev,
            iterations=state_prev.iterations + 1,
            assignments=assignments,
            cost=cost,
            residual_vector=residual_vector,
            done=done,
        )
'''))

R("gauss newton: copy and mutate state", (GN, '''        return NonlinearSolverState(
            iterations=state_prev.iterations + 1,
            assignments=assignments,
            cost=cost,
            residual_vector=residual_vector,
            done=done,
        )
''', '''        with jdc.copy_and_mutate(state_prev, validate=False) as state:
            state.iterations = state_prev.iterations + 1
            state.assignments = assignments
            state.cost = cost
            state.residual_vector = residual_vector
            state.done = done
        return state
'''))

R("lm: select helper through tree map over tuples", (LM, '''        # Get output assignments
        assignments = jdc.replace(
            state_prev.assignments,
            storage=jnp.where(
                accept_flag,
                assignments_proposed.storage,
                state_prev.assignments.storage,
            ),
        )
''', '''        # Keep either everything from the proposal, or everything from before
        proposed = (assignments_proposed.storage, proposed_cost, residual_vector)
        previous = (
            state_prev.assignments.storage,
            state_prev.cost,
            state_prev.residual_vector,
        )
        storage_kept, cost_kept, residual_kept = (
            jnp.where(accept_flag, new, old) for new, old in zip(proposed, previous)
        )
        assignments = jdc.replace(state_prev.assignments, storage=storage_kept)
'''), (LM, '''            cost=jnp.where(
                accept_flag, proposed_cost, state_prev.cost
            ),  # Use old cost if update is rejected
            residual_vector=jnp.where(
                accept_flag, residual_vector, state_prev.residual_vector
            ),  # Use old residual if update is rejected
''', '''            cost=cost_kept,
            residual_vector=residual_kept,
'''))

R("lm: numerator and denominator of quality named", D(MX, "_TrustRegionMixin.compute_step_quality", '''
def compute_step_quality(
    self,
    A: sparse.SparseCooMatrix,
    proposed_cost: hints.Scalar,
    state_prev: NonlinearSolverState,
    step_vector: jnp.ndarray,
) -> hints.Scalar:
    """Compute step quality ratio."""
    predicted_residual = state_prev.residual_vector + A @ step_vector
    actual_decrease = state_prev.cost - proposed_cost
    predicted_decrease = state_prev.cost - jnp.dot(predicted_residual, predicted_residual)
    return actual_decrease / predicted_decrease
'''))

R("solve: generator based printing", (NB, '''        self._hcb_print(
            lambda i, cost: f"Terminated @ iteration #{i}: cost={str(cost).ljust(15)}",
            i=state.iterations,
            cost=state.cost,
        )

        # Return''', '''        if self.verbose:
            self._report_termination(state)

        # Return'''), (NB, '''    def _hcb_print(
''', '''    def _report_termination(self, state: NonlinearSolverStateType) -> None:
        """Print the iteration count and cost that we ended with."""

        def message(i, cost):
            return f"Terminated @ iteration #{i}: cost={str(cost).ljust(15)}"

        self._hcb_print(message, i=state.iterations, cost=state.cost)

    def _hcb_print(
'''))

R("cholmod: exception based cache", (LIN, '''        if cache_key not in _cholmod_analyze_cache:
            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)

        # Factorize and solve
        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
            A_T_scipy,
            beta=args.lambd
            + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
        )
        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)
''', '''        try:
            factor = _cholmod_analyze_cache[cache_key]
        except KeyError:
            factor = sksparse.cholmod.analyze_AAt(A_T_scipy)
            _cholmod_analyze_cache[cache_key] = factor

        # Factorize and solve
        damping = args.lambd + 1e-5  # Some simple linear problems blow up without this
        factor.cholesky_AAt_inplace(A_T_scipy, beta=damping)
        return factor.solve_A(args.ATb)
'''))

R("cholmod: setdefault not used, get with none", (LIN, '''        if cache_key not in _cholmod_analyze_cache:
            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)

        # Factorize and solve
        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
            A_T_scipy,
            beta=args.lambd
            + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
        )
        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)
''', '''        factor = _cholmod_analyze_cache.get(cache_key)
        if factor is None:
            _cholmod_analyze_cache[cache_key] = factor = sksparse.cholmod.analyze_AAt(
                A_T_scipy
            )
        factor.cholesky_AAt_inplace(A_T_scipy, beta=args.lambd + 1e-5)
        return factor.solve_A(args.ATb)
'''))

R("variables: vector class by type call table", (VARS, '''        class _RealVectorVariable(VariableBase[hints.Array]):
            @classmethod
            @overrides
            @final
            def get_default_value(cls) -> hints.Array:
                return jnp.zeros(dim)

        return _RealVectorVariable
''', '''        return _make_real_vector_variable(dim)
'''), (VARS, '''# Fake templating''', '''def _make_real_vector_variable(dim: int) -> Type[VariableBase]:
    class _RealVectorVariable(VariableBase[hints.Array]):
        @classmethod
        @overrides
        @final
        def get_default_value(cls) -> hints.Array:
            return jnp.zeros((dim,))

    return _RealVectorVariable


# Fake templating'''))

R("factor: match statement for hints", D(FACTOR, "FactorBase.build_variable_value_tuple", '''
@final
def build_variable_value_tuple(
    self, variable_values: Tuple[hints.VariableValue, ...]
) -> VariableValueTuple:
    """Prepares and validates a raw tuple of variable values."""
    assert isinstance(variable_values, tuple)

    annotations = get_type_hints(self.compute_residual_vector)
    if "variable_values" not in annotations:
        raise NotImplementedError(
            f"Missing type hints for {type(self).__name__}.compute_residual_vector"
        )
    value_type = annotations["variable_values"]

    # Named tuples are plain classes, `Tuple[...]` annotations are not.
    named = type(value_type) is type
    expected = (
        tuple(get_type_hints(value_type).values()) if named else get_args(value_type)
    )
    output = value_type(*variable_values) if named else variable_values

    if len(expected) == 2 and expected[1] is Ellipsis:
        expected = (expected[0],) * len(variable_values)

    if len(expected) != len(variable_values):
        raise AssertionError("Wrong number of variable values")
    for position in range(len(expected)):
        assert isinstance(variable_values[position], expected[position]), (
            f"Variable value type hint inconsistency at position {position}"
        )
    return cast(VariableValueTuple, output)
'''))

R("covariance: cached lookup split with walrus", D(COV, "SparseCovariance.__getitem__", '''
def __getitem__(self, indices: Tuple[int, int]) -> float:
    """Get a single value in our sparse covariance matrix."""
    row, col = sorted(indices)
    key = (row, col)
    if (cached := self._value_cache.get(key)) is not None:
        return cached

    scale = self.L_diag_inv[row]
    total = self._sum_over_col(row, col)
    value: float = scale * (scale - total) if row == col else -scale * total
    self._value_cache[key] = value
    return value
'''))

R("covariance: marginal index list by comprehension", D(COV, "SparseCovariance.compute_marginal", '''
def compute_marginal(self, *variables: core.VariableBase) -> onp.ndarray:
    """Compute marginal covariance for a set of variables. Input order matters."""
    layout = self.local_storage_layout
    return self._compute_marginal(
        [
            layout.index_from_variable[v] + offset
            for v in variables
            for offset in range(v.get_local_parameter_dim())
        ]
    )
'''))

R("covariance: dense through solve", D(COV, "SparseCovariance.as_dense", '''
def as_dense(self, use_inverse: bool = True) -> onp.ndarray:
    """Return the full covariance as a dense array."""
    if not use_inverse:
        return self._compute_marginal(range(self.local_storage_layout.dim))
    inverse = onp.linalg.inv(self.L.toarray())
    return inverse.transpose() @ inverse
'''))

R("g2o: shared precision helper and enum-like constants", (G2O, '''def parse_g2o(''', '''def _sqrt_precision_from_upper(components, dim: int) -> onp.ndarray:
    """Upper-triangular root of an information matrix given by its upper triangle."""
    precision = onp.zeros((dim, dim))
    rows, cols = onp.triu_indices(dim)
    precision[rows, cols] = components
    precision[cols, rows] = components
    return onp.linalg.cholesky(precision).T


def parse_g2o('''), (G2O, '''            precision_matrix_components = onp.array(list(map(float, parts[6:])))
            precision_matrix = onp.zeros((3, 3))
            precision_matrix[onp.triu_indices(3)] = precision_matrix_components
            precision_matrix = precision_matrix.T
            precision_matrix[onp.triu_indices(3)] = precision_matrix_components
            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T
''', '''            sqrt_precision_matrix = _sqrt_precision_from_upper(
                [float(p) for p in parts[6:]], dim=3
            )
'''), (G2O, '''            precision_matrix = onp.zeros((6, 6))
            precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]
            precision_matrix = precision_matrix.T
            precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]
            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T
''', '''            sqrt_precision_matrix = _sqrt_precision_from_upper(
                numerical_parts[7:], dim=6
            )
'''))

R("fixed: result through helper and ternary", (FX, '''        if self.unroll:
            for i in range(self.iterations):
                state = self._step(graph, state)
        else:
            state = jax.lax.while_loop(
                cond_fun=lambda state: jnp.logical_not(state.done),
                body_fun=functools.partial(self._step, graph),
                init_val=state,
            )
''', '''        run = self._run_unrolled if self.unroll else self._run_loop
        state = run(graph, state)
'''), (FX, '''    @jax.jit
    @overrides
    def solve(''', '''    def _run_unrolled(
        self, graph: "StackedFactorGraph", state: NonlinearSolverState
    ) -> NonlinearSolverState:
        for _ in range(self.iterations):
            state = self._step(graph, state)
        return state

    def _run_loop(
        self, graph: "StackedFactorGraph", state: NonlinearSolverState
    ) -> NonlinearSolverState:
        return jax.lax.while_loop(
            cond_fun=lambda s: ~jnp.asarray(s.done),
            body_fun=lambda s: self._step(graph, s),
            init_val=state,
        )

    @jax.jit
    @overrides
    def solve('''))
R("fixed: reduce for unrolling", (FX, '''            for i in range(self.iterations):
                state = self._step(graph, state)
''', '''            state = functools.reduce(
                lambda s, _: self._step(graph, s), range(self.iterations), state
            )
'''))
R("geometry: residual with log", D(GEO, "BetweenFactor.compute_residual_vector", '''
@overrides
def compute_residual_vector(
    self, variable_values: BetweenValueTuple
) -> jnp.ndarray:
    T_world_a, T_world_b = variable_values
    T_b_a = T_world_b.inverse() @ T_world_a
    return (T_b_a @ self.T_a_b).log()
'''))
R("lie: retraction spelled out", D(LIE, "LieVariableBase.manifold_retract", '''
@classmethod
@final
@overrides
def manifold_retract(cls, x: T, local_delta: hints.LocalVariableValue) -> T:
    delta = cls.get_group_type().exp(local_delta)
    return x @ delta
'''))
R("noise: scaling through matmul operator and newaxis", D(GAUSS, "Gaussian.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,  # Unused
) -> hints.Array:
    del residual_vector
    return jnp.matmul(self.sqrt_precision_matrix, jacobian)
'''), D(GAUSS, "DiagonalGaussian.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,  # Unused
) -> hints.Array:
    (dim,) = self.sqrt_precision_diagonal.shape
    assert jacobian.ndim == 2
    assert jacobian.shape[0] == dim
    assert residual_vector.shape == (dim,)
    return jnp.expand_dims(self.sqrt_precision_diagonal, axis=1) * jacobian
'''))

R("g2o: tag split off first",(G2O,'''        parts = [part for part in line.split(" ") if part != ""]
''','''        tag, rest = line.split(maxsplit=1)
        parts = [tag] + rest.split()
'''))
R("g2o: tag split off with partition",(G2O,'''        parts = [part for part in line.split(" ") if part != ""]
''','''        tag, _, rest = line.partition(" ")
        parts = [tag, *rest.split()]
'''))
R("g2o: first and rest",(G2O,'''        parts = [part for part in line.split(" ") if part != ""]
''','''        tag, *fields = line.split()
        parts = [tag, *fields]
'''))


R("graph: residual slices as a generator", D(GRAPH, "StackedFactorGraph.compute_whitened_residual_jacobian", '''
@jdc.jit
def compute_whitened_residual_jacobian(
    self,
    assignments: VariableAssignments,
    residual_vector: hints.Array,
) -> sparse.SparseCooMatrix:
    """Compute the Jacobian of a graph's residual vector."""
    assignments = assignments.update_storage_layout(self.storage_layout)

    values: List[jnp.ndarray] = []
    consumed = 0
    for stack in self.factor_stacks:
        total = stack.get_residual_dim()
        block = residual_vector[consumed : consumed + total]
        values.extend(self._whitened_jacobian_values(stack, assignments, block))
        consumed += total
    assert consumed == self.residual_dim and consumed > 0

    return sparse.SparseCooMatrix(
        values=jnp.concatenate(values),
        coords=self.jacobian_coords,
        shape=(self.residual_dim, self.local_storage_layout.dim),
    )

@staticmethod
def _whitened_jacobian_values(stack, assignments, residual_block):
    """Flattened, whitened Jacobian blocks of one stack, one per variable."""
    noise_model = stack.factor.noise_model
    per_factor = residual_block.reshape((stack.num_factors, -1))
    whiten = jax.vmap(type(noise_model).whiten_jacobian)
    return [
        whiten(noise_model, jacobian, per_factor).ravel()
        for jacobian in stack.compute_residual_jacobian(assignments)
    ]
'''))

R("stack: values gathered by a shared method", D(STACK, "FactorStack.compute_residual_vector", '''
def compute_residual_vector(self, assignments: VariableAssignments) -> jnp.ndarray:
    """Compute stacked residual vectors."""
    return self._map_over_factors(
        type(self.factor).compute_residual_vector, assignments
    )
'''), D(STACK, "FactorStack.compute_residual_jacobian", '''
def compute_residual_jacobian(
    self,
    assignments: VariableAssignments,
) -> Tuple[jnp.ndarray, ...]:
    """Compute stacked Jacobian matrices, one for each variable."""
    return self._map_over_factors(
        type(self.factor).compute_residual_jacobians, assignments
    )

def _map_over_factors(self, method, assignments: VariableAssignments):
    """Evaluate a method of the factor on every row of the stack."""
    assert assignments.storage_layout == self.storage_layout
    values = []
    for variable, indices in zip(self.factor.variables, self.value_indices):
        flat = jnp.asarray(assignments.storage)[indices]
        values.append(jax.vmap(type(variable).unflatten)(flat))
    value_tuple = self.factor.build_variable_value_tuple(tuple(values))
    return jax.vmap(method)(self.factor, value_tuple)
'''))

R("stack: coords by meshgrid-like broadcasting", D(STACK, "FactorStack.compute_jacobian_coords", '''
@staticmethod
def compute_jacobian_coords(
    factors: Sequence[FactorType],
    local_storage_layout: StorageLayout,
    row_offset: int,
) -> List[sparse.SparseCooCoordinates]:
    """Computes Jacobian coordinates for a factor stack."""
    n = len(factors)
    residual_dim = factors[0].get_residual_dim()
    rows = (row_offset + onp.arange(n * residual_dim)).reshape((n, residual_dim, 1))

    out: List[sparse.SparseCooCoordinates] = []
    for position in range(len(factors[0].variables)):
        local_dim = type(factors[0].variables[position]).get_local_parameter_dim()
        starts = onp.asarray(
            [
                local_storage_layout.index_from_variable[factor.variables[position]]
                for factor in factors
            ]
        )
        cols = starts[:, None, None] + onp.arange(local_dim)[None, None, :]
        rows_b, cols_b = onp.broadcast_arrays(rows, cols)
        out.append(
            sparse.SparseCooCoordinates(rows=rows_b.ravel(), cols=cols_b.ravel())
        )
    return out
'''))

R("graph: two dictionaries for grouping", D(GRAPH, "StackedFactorGraph.make", '''
@staticmethod
def make(
    factors: Iterable[FactorBase],
    use_onp: bool = True,
) -> "StackedFactorGraph":
    """Create a factor graph from a set of factors."""
    factors = list(factors)
    variables = list(dict.fromkeys(v for factor in factors for v in factor.variables))
    storage_layout, local_storage_layout = (
        StorageLayout.make(variables, local=local) for local in (False, True)
    )

    groups: Dict[GroupKey, List[FactorBase]] = {}
    for factor in factors:
        treedef = jax.tree_structure(factor.anonymize_variables())
        shapes = tuple(getattr(leaf, "shape", ()) for leaf in jax.tree_leaves(factor))
        groups.setdefault((treedef, shapes), []).append(factor)

    stacks = [
        FactorStack.make(group, storage_layout, use_onp=use_onp)
        for group in groups.values()
    ]
    offsets = [0]
    for stack in stacks:
        offsets.append(offsets[-1] + stack.get_residual_dim())

    coords = []
    for group, offset in zip(groups.values(), offsets):
        coords.extend(
            FactorStack.compute_jacobian_coords(group, local_storage_layout, offset)
        )

    return StackedFactorGraph(
        factor_stacks=stacks,
        jacobian_coords=sparse.SparseCooCoordinates(
            rows=onp.concatenate([c.rows for c in coords]),
            cols=onp.concatenate([c.cols for c in coords]),
        ),
        storage_layout=storage_layout,
        local_storage_layout=local_storage_layout,
        residual_dim=offsets[-1],
    )
'''))

R("termination: one method per test", D(MX, "_TerminationCriteriaMixin.check_convergence", '''
@jax.jit
def check_convergence(
    self,
    state_prev: NonlinearSolverState,
    cost_updated: hints.Scalar,
    local_delta_assignments: VariableAssignments,
    negative_gradient: hints.Array,
) -> jax.Array:
    """Check for convergence!"""
    return functools.reduce(
        jnp.logical_or,
        (
            self._cost_converged(state_prev, cost_updated),
            self._gradient_converged(
                state_prev,
                jdc.replace(local_delta_assignments, storage=negative_gradient),
            ),
            self._parameters_converged(state_prev, local_delta_assignments),
        ),
    )

def _cost_converged(self, state_prev, cost_updated):
    change = jnp.abs(state_prev.cost - cost_updated)
    return change / state_prev.cost < self.cost_tolerance

def _gradient_converged(self, state_prev, gradient_step):
    before = state_prev.assignments
    after = before.manifold_retract(gradient_step)
    largest = jnp.max(jnp.abs(after.storage - before.storage))
    started = state_prev.iterations >= self.gradient_tolerance_start_step
    return jnp.logical_and(started, largest < self.gradient_tolerance)

def _parameters_converged(self, state_prev, step):
    size = jnp.linalg.norm(state_prev.assignments.storage)
    limit = self.parameter_tolerance * (size + self.parameter_tolerance)
    return jnp.linalg.norm(step.storage) < limit
'''), (MX, "import jax\n", "import functools\n\nimport jax\n"))

R("dogleg: step broken into helpers", (DL, '''        def compute_dogleg_step() -> jnp.ndarray:
''', '''        def cauchy_point() -> jnp.ndarray:
            along = A @ ATb
            return jnp.dot(ATb, ATb) / jnp.dot(along, along) * ATb

        def blend(a: jnp.ndarray, b: jnp.ndarray, radius: hints.Scalar) -> jnp.ndarray:
            """Point between `a` (inside) and `b` (outside) that is on the boundary."""
            direction = b - a
            c = jnp.dot(a, direction)
            room = radius**2 - jnp.dot(a, a)
            length_sq = jnp.dot(direction, direction)
            root = jnp.sqrt(c**2 + length_sq * room)
            beta = jnp.where(c <= 0, (root - c) / length_sq, room / (c + root))
            return a + beta * direction

        def compute_dogleg_step() -> jnp.ndarray:
'''), (DL, '''            # Steepest descent step
            step_vector_sd: jnp.ndarray = ATb

            # Blending parameters
            # Reference:
            # > METHODS FOR NON-LINEAR LEAST SQUARES PROBLEM, Madsen et al 2004.
            # > pg. 30~32
            alpha = jnp.sum(step_vector_sd**2) / jnp.sum((A @ step_vector_sd) ** 2)
            a = alpha * step_vector_sd
            b = step_vector_gn

            c = jnp.sum(a * (b - a))
            a_norm_sq = jnp.sum(a**2)
            b_minus_a_norm_sq = jnp.sum((b - a) ** 2)
            radius_sq = state_prev.radius**2
            radius_sq_minus_a_norm_sq = radius_sq - a_norm_sq
            sqrt_c_sq_plus = jnp.sqrt(
                c**2 + b_minus_a_norm_sq * radius_sq_minus_a_norm_sq
            )
            beta = jnp.where(
                c <= 0,
                (-c + sqrt_c_sq_plus) / b_minus_a_norm_sq,
                radius_sq_minus_a_norm_sq / (c + sqrt_c_sq_plus),
            )
''', '''            a = cauchy_point()
'''), (DL, "a + beta * (step_vector_gn - a),", "blend(a, step_vector_gn, state_prev.radius),"))

R("dogleg: radius by nested conditionals on factors", (DL, '''        radius = jnp.where(
            step_quality < 0.25,
            state_prev.radius / 2.0,
            jnp.where(
                step_quality > 0.75,
                jnp.max(
                    jnp.array([state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)])
                ),
                state_prev.radius,
            ),
        )
''', '''        shrink, grow = step_quality < 0.25, step_quality > 0.75
        wider = jnp.maximum(state_prev.radius, 3.0 * jnp.linalg.norm(step_vector))
        radius = state_prev.radius
        radius = jnp.where(grow, wider, radius)
        radius = jnp.where(shrink, 0.5 * state_prev.radius, radius)
'''))

R("gn: linearise helper in the base", (NB, '''    # Shared.

''', '''    # Shared.

    def _linearize(self, graph: "StackedFactorGraph", state: NonlinearSolverState):
        """Jacobian and negative gradient at the current iterate."""
        A = graph.compute_whitened_residual_jacobian(
            state.assignments, state.residual_vector
        )
        return A, -(A.T @ state.residual_vector)

    def _solve_linear(self, graph, state, A, ATb, damping=0.0) -> VariableAssignments:
        """Solve the damped subproblem, as a delta in the graph's local layout."""
        step = self.linear_solver.solve_subproblem(
            A, ATb, damping, state.iterations
        )
        return VariableAssignments(step, graph.local_storage_layout)

'''), (GN, '''        A: sparse.SparseCooMatrix = graph.compute_whitened_residual_jacobian(
            assignments=state_prev.assignments,
            residual_vector=state_prev.residual_vector,
        )
        ATb = -(A.T @ state_prev.residual_vector)

        # Solve linear subproblem
        local_delta_assignments = VariableAssignments(
            storage=self.linear_solver.solve_subproblem(
                A=A,
                ATb=ATb,
                lambd=0.0,
                iteration=state_prev.iterations,
            ),
            storage_layout=graph.local_storage_layout,
        )
''', '''        A, ATb = self._linearize(graph, state_prev)
        local_delta_assignments = self._solve_linear(graph, state_prev, A, ATb)
'''), (FX, '''        A: sparse.SparseCooMatrix = graph.compute_whitened_residual_jacobian(
            assignments=state_prev.assignments,
            residual_vector=state_prev.residual_vector,
        )
        ATb = -(A.T @ state_prev.residual_vector)

        # Solve linear subproblem
        local_delta_assignments = VariableAssignments(
            storage=self.linear_solver.solve_subproblem(
                A=A,
                ATb=ATb,
                lambd=0.0,
                iteration=state_prev.iterations,
            ),
            storage_layout=graph.local_storage_layout,
        )
''', '''        A, ATb = self._linearize(graph, state_prev)
        local_delta_assignments = self._solve_linear(graph, state_prev, A, ATb)
'''))

R("fixed: shares gauss newton start", D(FX, "FixedIterationGaussNewtonSolver._initialize_state", '''
@overrides
def _initialize_state(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> NonlinearSolverState:
    return make_initial_state(graph, initial_assignments)
'''), D(GN, "GaussNewtonSolver._initialize_state", '''
@overrides
def _initialize_state(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> NonlinearSolverState:
    return make_initial_state(graph, initial_assignments)
'''), (NB, '''NonlinearSolverStateType = TypeVar(''', '''def make_initial_state(
    graph: "StackedFactorGraph", assignments: VariableAssignments
) -> NonlinearSolverState:
    """State before the first iteration."""
    cost, residual_vector = graph.compute_cost(assignments)
    return NonlinearSolverState(0, assignments, cost, residual_vector, False)


NonlinearSolverStateType = TypeVar('''), (FX, "from ._nonlinear_solver_base import NonlinearSolverBase, NonlinearSolverState", "from ._nonlinear_solver_base import (\n    NonlinearSolverBase,\n    NonlinearSolverState,\n    make_initial_state,\n)"), (GN, "from ._nonlinear_solver_base import NonlinearSolverBase, NonlinearSolverState", "from ._nonlinear_solver_base import (\n    NonlinearSolverBase,\n    NonlinearSolverState,\n    make_initial_state,\n)"))

R("cholmod: pattern key helper", (LIN, '''        cache_key = (
            object.__hash__(self),
            A_T_scipy.shape,
            A_T_scipy.indptr.tobytes(),
            A_T_scipy.indices.tobytes(),
        )
        if cache_key not in _cholmod_analyze_cache:
            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)

        # Factorize and solve
        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
            A_T_scipy,
            beta=args.lambd
            + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
        )
        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)
''', '''        factor = _symbolic_factor(A_T_scipy)

        # Some simple linear problems blow up without this 1e-5 term
        factor.cholesky_AAt_inplace(A_T_scipy, beta=args.lambd + 1e-5)
        return factor.solve_A(args.ATb)
'''), (LIN, '''@jdc.pytree_dataclass
class CholmodSolver''', '''def _symbolic_factor(matrix: scipy.sparse.csc_matrix) -> sksparse.cholmod.Factor:
    """Symbolic analysis of a sparsity pattern, cached."""
    pattern = (matrix.shape, matrix.indptr.tobytes(), matrix.indices.tobytes())
    if pattern not in _cholmod_analyze_cache:
        _cholmod_analyze_cache[pattern] = sksparse.cholmod.analyze_AAt(matrix)
    return _cholmod_analyze_cache[pattern]


@jdc.pytree_dataclass
class CholmodSolver'''), (LIN, "import sksparse\n", "import scipy\nimport sksparse\n"))

R("coo: transposes and builders", (COO, '''    @property
''', '''    def _scatter(self, base: jnp.ndarray, index, values) -> jnp.ndarray:
        return base.at[index].add(values)

    @property
'''), D(COO, "SparseCooMatrix.as_dense", '''
def as_dense(self) -> jnp.ndarray:
    """Convert to a dense JAX array."""
    index = (self.coords.rows, self.coords.cols)
    return self._scatter(jnp.zeros(self.shape), index, self.values)
'''), D(COO, "SparseCooMatrix.__matmul__", '''
def __matmul__(self, other: hints.Array):
    """Compute `Ax`, where `x` is a 1D vector."""
    height, width = self.shape
    assert other.shape == (width,), "Inner product only supported for 1D vectors!"
    products = jnp.take(other, self.coords.cols) * self.values
    return self._scatter(jnp.zeros((height,), other.dtype), self.coords.rows, products)
'''))

R("huber: weight method", D(HUBER, "HuberWrapper.whiten_residual_vector", '''
@overrides
def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
    whitened = self.wrapped.whiten_residual_vector(residual_vector)
    norm = jnp.linalg.norm(whitened)
    inside = norm < self.delta
    return whitened * jnp.where(inside, 1.0, jnp.sqrt(self.delta / norm))
'''), D(HUBER, "HuberWrapper.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,
) -> hints.Array:
    norm = jnp.linalg.norm(residual_vector)
    weight = jnp.where(norm < self.delta, 1.0, self.delta / norm)
    return weight * self.wrapped.whiten_jacobian(jacobian, residual_vector)
'''))

R("g2o: two passes", D(G2O, "parse_g2o", '''
def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
    """Parse a G2O file. Creates a list of factors and dictionary of initial poses."""

    with open(path) as file:
        lines = [line.strip() for line in file.readlines()]

    pose_variables: List[jaxfg.geometry.LieVariableBase] = []
    initial_poses: Dict[jaxfg.geometry.LieVariableBase, jaxlie.MatrixLieGroup] = {}
    factors: List[jaxfg.core.FactorBase] = []

    def add_vertex(variable, index, pose) -> None:
        assert len(initial_poses) == index
        initial_poses[variable] = pose
        pose_variables.append(variable)

    def add_edge(before, after, between, information) -> None:
        factors.append(
            jaxfg.geometry.BetweenFactor.make(
                variable_T_world_a=pose_variables[before],
                variable_T_world_b=pose_variables[after],
                T_a_b=between,
                noise_model=jaxfg.noises.Gaussian(
                    sqrt_precision_matrix=onp.linalg.cholesky(information).T
                ),
            )
        )

    def symmetric(components, dim) -> onp.ndarray:
        upper = onp.zeros((dim, dim))
        upper[onp.triu_indices(dim)] = components
        return upper + upper.T - onp.diag(onp.diag(upper))

    for line in tqdm(lines):
        parts = [part for part in line.split(" ") if part != ""]
        kind = parts[0]

        if kind == "VERTEX_SE2":
            if len(pose_variables) > pose_count_limit:
                continue
            x, y, theta = map(float, parts[2:])
            add_vertex(
                jaxfg.geometry.SE2Variable(),
                int(parts[1]),
                jaxlie.SE2.from_xy_theta(x, y, theta),
            )
        elif kind == "EDGE_SE2":
            before, after = int(parts[1]), int(parts[2])
            if max(before, after) > pose_count_limit:
                continue
            numbers = onp.array([float(p) for p in parts[3:]])
            add_edge(
                before,
                after,
                jaxlie.SE2.from_xy_theta(*numbers[:3]),
                symmetric(numbers[3:], 3),
            )
        elif kind == "VERTEX_SE3:QUAT":
            x, y, z, qx, qy, qz, qw = map(float, parts[2:])
            add_vertex(
                jaxfg.geometry.SE3Variable(),
                int(parts[1]),
                jaxlie.SE3(wxyz_xyz=onp.array([qw, qx, qy, qz, x, y, z])),
            )
        elif kind == "EDGE_SE3:QUAT":
            numbers = onp.array([float(p) for p in parts[3:]])
            assert len(numbers) == 28
            add_edge(
                int(parts[1]),
                int(parts[2]),
                jaxlie.SE3.from_rotation_and_translation(
                    rotation=jaxlie.SO3.from_quaternion_xyzw(numbers[3:7]),
                    translation=numbers[:3],
                ),
                symmetric(numbers[7:], 6),
            )
        else:
            raise AssertionError(f"Unexpected line type: {kind}")

    anchor = pose_variables[0]
    weights = 100.0 * jnp.ones(anchor.get_local_parameter_dim())
    factors.append(
        jaxfg.geometry.PriorFactor.make(
            variable=anchor,
            mu=initial_poses[anchor],
            noise_model=jaxfg.noises.DiagonalGaussian(weights),
        )
    )
    return G2OData(factors=factors, initial_poses=initial_poses)
'''))

R("covariance: precomputed columns", D(COV, "SparseCovariance._sum_over_col", '''
def _sum_over_col(self, col: int, col_l: int) -> float:
    start, stop = self.L.indptr[col], self.L.indptr[col + 1]
    total = 0.0
    for row, value in zip(self.L.indices[start:stop], self.L.data[start:stop]):
        if row == col:
            continue
        total = total + value * self[row, col_l]
    return total
'''))

R("lie: base class factory of group bindings", (LIE, '''        return jaxlie.manifold.rplus(x, local_delta)
''', '''        group = cls.get_group_type()
        return x.multiply(group.exp(local_delta))
'''))
R("between: analytic jacobians through named relative pose", D(GEO, "BetweenFactor.compute_residual_jacobians", '''
@overrides
def compute_residual_jacobians(
    self, variable_values: BetweenValueTuple
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    T_world_a, T_world_b = variable_values
    group = type(T_world_a)
    assert group is type(T_world_b)
    T_b_a = T_world_b.inverse() @ T_world_a
    identity = jnp.eye(group.tangent_dim)
    return T_b_a.adjoint(), -identity
'''))
R("print: formatting by helper", D(NB, "NonlinearSolverBase._hcb_print", '''
def _hcb_print(
    self,
    string_from_args: Callable[..., str],
    *args: hints.Pytree,
    **kwargs: hints.Pytree,
) -> None:
    """Helper for printer optimizer messages via host callbacks."""
    if self.verbose:
        prefix = f"[{type(self).__name__}]"

        def tap(packed, transforms) -> None:
            positional, named = packed
            print(prefix, string_from_args(*positional, **named))

        hcb.id_tap(tap, (args, kwargs))
'''))
R("solve: layouts in variables", D(NB, "NonlinearSolverBase.solve", '''
@jdc.jit
def solve(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> VariableAssignments:
    """Run MAP inference on a factor graph."""
    original_layout = initial_assignments.storage_layout
    state = self._initialize_state(
        graph, initial_assignments.update_storage_layout(graph.storage_layout)
    )

    def running(state):
        return jnp.logical_not(state.done)

    def advance(state):
        return self._step(graph, state)

    state = jax.lax.while_loop(running, advance, state)

    def summary(i, cost):
        return f"Terminated @ iteration #{i}: cost={str(cost).ljust(15)}"

    self._hcb_print(summary, i=state.iterations, cost=state.cost)
    return state.assignments.update_storage_layout(original_layout)
'''))
