"""Functions written anew in other ways: layouts, assignments, stacks and graphs."""

from cases import R
from refactorings import ASSIGN, COO, COV, D, DL, FACTOR, FX, GAUSS, GEO, GN, GRAPH, HUBER, LAYOUT, LIE, LIN, LM, MX, NB, STACK, VARS

G2O = "scripts/_g2o_utils.py"

HEAD='''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    variables = list(variables)
    types = list(dict.fromkeys(type(v) for v in variables))
    dims = {t: t.get_local_parameter_dim() if local else t.get_parameter_dim() for t in types}
    index_from_variable = {}
    index_from_variable_type = {}
    counts = {}
    offset = 0
'''
TAIL='''
    return StorageLayout(
        local_flag=local,
        dim=offset,
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(index_from_variable_type),
        count_from_variable_type=frozendict(counts),
    )
'''
R("layout: filter by type is, enumerate", D(LAYOUT,"StorageLayout.make",HEAD+'''    for t in types:
        members = [v for v in variables if type(v) is t]
        index_from_variable_type[t] = offset
        counts[t] = len(members)
        for k, v in enumerate(members):
            index_from_variable[v] = offset + k * dims[t]
        offset += dims[t] * len(members)
'''+TAIL))
R("layout: filter by type ==, running", D(LAYOUT,"StorageLayout.make",HEAD+'''    for t in types:
        members = [v for v in variables if type(v) == t]
        index_from_variable_type[t] = offset
        counts[t] = len(members)
        for v in members:
            index_from_variable[v] = offset
            offset += dims[t]
'''+TAIL))
R("layout: inner loop with test, running", D(LAYOUT,"StorageLayout.make",HEAD+'''    for t in types:
        index_from_variable_type[t] = offset
        counts[t] = 0
        for v in variables:
            if type(v) is t:
                index_from_variable[v] = offset
                offset += dims[t]
                counts[t] += 1
'''+TAIL))
R("layout: inner loop with continue", D(LAYOUT,"StorageLayout.make",HEAD+'''    for t in types:
        index_from_variable_type[t] = offset
        count = 0
        for v in variables:
            if type(v) is not t:
                continue
            index_from_variable[v] = offset + count * dims[t]
            count += 1
        counts[t] = count
        offset += count * dims[t]
'''+TAIL))
R("layout: stable sort by type position", D(LAYOUT,"StorageLayout.make",HEAD+'''    ordered = sorted(variables, key=lambda v: types.index(type(v)))
    for v in ordered:
        t = type(v)
        if t not in index_from_variable_type:
            index_from_variable_type[t] = offset
            counts[t] = 0
        index_from_variable[v] = offset
        counts[t] += 1
        offset += dims[t]
'''+TAIL))
R("layout: Counter of types", D(LAYOUT,"StorageLayout.make",HEAD+'''    counts = {t: sum(type(v) is t for v in variables) for t in types}
    for t in types:
        index_from_variable_type[t] = offset
        offset += counts[t] * dims[t]
    cursor = dict(index_from_variable_type)
    for v in variables:
        index_from_variable[v] = cursor[type(v)]
        cursor[type(v)] += dims[type(v)]
    index_from_variable = dict(sorted(index_from_variable.items(), key=lambda kv: kv[1]))
'''+TAIL))
R("layout: bucket dict comprehension", D(LAYOUT,"StorageLayout.make",HEAD+'''    buckets = {t: [v for v in variables if type(v) is t] for t in types}
    for t, members in buckets.items():
        index_from_variable_type[t] = offset
        counts[t] = len(members)
        for v in members:
            index_from_variable[v] = offset
            offset += dims[t]
'''+TAIL))
R("layout: two passes with starts by type", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    by_type: Dict[Type[VariableBase], List[VariableBase]] = {}
    for v in variables:
        by_type.setdefault(type(v), []).append(v)
    index_from_variable = {}
    index_from_variable_type = {}
    offset = 0
    for variable_type, members in by_type.items():
        dim = variable_type.get_local_parameter_dim() if local else variable_type.get_parameter_dim()
        index_from_variable_type[variable_type] = offset
        for v in members:
            offset += dim
            index_from_variable[v] = offset - dim
    return StorageLayout(
        local_flag=local,
        dim=offset,
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(index_from_variable_type),
        count_from_variable_type=frozendict({k: len(v) for k, v in by_type.items()}),
    )
'''))
R("layout: members' own dims", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    buckets: Dict[Type[VariableBase], List[VariableBase]] = {}
    for variable in variables:
        buckets.setdefault(type(variable), []).append(variable)
    index_from_variable: Dict[VariableBase, int] = {}
    index_from_variable_type: Dict[Type[VariableBase], int] = {}
    storage_index = 0
    for variable_type, members in buckets.items():
        index_from_variable_type[variable_type] = storage_index
        for i, variable in enumerate(members):
            dim = variable.get_local_parameter_dim() if local else variable.get_parameter_dim()
            index_from_variable[variable] = storage_index + i * dim
        storage_index += len(members) * (
            variable_type.get_local_parameter_dim() if local else variable_type.get_parameter_dim()
        )
    return StorageLayout(
        local_flag=local,
        dim=storage_index,
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(index_from_variable_type),
        count_from_variable_type=frozendict({k: len(v) for k, v in buckets.items()}),
    )
'''))
R("defaults: written into a numpy buffer", D(ASSIGN, "VariableAssignments.make_from_defaults", '''
@staticmethod
def make_from_defaults(variables: Iterable[VariableBase]) -> "VariableAssignments":
    """Create an assignment object from the default values corresponding to each variable."""
    storage_layout = StorageLayout.make(variables, local=False)
    storage = onp.zeros(storage_layout.dim)
    for variable, start in storage_layout.index_from_variable.items():
        end = start + variable.get_parameter_dim()
        storage[start:end] = variable.flatten(variable.get_default_value())
    return VariableAssignments(storage=jnp.asarray(storage), storage_layout=storage_layout)
'''), (ASSIGN, "from jax import numpy as jnp\n", "import numpy as onp\nfrom jax import numpy as jnp\n"))
R("partial dict: defaults overwritten", D(ASSIGN, "VariableAssignments.make_from_partial_dict", '''
@staticmethod
def make_from_partial_dict(
    variables: Iterable[VariableBase],
    assignments: Dict[VariableBase, hints.VariableValue],
) -> "VariableAssignments":
    """Create an assignment object from a variables and assignments."""
    storage_layout = StorageLayout.make(variables, local=False)
    pieces = []
    for variable in storage_layout.get_variables():
        value = assignments[variable] if variable in assignments else variable.get_default_value()
        pieces.append(variable.flatten(value))
    return VariableAssignments(storage=jnp.concatenate(pieces, axis=0), storage_layout=storage_layout)
'''))
R("as_dict by stored starts", D(ASSIGN, "VariableAssignments.as_dict", '''
def as_dict(self) -> Dict[VariableBase, hints.VariableValue]:
    """Grab assignments as a variable -> value dictionary."""
    out: Dict[VariableBase, hints.VariableValue] = {}
    for variable, start in self.storage_layout.index_from_variable.items():
        dim = variable.get_parameter_dim()
        out[variable] = type(variable).unflatten(self.storage[start : start + dim])
    return out
'''))
R("set_value by arange scatter", D(ASSIGN, "VariableAssignments.set_value", '''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    index = self.storage_layout.index_from_variable[variable]
    flat = type(variable).flatten(value)
    storage = jnp.asarray(self.storage).at[index + jnp.arange(flat.shape[0])].set(flat)
    return jdc.replace(self, storage=storage)
'''))
R("conversion by index list extended by ranges", D(ASSIGN, "VariableAssignments.update_storage_layout", '''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Change of layout."""
    if self.storage_layout == storage_layout:
        return self
    assert self.storage_layout.dim == storage_layout.dim
    assert self.storage_layout.local_flag == storage_layout.local_flag
    assert set(self.storage_layout.get_variables()) == set(storage_layout.get_variables())
    indices = []
    for variable in storage_layout.get_variables():
        start = self.storage_layout.index_from_variable[variable]
        dim = variable.get_local_parameter_dim() if storage_layout.local_flag else variable.get_parameter_dim()
        indices.extend(range(start, start + dim))
    return VariableAssignments(storage=self.storage[jnp.array(indices)], storage_layout=storage_layout)
'''))
R("conversion by pieces", D(ASSIGN, "VariableAssignments.update_storage_layout", '''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Change of layout."""
    source = self.storage_layout
    if source == storage_layout:
        return self
    assert source.dim == storage_layout.dim
    assert source.local_flag == storage_layout.local_flag
    assert set(source.get_variables()) == set(storage_layout.get_variables())
    pieces = []
    for variable in storage_layout.get_variables():
        start = source.index_from_variable[variable]
        size = variable.get_local_parameter_dim() if source.local_flag else variable.get_parameter_dim()
        pieces.append(self.storage[start : start + size])
    return VariableAssignments(storage=jnp.concatenate(pieces), storage_layout=storage_layout)
'''))
R("retraction by types with closure", D(ASSIGN, "VariableAssignments.manifold_retract", '''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""
    assert not self.storage_layout.local_flag
    assert local_delta_assignments.storage_layout.local_flag
    pieces = []
    local_layout = local_delta_assignments.storage_layout
    for variable_type, start in self.storage_layout.index_from_variable_type.items():
        count = self.storage_layout.count_from_variable_type[variable_type]
        dim, local_dim = variable_type.get_parameter_dim(), variable_type.get_local_parameter_dim()
        values = self.storage[start : start + dim * count].reshape((count, dim))
        local_start = local_layout.index_from_variable_type[variable_type]
        deltas = local_delta_assignments.storage[local_start : local_start + local_dim * count].reshape((count, local_dim))

        def one(flat, delta, variable_type=variable_type):
            return variable_type.flatten(variable_type.manifold_retract(variable_type.unflatten(flat), delta))

        pieces.append(jax.vmap(one)(values, deltas).reshape(-1))
    return jdc.replace(self, storage=jnp.concatenate(pieces))
'''))
R("retraction variable by variable", D(ASSIGN, "VariableAssignments.manifold_retract", '''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""
    assert not self.storage_layout.local_flag
    assert local_delta_assignments.storage_layout.local_flag
    local_layout = local_delta_assignments.storage_layout
    pieces = []
    for variable in self.get_variables():
        start = local_layout.index_from_variable[variable]
        delta = local_delta_assignments.storage[start : start + variable.get_local_parameter_dim()]
        pieces.append(variable.flatten(variable.manifold_retract(self.get_value(variable), delta)))
    return jdc.replace(self, storage=jnp.concatenate(pieces, axis=0))
'''))
R("coords: four loops", D(STACK, "FactorStack.compute_jacobian_coords", '''
@staticmethod
def compute_jacobian_coords(
    factors: Sequence[FactorType],
    local_storage_layout: StorageLayout,
    row_offset: int,
) -> List[sparse.SparseCooCoordinates]:
    """Computes Jacobian coordinates for a factor stack."""
    residual_dim = factors[0].get_residual_dim()
    output: List[sparse.SparseCooCoordinates] = []
    for i, canonical in enumerate(factors[0].variables):
        dim = canonical.get_local_parameter_dim()
        rows: List[int] = []
        cols: List[int] = []
        for n, factor in enumerate(factors):
            start = local_storage_layout.index_from_variable[factor.variables[i]]
            for r in range(residual_dim):
                for c in range(dim):
                    rows.append(row_offset + n * residual_dim + r)
                    cols.append(start + c)
        output.append(sparse.SparseCooCoordinates(rows=onp.array(rows), cols=onp.array(cols)))
    return output
'''))
R("coords: repeat", D(STACK, "FactorStack.compute_jacobian_coords", '''
@staticmethod
def compute_jacobian_coords(
    factors: Sequence[FactorType],
    local_storage_layout: StorageLayout,
    row_offset: int,
) -> List[sparse.SparseCooCoordinates]:
    """Computes Jacobian coordinates for a factor stack."""
    residual_dim = factors[0].get_residual_dim()
    num_factors = len(factors)
    output: List[sparse.SparseCooCoordinates] = []
    for i, canonical in enumerate(factors[0].variables):
        dim = canonical.get_local_parameter_dim()
        starts = onp.array([local_storage_layout.index_from_variable[f.variables[i]] for f in factors])
        cols = onp.repeat(starts[:, None] + onp.arange(dim)[None, :], residual_dim, axis=0).reshape(-1)
        rows = row_offset + onp.repeat(onp.arange(num_factors * residual_dim), dim)
        output.append(sparse.SparseCooCoordinates(rows=rows, cols=cols))
    return output
'''))
R("jacobian: list of whitened", D(GRAPH, "StackedFactorGraph.compute_whitened_residual_jacobian", '''
@jdc.jit
def compute_whitened_residual_jacobian(
    self,
    assignments: VariableAssignments,
    residual_vector: hints.Array,
) -> sparse.SparseCooMatrix:
    """Jacobian."""
    assignments = assignments.update_storage_layout(self.storage_layout)
    values: List[jnp.ndarray] = []
    start = 0
    for stack in self.factor_stacks:
        noise = stack.factor.noise_model
        dim = stack.factor.get_residual_dim()
        end = start + stack.get_residual_dim()
        block = residual_vector[start:end].reshape((stack.num_factors, dim))
        whitened = [
            jax.vmap(type(noise).whiten_jacobian)(noise, jacobian, residual_vector=block)
            for jacobian in stack.compute_residual_jacobian(assignments)
        ]
        values.extend(w.flatten() for w in whitened)
        start = end
    return sparse.SparseCooMatrix(
        values=jnp.concatenate(values),
        coords=self.jacobian_coords,
        shape=(self.residual_dim, self.local_storage_layout.dim),
    )
'''))
R("residual: vmap over noise model class", D(GRAPH, "StackedFactorGraph.compute_whitened_residual_vector", '''
@jdc.jit
def compute_whitened_residual_vector(
    self, assignments: VariableAssignments
) -> jnp.ndarray:
    """Residuals."""
    assignments = assignments.update_storage_layout(self.storage_layout)
    pieces = []
    for stack in self.factor_stacks:
        noise = stack.factor.noise_model
        residuals = stack.compute_residual_vector(assignments)
        pieces.append(jax.vmap(lambda n, r: n.whiten_residual_vector(r))(noise, residuals).flatten())
    return jnp.concatenate(pieces, axis=0)
'''))
R("nll: slogdet", D(GRAPH, "StackedFactorGraph.compute_joint_nll", '''
@jdc.jit
def compute_joint_nll(
    self,
    assignments: VariableAssignments,
    include_constants: bool = False,
) -> jnp.ndarray:
    """NLL."""
    if include_constants:
        raise NotImplementedError()
    joint_nll, _ = self.compute_cost(assignments)
    for stack in self.factor_stacks:
        noise = stack.factor.noise_model
        if isinstance(noise, noises.Gaussian):
            sign, logdet = jnp.linalg.slogdet(noise.sqrt_precision_matrix)
            terms = -2.0 * logdet
        elif isinstance(noise, noises.DiagonalGaussian):
            terms = -2.0 * jnp.sum(jnp.log(jnp.abs(noise.sqrt_precision_diagonal)), axis=-1)
        else:
            assert False, "unsupported"
        joint_nll = joint_nll + jnp.sum(terms)
    return joint_nll
'''))
R("nll: list of terms", D(GRAPH, "StackedFactorGraph.compute_joint_nll", '''
@jdc.jit
def compute_joint_nll(
    self,
    assignments: VariableAssignments,
    include_constants: bool = False,
) -> jnp.ndarray:
    """NLL."""
    if include_constants:
        raise NotImplementedError()
    terms = [self.compute_cost(assignments)[0]]
    for stack in self.factor_stacks:
        noise = stack.factor.noise_model
        if isinstance(noise, noises.Gaussian):
            terms.append(-2.0 * jnp.sum(jnp.log(jnp.abs(jnp.linalg.det(noise.sqrt_precision_matrix)))))
        elif isinstance(noise, noises.DiagonalGaussian):
            terms.append(-2.0 * jnp.sum(jnp.log(jnp.abs(jnp.prod(noise.sqrt_precision_diagonal, axis=-1)))))
        else:
            assert False, "unsupported"
    return sum(terms[1:], terms[0])
'''))
R("fixed: named pieces", D(FX, "FixedIterationGaussNewtonSolver._step", '''
@overrides
def _step(
    self,
    graph: "StackedFactorGraph",
    state_prev: NonlinearSolverState,
) -> NonlinearSolverState:
    """One step."""
    self._hcb_print(
        lambda i, cost: f"Iteration #{i}: cost={str(cost)}",
        i=state_prev.iterations,
        cost=state_prev.cost,
    )
    r = state_prev.residual_vector
    A = graph.compute_whitened_residual_jacobian(state_prev.assignments, r)
    delta = self.linear_solver.solve_subproblem(A=A, ATb=-(A.T @ r), lambd=0.0, iteration=state_prev.iterations)
    assignments = state_prev.assignments.manifold_retract(
        VariableAssignments(storage=delta, storage_layout=graph.local_storage_layout)
    )
    cost, residual_vector = graph.compute_cost(assignments)
    return NonlinearSolverState(
        iterations=state_prev.iterations + 1,
        assignments=assignments,
        cost=cost,
        residual_vector=residual_vector,
        done=state_prev.iterations + 1 >= self.iterations,
    )
'''))
LMSTEP='''
@overrides
def _step(
    self,
    graph: "StackedFactorGraph",
    state_prev: _LevenbergMarquardtState,
) -> _LevenbergMarquardtState:
    self._hcb_print(
        lambda i, max_i, cost, lambd: f"Iteration #{i}/{max_i}: cost={str(cost).ljust(15)} lambda={str(lambd)}",
        i=state_prev.iterations,
        max_i=self.max_iterations,
        cost=state_prev.cost,
        lambd=state_prev.lambd,
    )
    A = graph.compute_whitened_residual_jacobian(state_prev.assignments, state_prev.residual_vector)
    ATb = -(A.T @ state_prev.residual_vector)
    step = self.linear_solver.solve_subproblem(A=A, ATb=ATb, lambd=state_prev.lambd, iteration=state_prev.iterations)
    delta = VariableAssignments(storage=step, storage_layout=graph.local_storage_layout)
    proposed = state_prev.assignments.manifold_retract(delta)
    cost, residual = graph.compute_cost(proposed)
    quality = self.compute_step_quality(A, cost, state_prev, step)
    accept = quality >= self.step_quality_min
'''

R("lm: tree_map acceptance", D(LM, "LevenbergMarquardtSolver._step", LMSTEP + '''
    storage, cost_new, residual_new = jax.tree_map(
        lambda new, old: jnp.where(accept, new, old),
        (proposed.storage, cost, residual),
        (state_prev.assignments.storage, state_prev.cost, state_prev.residual_vector),
    )
    done = self.check_exceeded_max_iterations(state_prev) | (
        accept & self.check_convergence(state_prev, cost, delta, ATb)
    )
    return _LevenbergMarquardtState(
        iterations=state_prev.iterations + 1,
        assignments=jdc.replace(state_prev.assignments, storage=storage),
        cost=cost_new,
        residual_vector=residual_new,
        done=done,
        lambd=jnp.where(
            accept,
            state_prev.lambd / self.lambda_factor,
            jnp.clip(state_prev.lambd * self.lambda_factor, self.lambda_min, self.lambda_max),
        ),
    )
'''), (LM, "import jax_dataclasses as jdc", "import jax\nimport jax_dataclasses as jdc"))
R("lm: keep helper", D(LM, "LevenbergMarquardtSolver._step", LMSTEP + '''
    def keep(new, old):
        return jnp.where(accept, new, old)

    raised = jnp.maximum(jnp.minimum(self.lambda_max, self.lambda_factor * state_prev.lambd), self.lambda_min)
    return _LevenbergMarquardtState(
        iterations=state_prev.iterations + 1,
        assignments=jdc.replace(state_prev.assignments, storage=keep(proposed.storage, state_prev.assignments.storage)),
        cost=keep(cost, state_prev.cost),
        residual_vector=keep(residual, state_prev.residual_vector),
        done=self.check_exceeded_max_iterations(state_prev)
        | (accept & self.check_convergence(state_prev, cost, delta, ATb)),
        lambd=keep(state_prev.lambd / self.lambda_factor, raised),
    )
'''))
R("lm: cond on states", D(LM, "LevenbergMarquardtSolver._step", LMSTEP + '''
    accepted = jdc.replace(
        state_prev,
        assignments=proposed,
        cost=cost,
        residual_vector=residual,
        lambd=state_prev.lambd / self.lambda_factor,
        done=self.check_convergence(state_prev, cost, delta, ATb),
    )
    rejected = jdc.replace(
        state_prev,
        lambd=jnp.clip(state_prev.lambd * self.lambda_factor, self.lambda_min, self.lambda_max),
        done=False,
    )
    chosen = jax.tree_map(lambda a, b: jnp.where(accept, a, b), accepted, rejected)
    return jdc.replace(
        chosen,
        iterations=state_prev.iterations + 1,
        done=jnp.logical_or(self.check_exceeded_max_iterations(state_prev), chosen.done),
    )
'''), (LM, "import jax_dataclasses as jdc", "import jax\nimport jax_dataclasses as jdc"))
R("termination: or of three", D(MX, "_TerminationCriteriaMixin.check_convergence", '''
@jax.jit
def check_convergence(
    self,
    state_prev: NonlinearSolverState,
    cost_updated: hints.Scalar,
    local_delta_assignments: VariableAssignments,
    negative_gradient: hints.Array,
) -> jax.Array:
    """Check for convergence!"""
    relative = jnp.abs(cost_updated - state_prev.cost) / state_prev.cost
    moved = state_prev.assignments.manifold_retract(
        jdc.replace(local_delta_assignments, storage=negative_gradient)
    ).storage
    gradient = jnp.linalg.norm(state_prev.assignments.storage - moved, ord=jnp.inf)
    step = jnp.linalg.norm(local_delta_assignments.storage)
    size = jnp.linalg.norm(state_prev.assignments.storage)
    return (
        (relative < self.cost_tolerance)
        | ((state_prev.iterations >= self.gradient_tolerance_start_step) & (gradient < self.gradient_tolerance))
        | (step < self.parameter_tolerance * (size + self.parameter_tolerance))
    )
'''))
R("dogleg: select", (DL, '''            return jnp.where(
                # Use GN if it's within trust region
                norm_gn <= state_prev.radius,
                step_vector_gn,
                jnp.where(
                    # Use normed SD if neither are within trust region
                    norm_sd >= state_prev.radius,
                    state_prev.radius / norm_sd * a,
                    a + beta * (step_vector_gn - a),
                ),
            )
''', '''            return jnp.select(
                [norm_gn <= state_prev.radius, norm_sd >= state_prev.radius],
                [step_vector_gn, state_prev.radius / norm_sd * a],
                a + beta * (step_vector_gn - a),
            )
'''))
R("matmul by segment_sum", D(COO, "SparseCooMatrix.__matmul__", '''
def __matmul__(self, other: hints.Array):
    """Compute `Ax`, where `x` is a 1D vector."""
    assert other.shape == (self.shape[1],)
    return jax.ops.segment_sum(
        self.values * other[self.coords.cols], self.coords.rows, num_segments=self.shape[0]
    )
'''), (COO, "import jax_dataclasses as jdc", "import jax\nimport jax_dataclasses as jdc"))
R("dense by flat scatter", D(COO, "SparseCooMatrix.as_dense", '''
def as_dense(self) -> jnp.ndarray:
    """Dense."""
    flat = jnp.zeros(self.shape[0] * self.shape[1])
    flat = flat.at[self.coords.rows * self.shape[1] + self.coords.cols].add(self.values)
    return flat.reshape(self.shape)
'''))
R("gaussian: einsum jacobian", D(GAUSS, "Gaussian.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,  # Unused
) -> hints.Array:
    return jnp.einsum("ij,jk->ik", self.sqrt_precision_matrix, jacobian)
'''))
R("gaussian: cholesky of the inverse transposed", D(GAUSS, "Gaussian.make_from_covariance", '''
@staticmethod
def make_from_covariance(covariance: hints.Array) -> "Gaussian":
    assert len(covariance.shape) == 2 and covariance.shape[0] == covariance.shape[1]
    return Gaussian(sqrt_precision_matrix=jnp.linalg.cholesky(jnp.linalg.inv(covariance)).T)
'''))
R("diagonal: einsum jacobian", D(GAUSS, "DiagonalGaussian.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,  # Unused
) -> hints.Array:
    return jnp.einsum("i,ij->ij", self.sqrt_precision_diagonal, jacobian)
'''))
R("diagonal: double transpose", D(GAUSS, "DiagonalGaussian.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,  # Unused
) -> hints.Array:
    return (jacobian.T * self.sqrt_precision_diagonal).T
'''))
R("diagonal: power", D(GAUSS, "DiagonalGaussian.make_from_covariance", '''
@staticmethod
def make_from_covariance(
    diagonal: Union[hints.Array, Sequence[float]],
) -> "DiagonalGaussian":
    return DiagonalGaussian(sqrt_precision_diagonal=jnp.asarray(diagonal) ** -0.5)
'''))
R("default jacobian: one jacfwd per variable", D(FACTOR, "FactorBase.compute_residual_jacobians", '''
def compute_residual_jacobians(
    self, variable_values: VariableValueTuple
) -> Tuple[jnp.ndarray, ...]:
    """Jacobians."""
    output = []
    for i, v in enumerate(self.variables):
        def residual_of_delta(delta, i=i, v=v):
            values = list(variable_values)
            values[i] = v.manifold_retract(values[i], delta)
            return self.compute_residual_vector(type(variable_values)(*values))
        output.append(jax.jacfwd(residual_of_delta)(jnp.zeros(v.get_local_parameter_dim())))
    return tuple(output)
'''))
R("between: analytic jacobian by relative pose", D(GEO, "BetweenFactor.compute_residual_jacobians", '''
@overrides
def compute_residual_jacobians(
    self, variable_values: BetweenValueTuple
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    T_world_a, T_world_b = variable_values
    T_a_b = T_world_a.inverse() @ T_world_b
    error = (self.T_a_b.inverse() @ T_a_b)
    J = jaxlie.manifold.rplus_jacobian_parameters_wrt_delta
    return jax.jacfwd(
        lambda da, db: (
            self.T_a_b.inverse()
            @ jaxlie.manifold.rplus(T_world_a, da).inverse()
            @ jaxlie.manifold.rplus(T_world_b, db)
        ).log(),
        argnums=(0, 1),
    )(jnp.zeros(type(T_world_a).tangent_dim), jnp.zeros(type(T_world_a).tangent_dim))
'''))
R("lie: retraction through multiply", D(LIE, "LieVariableBase.manifold_retract", '''
@classmethod
@final
@overrides
def manifold_retract(cls, x: T, local_delta: hints.LocalVariableValue) -> T:
    return x.multiply(type(x).exp(local_delta))
'''))
R("covariance: numpy inverse of product", D(COV, "SparseCovariance.as_dense", '''
def as_dense(self, use_inverse: bool = True) -> onp.ndarray:
    """Dense."""
    if use_inverse:
        L = self.L.toarray()
        return onp.linalg.inv(L @ L.T)
    return self._compute_marginal(range(self.local_storage_layout.dim))
'''))
R("covariance: indices by comprehension", D(COV, "SparseCovariance.compute_marginal", '''
def compute_marginal(self, *variables: core.VariableBase) -> onp.ndarray:
    """Marginal."""
    starts = self.local_storage_layout.index_from_variable
    return self._compute_marginal([starts[v] + k for v in variables for k in range(v.get_local_parameter_dim())])
'''))
R("variables: flatten by concatenated ravel", D(VARS, "VariableBase.flatten", '''
@staticmethod
@final
def flatten(x: VariableValueType) -> jnp.ndarray:
    """Flatten."""
    return jnp.concatenate([jnp.ravel(leaf) for leaf in jax.tree_leaves(x)])
'''))
R("variables: canonical instance in a dict by class", D(VARS, "VariableBase.canonical_instance", '''
@classmethod
def canonical_instance(cls: Type[VariableType]) -> VariableType:
    """Canonical."""
    if cls not in _canonical:
        _canonical[cls] = cls()
    return _canonical[cls]
'''), (VARS, "class VariableBase(", "_canonical = {}\n\n\nclass VariableBase("))
R("variables: canonical instance in own dict", D(VARS, "VariableBase.canonical_instance", '''
@classmethod
def canonical_instance(cls: Type[VariableType]) -> VariableType:
    """Canonical."""
    if "_canonical" not in cls.__dict__:
        cls._canonical = cls()
    return cls._canonical
'''))


SIG='''
@staticmethod
def make(
    factors: Sequence[FactorType],
    storage_layout: StorageLayout,
    use_onp: bool,
) -> "FactorStack[FactorType]":
    """Make a stacked factor."""
    jnp = onp if use_onp else globals()["jnp"]
'''
R("stack: column by column", D(STACK,"FactorStack.make",SIG+'''
    anonymous = [factor.anonymize_variables() for factor in factors]
    stacked_factor = jax.tree_map(lambda *leaves: jnp.stack(leaves), *anonymous)
    columns = []
    for i, first in enumerate(factors[0].variables):
        rows = []
        for factor in factors:
            variable = factor.variables[i]
            assert isinstance(variable, type(first)), "Variable types of stacked factors must match"
            start = storage_layout.index_from_variable[variable]
            rows.append(start + onp.arange(variable.get_parameter_dim()))
        columns.append(onp.stack(rows))
    return FactorStack(
        factor=stacked_factor,
        num_factors=len(anonymous),
        value_indices=tuple(columns),
        storage_layout=storage_layout,
    )
'''))
R("stack: starts plus arange broadcast", D(STACK,"FactorStack.make",SIG+'''
    first = factors[0]
    for factor in factors:
        for mine, theirs in zip(factor.variables, first.variables):
            assert isinstance(mine, type(theirs)), "Variable types of stacked factors must match"
    stacked_factor = jax.tree_map(
        lambda *leaves: jnp.stack(leaves, axis=0), *[f.anonymize_variables() for f in factors]
    )
    value_indices = []
    for i in range(len(first.variables)):
        starts = onp.array([storage_layout.index_from_variable[f.variables[i]] for f in factors])
        dim = first.variables[i].get_parameter_dim()
        value_indices.append(starts[:, None] + onp.arange(dim)[None, :])
    return FactorStack(
        num_factors=len(factors),
        factor=stacked_factor,
        value_indices=tuple(value_indices),
        storage_layout=storage_layout,
    )
'''))
R("stack: transposed by zip", D(STACK,"FactorStack.make",SIG+'''
    stacked_factor = jax.tree_map(
        lambda *leaves: jnp.stack(leaves, axis=0), *[f.anonymize_variables() for f in factors]
    )
    expected = [type(v) for v in factors[0].variables]

    def indices_of(variable, expected_type):
        assert isinstance(variable, expected_type), "Variable types of stacked factors must match"
        start = storage_layout.index_from_variable[variable]
        return onp.arange(start, start + variable.get_parameter_dim())

    per_factor = [
        [indices_of(v, t) for v, t in zip(factor.variables, expected)] for factor in factors
    ]
    return FactorStack(
        num_factors=len(factors),
        factor=stacked_factor,
        value_indices=tuple(onp.array(column) for column in zip(*per_factor)),
        storage_layout=storage_layout,
    )
'''))
R("stack: residual by a helper for values", 
  (STACK,'''    def compute_residual_vector(self, assignments: VariableAssignments) -> jnp.ndarray:''','''    def _values(self, assignments: VariableAssignments):
        assert assignments.storage_layout == self.storage_layout
        values = []
        for k in range(len(self.factor.variables)):
            flat = assignments.storage[self.value_indices[k]]
            values.append(jax.vmap(type(self.factor.variables[k]).unflatten)(flat))
        return self.factor.build_variable_value_tuple(tuple(values))

    def compute_residual_vector(self, assignments: VariableAssignments) -> jnp.ndarray:'''),
  D(STACK,"FactorStack.compute_residual_jacobian",'''
def compute_residual_jacobian(
    self,
    assignments: VariableAssignments,
) -> Tuple[jnp.ndarray, ...]:
    """Jacobians."""
    return jax.vmap(lambda factor, values: factor.compute_residual_jacobians(values))(
        self.factor, self._values(assignments)
    )
'''),
  D(STACK,"FactorStack.compute_residual_vector",'''
def compute_residual_vector(self, assignments: VariableAssignments) -> jnp.ndarray:
    """Residuals."""
    return jax.vmap(lambda factor, values: factor.compute_residual_vector(values))(
        self.factor, self._values(assignments)
    )
'''))
R("stack: residual with one vmapped closure over everything", D(STACK,"FactorStack.compute_residual_vector",'''
def compute_residual_vector(self, assignments: VariableAssignments) -> jnp.ndarray:
    """Residuals."""
    assert assignments.storage_layout == self.storage_layout
    storage = assignments.storage

    def one(factor, indices):
        values = tuple(v.unflatten(storage[ix]) for v, ix in zip(factor.variables, indices))
        return factor.compute_residual_vector(factor.build_variable_value_tuple(values))

    return jax.vmap(one)(self.factor, self.value_indices)
'''))
R("stack: take instead of indexing", D(STACK,"FactorStack.compute_residual_vector",'''
def compute_residual_vector(self, assignments: VariableAssignments) -> jnp.ndarray:
    """Residuals."""
    assert self.storage_layout == assignments.storage_layout
    values_stacked = [
        jax.vmap(variable.unflatten)(jnp.take(assignments.storage, indices, axis=0))
        for variable, indices in zip(self.factor.variables, self.value_indices)
    ]
    values = self.factor.build_variable_value_tuple(tuple(values_stacked))
    return jax.vmap(type(self.factor).compute_residual_vector)(self.factor, values)
'''))
CSIG='''
@staticmethod
def compute_jacobian_coords(
    factors: Sequence[FactorType],
    local_storage_layout: StorageLayout,
    row_offset: int,
) -> List[sparse.SparseCooCoordinates]:
    """Computes Jacobian coordinates for a factor stack."""
'''
R("coords: meshgrid", D(STACK,"FactorStack.compute_jacobian_coords",CSIG+'''
    residual_dim = factors[0].get_residual_dim()
    rows_per_factor = row_offset + onp.arange(len(factors) * residual_dim).reshape((len(factors), residual_dim))
    coords = []
    for i in range(len(factors[0].variables)):
        dim = factors[0].variables[i].get_local_parameter_dim()
        starts = onp.array([local_storage_layout.index_from_variable[f.variables[i]] for f in factors])
        cols_per_factor = starts[:, None] + onp.arange(dim)[None, :]
        rows, cols = onp.broadcast_arrays(rows_per_factor[:, :, None], cols_per_factor[:, None, :])
        coords.append(sparse.SparseCooCoordinates(rows=rows.flatten(), cols=cols.flatten()))
    return coords
'''))
R("coords: zeros plus broadcasting", D(STACK,"FactorStack.compute_jacobian_coords",CSIG+'''
    n, r = len(factors), factors[0].get_residual_dim()
    coords = []
    for i, variable in enumerate(factors[0].variables):
        d = variable.get_local_parameter_dim()
        block = onp.zeros((n, r, d), dtype=int)
        rows = block + (row_offset + onp.arange(n * r)).reshape((n, r, 1))
        starts = onp.array([local_storage_layout.index_from_variable[f.variables[i]] for f in factors])
        cols = block + starts[:, None, None] + onp.arange(d)[None, None, :]
        coords.append(sparse.SparseCooCoordinates(rows=rows.reshape(-1), cols=cols.reshape(-1)))
    return coords
'''))
R("coords: repeat and tile", D(STACK,"FactorStack.compute_jacobian_coords",CSIG+'''
    r = factors[0].get_residual_dim()
    coords = []
    for i, variable in enumerate(factors[0].variables):
        d = variable.get_local_parameter_dim()
        rows = onp.repeat(onp.arange(row_offset, row_offset + len(factors) * r), d)
        cols = onp.concatenate(
            [
                onp.tile(onp.arange(start, start + d), r)
                for start in (local_storage_layout.index_from_variable[f.variables[i]] for f in factors)
            ]
        )
        coords.append(sparse.SparseCooCoordinates(rows=rows, cols=cols))
    return coords
'''))
R("coords: indices", D(STACK,"FactorStack.compute_jacobian_coords",CSIG+'''
    residual_dim = factors[0].get_residual_dim()
    out = []
    for i, canonical in enumerate(factors[0].variables):
        dim = canonical.get_local_parameter_dim()
        rows = [
            row_offset + n * residual_dim + r
            for n in range(len(factors))
            for r in range(residual_dim)
            for _ in range(dim)
        ]
        cols = [
            local_storage_layout.index_from_variable[factor.variables[i]] + c
            for factor in factors
            for _ in range(residual_dim)
            for c in range(dim)
        ]
        out.append(sparse.SparseCooCoordinates(rows=onp.asarray(rows), cols=onp.asarray(cols)))
    return out
'''))
GSIG='''
@staticmethod
def make(
    factors: Iterable[FactorBase],
    use_onp: bool = True,
) -> "StackedFactorGraph":
    """Create a factor graph from a set of factors."""
'''
R("graph: key helper and setdefault", D(GRAPH,"StackedFactorGraph.make",GSIG+'''
    def key_of(factor):
        shapes = tuple(getattr(leaf, "shape", ()) for leaf in jax.tree_leaves(factor))
        return jax.tree_structure(factor.anonymize_variables()), shapes

    groups = {}
    seen = {}
    for factor in factors:
        groups.setdefault(key_of(factor), []).append(factor)
        seen.update(dict.fromkeys(factor.variables))
    variables = list(seen)
    layout = StorageLayout.make(variables, local=False)
    local_layout = StorageLayout.make(variables, local=True)
    stacks = [FactorStack.make(group, layout, use_onp=use_onp) for group in groups.values()]
    coords = []
    offset = 0
    for stack, group in zip(stacks, groups.values()):
        coords += FactorStack.compute_jacobian_coords(
            factors=group, local_storage_layout=local_layout, row_offset=offset
        )
        offset += stack.get_residual_dim()
    return StackedFactorGraph(
        factor_stacks=stacks,
        jacobian_coords=sparse.SparseCooCoordinates(
            rows=onp.concatenate([c.rows for c in coords]),
            cols=onp.concatenate([c.cols for c in coords]),
        ),
        storage_layout=layout,
        local_storage_layout=local_layout,
        residual_dim=offset,
    )
'''))
R("graph: offsets accumulated in a list", D(GRAPH,"StackedFactorGraph.make",GSIG+'''
    factors = list(factors)
    groups: DefaultDict[GroupKey, List[FactorBase]] = defaultdict(list)
    for factor in factors:
        key: GroupKey = (
            jax.tree_structure(factor.anonymize_variables()),
            tuple(leaf.shape if hasattr(leaf, "shape") else () for leaf in jax.tree_leaves(factor)),
        )
        groups[key].append(factor)
    variables = list(dict.fromkeys(v for factor in factors for v in factor.variables))
    storage_layout = StorageLayout.make(variables, local=False)
    local_storage_layout = StorageLayout.make(variables, local=True)
    stacked_factors = []
    coords = []
    residual_dim = 0
    for members in groups.values():
        stack = FactorStack.make(members, storage_layout, use_onp)
        stacked_factors.append(stack)
        for c in FactorStack.compute_jacobian_coords(members, local_storage_layout, residual_dim):
            coords.append(c)
        residual_dim = residual_dim + stack.get_residual_dim()
    return StackedFactorGraph(
        stacked_factors,
        jax.tree_map(lambda *xs: onp.concatenate(xs), *coords),
        storage_layout,
        local_storage_layout,
        residual_dim,
    )
'''))
R("graph: nested dict of variables by comprehension", D(GRAPH,"StackedFactorGraph.make",GSIG+'''
    by_key = {}
    ordered = []
    known = set()
    for factor in factors:
        structure = jax.tree_structure(factor.anonymize_variables())
        shapes = tuple(leaf.shape if hasattr(leaf, "shape") else () for leaf in jax.tree_leaves(factor))
        key = (structure, shapes)
        if key not in by_key:
            by_key[key] = []
        by_key[key].append(factor)
        for v in factor.variables:
            if v not in known:
                known.add(v)
                ordered.append(v)
    storage_layout = StorageLayout.make(ordered, local=False)
    local_storage_layout = StorageLayout.make(ordered, local=True)
    stacks = []
    coords = []
    offset = 0
    for group in by_key.values():
        stacks.append(FactorStack.make(group, storage_layout, use_onp=use_onp))
        coords.extend(
            FactorStack.compute_jacobian_coords(
                factors=group, local_storage_layout=local_storage_layout, row_offset=offset
            )
        )
        offset += stacks[-1].get_residual_dim()
    merged = jax.tree_map(lambda *arrays: onp.concatenate(arrays, axis=0), *coords)
    return StackedFactorGraph(
        factor_stacks=stacks,
        jacobian_coords=merged,
        storage_layout=storage_layout,
        local_storage_layout=local_storage_layout,
        residual_dim=offset,
    )
'''))
R("residual: blocks from a helper generator", D(GRAPH,"StackedFactorGraph.compute_whitened_residual_vector",'''
@jdc.jit
def compute_whitened_residual_vector(
    self, assignments: VariableAssignments
) -> jnp.ndarray:
    """Residuals."""
    assignments = assignments.update_storage_layout(self.storage_layout)

    def blocks():
        for stack in self.factor_stacks:
            noise_model = stack.factor.noise_model
            whiten = jax.vmap(type(noise_model).whiten_residual_vector)
            yield jnp.ravel(whiten(noise_model, stack.compute_residual_vector(assignments)))

    residual_vector = jnp.concatenate(list(blocks()))
    assert residual_vector.shape == (self.residual_dim,)
    return residual_vector
'''))
R("residual: hstack", D(GRAPH,"StackedFactorGraph.compute_whitened_residual_vector",'''
@jdc.jit
def compute_whitened_residual_vector(
    self, assignments: VariableAssignments
) -> jnp.ndarray:
    """Residuals."""
    assignments = assignments.update_storage_layout(storage_layout=self.storage_layout)
    blocks = []
    for stack in self.factor_stacks:
        noise_model = stack.factor.noise_model
        raw = stack.compute_residual_vector(assignments)
        whitened = jax.vmap(type(noise_model).whiten_residual_vector)(noise_model, raw)
        blocks.append(whitened.reshape((-1,)))
    residual_vector = jnp.hstack(blocks)
    assert residual_vector.shape == (self.residual_dim,)
    return residual_vector
'''))
R("residual: written into zeros block by block", D(GRAPH,"StackedFactorGraph.compute_whitened_residual_vector",'''
@jdc.jit
def compute_whitened_residual_vector(
    self, assignments: VariableAssignments
) -> jnp.ndarray:
    """Residuals."""
    assignments = assignments.update_storage_layout(self.storage_layout)
    residual_vector = jnp.zeros(self.residual_dim)
    start = 0
    for stack in self.factor_stacks:
        noise_model = stack.factor.noise_model
        whitened = jax.vmap(type(noise_model).whiten_residual_vector)(
            noise_model, stack.compute_residual_vector(assignments)
        ).flatten()
        stop = start + stack.get_residual_dim()
        residual_vector = residual_vector.at[start:stop].set(whitened)
        start = stop
    return residual_vector
'''))
R("cost: vdot", D(GRAPH,"StackedFactorGraph.compute_cost",'''
@jdc.jit
def compute_cost(
    self, assignments: VariableAssignments
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    """Cost."""
    r = self.compute_whitened_residual_vector(assignments)
    return jnp.vdot(r, r), r
'''))
R("cost: norm squared", D(GRAPH,"StackedFactorGraph.compute_cost",'''
@jdc.jit
def compute_cost(
    self, assignments: VariableAssignments
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    """Cost."""
    r = self.compute_whitened_residual_vector(assignments=assignments)
    return (jnp.einsum("i,i->", r, r), r)
'''))
R("cost: matmul of r with itself", D(GRAPH,"StackedFactorGraph.compute_cost",'''
@jdc.jit
def compute_cost(
    self, assignments: VariableAssignments
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    """Cost."""
    r = self.compute_whitened_residual_vector(assignments=assignments)
    return r @ r, r
'''))
JSIG='''
@jdc.jit
def compute_whitened_residual_jacobian(
    self,
    assignments: VariableAssignments,
    residual_vector: hints.Array,
) -> sparse.SparseCooMatrix:
    """Jacobian."""
    assignments = assignments.update_storage_layout(self.storage_layout)
'''
R("jacobian: split of residual", D(GRAPH,"StackedFactorGraph.compute_whitened_residual_jacobian",JSIG+'''
    values = []
    start = 0
    for stack in self.factor_stacks:
        noise_model = stack.factor.noise_model
        n, d = stack.num_factors, stack.factor.get_residual_dim()
        block = jnp.reshape(residual_vector[start : start + n * d], (n, d))
        start += n * d
        whiten = jax.vmap(lambda model, J, r: model.whiten_jacobian(J, residual_vector=r))
        for jacobian in stack.compute_residual_jacobian(assignments):
            values.append(whiten(noise_model, jacobian, block).flatten())
    assert start == self.residual_dim
    return sparse.SparseCooMatrix(
        values=jnp.concatenate(values),
        coords=self.jacobian_coords,
        shape=(self.residual_dim, self.local_storage_layout.dim),
    )
'''))
R("jacobian: offsets first", D(GRAPH,"StackedFactorGraph.compute_whitened_residual_jacobian",JSIG+'''
    starts = [0]
    for stack in self.factor_stacks:
        starts.append(starts[-1] + stack.get_residual_dim())
    assert starts[-1] == self.residual_dim
    values = []
    for stack, begin, end in zip(self.factor_stacks, starts[:-1], starts[1:]):
        noise_model = stack.factor.noise_model
        block = residual_vector[begin:end].reshape((stack.num_factors, stack.factor.get_residual_dim()))
        for jacobian in stack.compute_residual_jacobian(assignments):
            whitened = jax.vmap(type(noise_model).whiten_jacobian)(
                noise_model, jacobian, residual_vector=block
            )
            values.append(whitened.flatten())
    return sparse.SparseCooMatrix(
        values=jnp.concatenate(values, axis=0),
        coords=self.jacobian_coords,
        shape=(self.residual_dim, self.local_storage_layout.dim),
    )
'''))
R("stacked value: gather of starts", D(ASSIGN,"VariableAssignments.get_stacked_value",'''
def get_stacked_value(
    self, variable_type: Type[VariableBase[VariableValueType]]
) -> VariableValueType:
    """Get values of all variables corresponding to a specific type."""
    layout = self.storage_layout
    begin = layout.index_from_variable_type[variable_type]
    count, dim = layout.count_from_variable_type[variable_type], variable_type.get_parameter_dim()
    flat = self.storage[begin : begin + count * dim]
    return jax.vmap(lambda row: variable_type.unflatten(row))(flat.reshape((count, dim)))
'''))
R("stacked value: fancy positions", D(ASSIGN,"VariableAssignments.get_stacked_value",'''
def get_stacked_value(
    self, variable_type: Type[VariableBase[VariableValueType]]
) -> VariableValueType:
    """Get values of all variables corresponding to a specific type."""
    layout = self.storage_layout
    begin = layout.index_from_variable_type[variable_type]
    count, dim = layout.count_from_variable_type[variable_type], variable_type.get_parameter_dim()
    positions = begin + jnp.arange(count * dim).reshape((count, dim))
    return jax.vmap(variable_type.unflatten)(self.storage[positions])
'''))
R("set value: concatenate three parts", D(ASSIGN,"VariableAssignments.set_value",'''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    start = self.storage_layout.index_from_variable[variable]
    stop = start + variable.get_parameter_dim()
    return jdc.replace(
        self,
        storage=jnp.concatenate([self.storage[:start], variable.flatten(value), self.storage[stop:]]),
    )
'''))
R("set value: dynamic update slice", D(ASSIGN,"VariableAssignments.set_value",'''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    start = self.storage_layout.index_from_variable[variable]
    storage = jax.lax.dynamic_update_slice(jnp.asarray(self.storage), type(variable).flatten(value), (start,))
    return VariableAssignments(storage=storage, storage_layout=self.storage_layout)
'''))
R("set value: numpy copy", D(ASSIGN,"VariableAssignments.set_value",'''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    start = self.storage_layout.index_from_variable[variable]
    block = slice(start, start + type(variable).get_parameter_dim())
    storage = jnp.array(self.storage).at[block].set(type(variable).flatten(value))
    return jdc.replace(self, storage=storage)
'''))
R("make from dict: own loop", D(ASSIGN,"VariableAssignments.make_from_dict",'''
@staticmethod
def make_from_dict(
    assignments: Dict[VariableBase, hints.VariableValue],
) -> "VariableAssignments":
    """Create an assignment object from a full set of assignments."""
    layout = StorageLayout.make(assignments.keys(), local=False)
    flat = [v.flatten(assignments[v]) for v in layout.get_variables()]
    return VariableAssignments(storage=jnp.concatenate(flat, axis=0), storage_layout=layout)
'''))
R("partial: get with default object", D(ASSIGN,"VariableAssignments.make_from_partial_dict",'''
@staticmethod
def make_from_partial_dict(
    variables: Iterable[VariableBase],
    assignments: Dict[VariableBase, hints.VariableValue],
) -> "VariableAssignments":
    """Create an assignment object from a variables and assignments."""
    layout = StorageLayout.make(variables, local=False)

    def value_of(variable):
        if assignments is not None and variable in assignments:
            return assignments[variable]
        return variable.get_default_value()

    storage = jnp.concatenate([jax.jit(v.flatten)(value_of(v)) for v in layout.get_variables()])
    assert storage.shape == (layout.dim,)
    return VariableAssignments(storage=storage, storage_layout=layout)
'''))
R("partial: values collected in a dict first", D(ASSIGN,"VariableAssignments.make_from_partial_dict",'''
@staticmethod
def make_from_partial_dict(
    variables: Iterable[VariableBase],
    assignments: Dict[VariableBase, hints.VariableValue],
) -> "VariableAssignments":
    """Create an assignment object from a variables and assignments."""
    storage_layout = StorageLayout.make(variables, local=False)
    values = {v: type(v).get_default_value() for v in storage_layout.get_variables()}
    for v in storage_layout.get_variables():
        if assignments is not None and v in assignments:
            values[v] = assignments[v]
    storage = jnp.concatenate([v.flatten(values[v]) for v in storage_layout.get_variables()], axis=0)
    return VariableAssignments(storage=storage, storage_layout=storage_layout)
'''))
R("defaults through partial", D(ASSIGN,"VariableAssignments.make_from_defaults",'''
@staticmethod
def make_from_defaults(variables: Iterable[VariableBase]) -> "VariableAssignments":
    """Create an assignment object from the default values corresponding to each variable."""
    return VariableAssignments.make_from_partial_dict(variables, {})
'''))
R("defaults: repeat of rows", D(ASSIGN,"VariableAssignments.make_from_defaults",'''
@staticmethod
def make_from_defaults(variables: Iterable[VariableBase]) -> "VariableAssignments":
    """Create an assignment object from the default values corresponding to each variable."""
    layout = StorageLayout.make(variables, local=False)
    blocks = []
    for variable_type, count in layout.count_from_variable_type.items():
        flat = variable_type.flatten(variable_type.get_default_value())
        blocks.extend([flat] * count)
    return VariableAssignments(storage=jnp.concatenate(blocks), storage_layout=layout)
'''))
R("defaults: broadcast and flatten", D(ASSIGN,"VariableAssignments.make_from_defaults",'''
@staticmethod
def make_from_defaults(variables: Iterable[VariableBase]) -> "VariableAssignments":
    """Create an assignment object from the default values corresponding to each variable."""
    layout = StorageLayout.make(variables, local=False)
    storage = jnp.concatenate(
        [
            jnp.broadcast_to(
                t.flatten(t.get_default_value())[None, :],
                (layout.count_from_variable_type[t], t.get_parameter_dim()),
            ).flatten()
            for t in layout.get_variable_types()
        ]
    )
    return VariableAssignments(storage=storage, storage_layout=layout)
'''))
R("conversion: numpy index vector", D(ASSIGN,"VariableAssignments.update_storage_layout",'''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Change of layout."""
    if self.storage_layout == storage_layout:
        return self
    old, new = self.storage_layout, storage_layout
    assert old.dim == new.dim
    assert old.local_flag == new.local_flag
    assert set(old.get_variables()) == set(new.get_variables())
    gather = onp.empty(new.dim, dtype=onp.int32)
    for variable, target in new.index_from_variable.items():
        size = variable.get_local_parameter_dim() if new.local_flag else variable.get_parameter_dim()
        source = old.index_from_variable[variable]
        gather[target : target + size] = onp.arange(source, source + size)
    return VariableAssignments(storage=self.storage[gather], storage_layout=new)
'''), (ASSIGN, "from jax import numpy as jnp\n", "import numpy as onp\nfrom jax import numpy as jnp\n"))
R("conversion: scatter instead of gather", D(ASSIGN,"VariableAssignments.update_storage_layout",'''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Change of layout."""
    if self.storage_layout == storage_layout:
        return self
    assert self.storage_layout.dim == storage_layout.dim
    assert self.storage_layout.local_flag == storage_layout.local_flag
    assert set(self.storage_layout.get_variables()) == set(storage_layout.get_variables())
    storage = jnp.zeros_like(self.storage)
    for variable in storage_layout.get_variables():
        size = (
            variable.get_local_parameter_dim() if storage_layout.local_flag else variable.get_parameter_dim()
        )
        source = self.storage_layout.index_from_variable[variable]
        target = storage_layout.index_from_variable[variable]
        storage = storage.at[target : target + size].set(self.storage[source : source + size])
    return VariableAssignments(storage=storage, storage_layout=storage_layout)
'''))
R("conversion: dict of slices", D(ASSIGN,"VariableAssignments.update_storage_layout",'''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Change of layout."""
    mine = self.storage_layout
    if mine == storage_layout:
        return self
    assert mine.dim == storage_layout.dim
    assert mine.local_flag == storage_layout.local_flag
    assert mine.index_from_variable.keys() == storage_layout.index_from_variable.keys()

    def size(v):
        return v.get_local_parameter_dim() if mine.local_flag else v.get_parameter_dim()

    pieces = {v: self.storage[i : i + size(v)] for v, i in mine.index_from_variable.items()}
    storage = jnp.concatenate([pieces[v] for v in storage_layout.get_variables()], axis=0)
    return VariableAssignments(storage=storage, storage_layout=storage_layout)
'''))
R("retract: stacked values", D(ASSIGN,"VariableAssignments.manifold_retract",'''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""
    assert not self.storage_layout.local_flag
    assert local_delta_assignments.storage_layout.local_flag
    new_storage = jnp.zeros_like(self.storage)
    local_layout = local_delta_assignments.storage_layout
    for t, count in self.storage_layout.count_from_variable_type.items():
        begin = self.storage_layout.index_from_variable_type[t]
        local_begin = local_layout.index_from_variable_type[t]
        local_dim = t.get_local_parameter_dim()
        deltas = local_delta_assignments.storage[local_begin : local_begin + local_dim * count]
        updated = jax.vmap(lambda x, d: t.flatten(t.manifold_retract(x, d)))(
            self.get_stacked_value(t), deltas.reshape((count, local_dim))
        )
        new_storage = new_storage.at[begin : begin + count * t.get_parameter_dim()].set(updated.flatten())
    return jdc.replace(self, storage=new_storage)
'''))
R("retract: concatenated by type", D(ASSIGN,"VariableAssignments.manifold_retract",'''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""
    assert not self.storage_layout.local_flag
    assert local_delta_assignments.storage_layout.local_flag

    def block(assignments, variable_type, dim):
        count = assignments.storage_layout.count_from_variable_type[variable_type]
        start = assignments.storage_layout.index_from_variable_type[variable_type]
        return assignments.storage[start : start + dim * count].reshape((count, dim))

    parts = []
    for t in self.storage_layout.get_variable_types():
        values = jax.vmap(t.unflatten)(block(self, t, t.get_parameter_dim()))
        deltas = block(local_delta_assignments, t, t.get_local_parameter_dim())
        parts.append(jax.vmap(t.flatten)(jax.vmap(t.manifold_retract)(values, deltas)).flatten())
    return jdc.replace(self, storage=jnp.concatenate(parts))
'''))
R("layout: comprehension for dims", D(LAYOUT,"StorageLayout.make",'''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""

    def dim_of(variable_type: Type[VariableBase]) -> int:
        if local:
            return variable_type.get_local_parameter_dim()
        return variable_type.get_parameter_dim()

    grouped: Dict[Type[VariableBase], List[VariableBase]] = {}
    for v in variables:
        grouped.setdefault(type(v), [])
        grouped[type(v)].append(v)
    sizes = [dim_of(t) * len(vs) for t, vs in grouped.items()]
    starts = [sum(sizes[:k]) for k in range(len(sizes))]
    return StorageLayout(
        local_flag=local,
        dim=sum(sizes),
        index_from_variable=frozendict(
            {
                v: start + k * dim_of(t)
                for (t, vs), start in zip(grouped.items(), starts)
                for k, v in enumerate(vs)
            }
        ),
        index_from_variable_type=frozendict(dict(zip(grouped, starts))),
        count_from_variable_type=frozendict({t: len(vs) for t, vs in grouped.items()}),
    )
'''))
R("layout: itertools accumulate", D(LAYOUT,"StorageLayout.make",'''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    grouped: Dict[Type[VariableBase], List[VariableBase]] = {}
    for v in variables:
        grouped.setdefault(type(v), []).append(v)
    ordered = [v for vs in grouped.values() for v in vs]
    dims = [v.get_local_parameter_dim() if local else v.get_parameter_dim() for v in ordered]
    starts = [0, *itertools.accumulate(dims)]
    index_from_variable = dict(zip(ordered, starts))
    return StorageLayout(
        local_flag=local,
        dim=starts[-1],
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict({t: index_from_variable[vs[0]] for t, vs in grouped.items()}),
        count_from_variable_type=frozendict({t: len(vs) for t, vs in grouped.items()}),
    )
'''), (LAYOUT, "import dataclasses\n", "import dataclasses\nimport itertools\n"))
