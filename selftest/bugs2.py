"""Functions written anew that are right except in one circumstance."""

from cases import M as B
from refactorings import ASSIGN, COO, COV, D, DL, FACTOR, FX, GAUSS, GEO, GN, GRAPH, HUBER, LAYOUT, LIE, LIN, LM, MX, NB, STACK, VARS

G2O = "scripts/_g2o_utils.py"

B("P01", "layout: sorted with itertools.groupby without sorting", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    variables = list(variables)
    types = list(dict.fromkeys(type(v) for v in variables))
    dims = {t: t.get_local_parameter_dim() if local else t.get_parameter_dim() for t in types}
    index_from_variable = {}
    index_from_variable_type = {}
    counts = {}
    offset = 0
    for t in types:
        members = [v for v in variables if isinstance(v, t)]
        index_from_variable_type[t] = offset
        counts[t] = len(members)
        for k, v in enumerate(members):
            index_from_variable[v] = offset + k * dims[t]
        offset += dims[t] * len(members)
    return StorageLayout(
        local_flag=local,
        dim=offset,
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(index_from_variable_type),
        count_from_variable_type=frozendict(counts),
    )
'''))
B("P01", "layout: vectorised offsets, off by inclusive cumsum", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    by_type: Dict[Type[VariableBase], List[VariableBase]] = {}
    for v in variables:
        by_type.setdefault(type(v), []).append(v)
    index_from_variable = {}
    index_from_variable_type = {}
    offset = 0
    for variable_type, members in by_type.items():
        dim = variable_type.get_local_parameter_dim() if local else variable_type.get_parameter_dim()
        index_from_variable_type[variable_type] = offset
        for v in members:
            offset += dim
            index_from_variable[v] = offset - members[0].get_parameter_dim()
    return StorageLayout(
        local_flag=local,
        dim=offset,
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(index_from_variable_type),
        count_from_variable_type=frozendict({k: len(v) for k, v in by_type.items()}),
    )
'''))
B("P01", "layout: one counter per type without reset", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    buckets: Dict[Type[VariableBase], List[VariableBase]] = {}
    for variable in variables:
        buckets.setdefault(type(variable), []).append(variable)
    index_from_variable: Dict[VariableBase, int] = {}
    index_from_variable_type: Dict[Type[VariableBase], int] = {}
    storage_index = 0
    for variable_type, members in buckets.items():
        index_from_variable_type[variable_type] = storage_index
        for i, variable in enumerate(members):
            dim = variable.get_local_parameter_dim() if local else variable.get_parameter_dim()
            index_from_variable[variable] = storage_index + i * dim
        storage_index += len(members) * variable_type.get_parameter_dim()
    return StorageLayout(
        local_flag=local,
        dim=storage_index,
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(index_from_variable_type),
        count_from_variable_type=frozendict({k: len(v) for k, v in buckets.items()}),
    )
'''))
B("P02", "defaults: one value per variable through tile of the first", D(ASSIGN, "VariableAssignments.make_from_defaults", '''
@staticmethod
def make_from_defaults(variables: Iterable[VariableBase]) -> "VariableAssignments":
    """Create an assignment object from the default values corresponding to each variable."""
    storage_layout = StorageLayout.make(variables, local=False)
    storage = onp.zeros(storage_layout.dim)
    for variable, start in storage_layout.index_from_variable.items():
        end = start + variable.get_local_parameter_dim()
        storage[start:end] = variable.flatten(variable.get_default_value())[: end - start]
    return VariableAssignments(storage=jnp.asarray(storage), storage_layout=storage_layout)
'''), (ASSIGN, "from jax import numpy as jnp\n", "import numpy as onp\nfrom jax import numpy as jnp\n"))
B("P02", "partial dict: base defaults, then scattered by type start", D(ASSIGN, "VariableAssignments.make_from_partial_dict", '''
@staticmethod
def make_from_partial_dict(
    variables: Iterable[VariableBase],
    assignments: Dict[VariableBase, hints.VariableValue],
) -> "VariableAssignments":
    """Create an assignment object from a variables and assignments."""
    output = VariableAssignments.make_from_defaults(variables)
    storage = output.storage
    for variable, value in assignments.items():
        start = output.storage_layout.index_from_variable_type[type(variable)]
        flat = variable.flatten(value)
        storage = storage.at[start : start + flat.shape[0]].set(flat)
    return VariableAssignments(storage=storage, storage_layout=output.storage_layout)
'''))
B("P02", "partial dict: iterates the given variables", D(ASSIGN, "VariableAssignments.make_from_partial_dict", '''
@staticmethod
def make_from_partial_dict(
    variables: Iterable[VariableBase],
    assignments: Dict[VariableBase, hints.VariableValue],
) -> "VariableAssignments":
    """Create an assignment object from a variables and assignments."""
    variables = tuple(variables)
    storage_layout = StorageLayout.make(variables, local=False)
    pieces = []
    for variable in variables:
        value = assignments[variable] if variable in assignments else variable.get_default_value()
        pieces.append(variable.flatten(value))
    return VariableAssignments(storage=jnp.concatenate(pieces, axis=0), storage_layout=storage_layout)
'''))
B("P02", "as_dict from stacked values by enumerate", D(ASSIGN, "VariableAssignments.as_dict", '''
def as_dict(self) -> Dict[VariableBase, hints.VariableValue]:
    """Grab assignments as a variable -> value dictionary."""
    out: Dict[VariableBase, hints.VariableValue] = {}
    for i, variable in enumerate(self.get_variables()):
        dim = variable.get_parameter_dim()
        out[variable] = type(variable).unflatten(self.storage[i * dim : (i + 1) * dim])
    return out
'''))
B("P02", "set_value through dynamic update with clamped start", D(ASSIGN, "VariableAssignments.set_value", '''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    index = self.storage_layout.index_from_variable_type[type(variable)]
    position = list(self.get_variables()).index(variable)
    flat = type(variable).flatten(value)
    storage = jnp.asarray(self.storage).at[index + position * flat.shape[0] + jnp.arange(flat.shape[0])].set(flat)
    return jdc.replace(self, storage=storage)
'''))
B("P03", "conversion by concatenating in source order", D(ASSIGN, "VariableAssignments.update_storage_layout", '''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Change of layout."""
    if self.storage_layout == storage_layout:
        return self
    assert self.storage_layout.dim == storage_layout.dim
    assert self.storage_layout.local_flag == storage_layout.local_flag
    assert set(self.storage_layout.get_variables()) == set(storage_layout.get_variables())
    pieces = []
    for variable, start in self.storage_layout.index_from_variable.items():
        size = variable.get_local_parameter_dim() if storage_layout.local_flag else variable.get_parameter_dim()
        pieces.append(self.storage[start : start + size])
    return VariableAssignments(storage=jnp.concatenate(pieces), storage_layout=storage_layout)
'''))
B("P03", "conversion type by type assuming equal order inside", D(ASSIGN, "VariableAssignments.update_storage_layout", '''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Change of layout."""
    source = self.storage_layout
    if source == storage_layout:
        return self
    assert source.dim == storage_layout.dim
    assert source.local_flag == storage_layout.local_flag
    assert set(source.get_variables()) == set(storage_layout.get_variables())
    pieces = []
    for variable_type in storage_layout.get_variable_types():
        start = source.index_from_variable_type[variable_type]
        size = source.count_from_variable_type[variable_type] * (
            variable_type.get_local_parameter_dim() if source.local_flag else variable_type.get_parameter_dim()
        )
        pieces.append(self.storage[start : start + size])
    return VariableAssignments(storage=jnp.concatenate(pieces, axis=0), storage_layout=storage_layout)
'''))
B("P03", "conversion through an argsort of starts", D(ASSIGN, "VariableAssignments.update_storage_layout", '''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Change of layout."""
    if self.storage_layout == storage_layout:
        return self
    assert self.storage_layout.dim == storage_layout.dim
    assert self.storage_layout.local_flag == storage_layout.local_flag
    assert len(self.storage_layout.get_variables()) == len(storage_layout.get_variables())
    indices = []
    for variable in storage_layout.get_variables():
        start = self.storage_layout.index_from_variable[variable]
        dim = variable.get_local_parameter_dim() if storage_layout.local_flag else variable.get_parameter_dim()
        indices.extend(range(start, start + dim))
    return VariableAssignments(storage=self.storage[jnp.array(indices)], storage_layout=storage_layout)
'''))
B("P04", "retraction with one scan over types, delta offset by parameter dimension", D(ASSIGN, "VariableAssignments.manifold_retract", '''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""
    assert not self.storage_layout.local_flag
    assert local_delta_assignments.storage_layout.local_flag
    pieces = []
    for variable_type, start in self.storage_layout.index_from_variable_type.items():
        count = self.storage_layout.count_from_variable_type[variable_type]
        dim, local_dim = variable_type.get_parameter_dim(), variable_type.get_local_parameter_dim()
        values = self.storage[start : start + dim * count].reshape((count, dim))
        deltas = local_delta_assignments.storage[start : start + local_dim * count].reshape((count, local_dim))

        def one(flat, delta, variable_type=variable_type):
            return variable_type.flatten(variable_type.manifold_retract(variable_type.unflatten(flat), delta))

        pieces.append(jax.vmap(one)(values, deltas).reshape(-1))
    return jdc.replace(self, storage=jnp.concatenate(pieces))
'''))
B("P04", "retraction per variable with late-bound class", D(ASSIGN, "VariableAssignments.manifold_retract", '''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""
    assert not self.storage_layout.local_flag
    assert local_delta_assignments.storage_layout.local_flag
    local_layout = local_delta_assignments.storage_layout
    pieces = []
    for variable in self.get_variables():
        start = local_layout.index_from_variable[variable]
        delta = local_delta_assignments.storage[start : start + variable.get_parameter_dim()]
        pieces.append(variable.flatten(variable.manifold_retract(self.get_value(variable), delta)))
    return jdc.replace(self, storage=jnp.concatenate(pieces, axis=0))
'''))
B("P05", "grouping by type and shapes of leaves, not structure", (GRAPH, "jax.tree_structure(factor.anonymize_variables()),", "(type(factor), type(factor.noise_model), len(factor.variables)),"))
B("P05", "grouping by variable types but not structure", (GRAPH, "jax.tree_structure(factor.anonymize_variables()),", "(type(factor), tuple(type(v) for v in factor.variables)),"))
B("P05", "stack: gather via first factor's indices broadcast", (STACK, "            onp.array(indices) for indices in value_indices_list\n", "            onp.array(sorted(indices, key=lambda ix: ix[0])) for indices in value_indices_list\n"))
B("P05", "stack: residual values via canonical instance order", (STACK, "            for variable, indices in zip(self.factor.variables, self.value_indices)", "            for variable, indices in zip(self.factor.variables, sorted(self.value_indices, key=lambda ix: ix.shape))"))
B("P05", "graph: variables only from first group of each factor type", (GRAPH, "            for v in factor.variables:\n                variables_ordered_set[v] = None\n", "            if len(factors_from_group[group_key]) == 1 or len(factor.variables) > 1:\n                for v in factor.variables:\n                    variables_ordered_set[v] = None\n"))
B("P05", "stack: num_factors of the parameters' first axis", (STACK, "num_factors=len(factors),", "num_factors=len(set(f.variables for f in factors)),"))
B("P06", "coords: rows tiled instead of repeated", D(STACK, "FactorStack.compute_jacobian_coords", '''
@staticmethod
def compute_jacobian_coords(
    factors: Sequence[FactorType],
    local_storage_layout: StorageLayout,
    row_offset: int,
) -> List[sparse.SparseCooCoordinates]:
    """Computes Jacobian coordinates for a factor stack."""
    residual_dim = factors[0].get_residual_dim()
    output: List[sparse.SparseCooCoordinates] = []
    for i, canonical in enumerate(factors[0].variables):
        dim = canonical.get_local_parameter_dim()
        rows: List[int] = []
        cols: List[int] = []
        for n, factor in enumerate(factors):
            start = local_storage_layout.index_from_variable[factor.variables[i]]
            for c in range(dim):
                for r in range(residual_dim):
                    rows.append(row_offset + n * residual_dim + r)
                    cols.append(start + c)
        output.append(sparse.SparseCooCoordinates(rows=onp.array(rows), cols=onp.array(cols)))
    return output
'''))
B("P06", "coords: row base multiplied by variable dimension", D(STACK, "FactorStack.compute_jacobian_coords", '''
@staticmethod
def compute_jacobian_coords(
    factors: Sequence[FactorType],
    local_storage_layout: StorageLayout,
    row_offset: int,
) -> List[sparse.SparseCooCoordinates]:
    """Computes Jacobian coordinates for a factor stack."""
    residual_dim = factors[0].get_residual_dim()
    output: List[sparse.SparseCooCoordinates] = []
    for i, canonical in enumerate(factors[0].variables):
        dim = canonical.get_local_parameter_dim()
        rows: List[int] = []
        cols: List[int] = []
        for n, factor in enumerate(factors):
            start = local_storage_layout.index_from_variable[factor.variables[i]]
            for r in range(residual_dim):
                for c in range(dim):
                    rows.append(row_offset + n * dim + r)
                    cols.append(start + c)
        output.append(sparse.SparseCooCoordinates(rows=onp.array(rows), cols=onp.array(cols)))
    return output
'''))
B("P06", "coords: repeat and tile mixed up for columns", D(STACK, "FactorStack.compute_jacobian_coords", '''
@staticmethod
def compute_jacobian_coords(
    factors: Sequence[FactorType],
    local_storage_layout: StorageLayout,
    row_offset: int,
) -> List[sparse.SparseCooCoordinates]:
    """Computes Jacobian coordinates for a factor stack."""
    residual_dim = factors[0].get_residual_dim()
    num_factors = len(factors)
    output: List[sparse.SparseCooCoordinates] = []
    for i, canonical in enumerate(factors[0].variables):
        dim = canonical.get_local_parameter_dim()
        starts = onp.array([local_storage_layout.index_from_variable[f.variables[i]] for f in factors])
        cols = onp.repeat((starts[:, None] + onp.arange(dim)[None, :]).reshape(-1), residual_dim)
        rows = row_offset + onp.repeat(onp.arange(num_factors * residual_dim), dim)
        output.append(sparse.SparseCooCoordinates(rows=rows, cols=cols))
    return output
'''))
B("P06", "graph: offset computed before the loop from factors", (GRAPH, "residual_offset += stacked_factors[-1].get_residual_dim()", "residual_offset += group[0].get_residual_dim() * len(group[0].variables)"))
B("P06", "jacobian: values concatenated variable by variable after all stacks", D(GRAPH, "StackedFactorGraph.compute_whitened_residual_jacobian", '''
@jdc.jit
def compute_whitened_residual_jacobian(
    self,
    assignments: VariableAssignments,
    residual_vector: hints.Array,
) -> sparse.SparseCooMatrix:
    """Jacobian."""
    assignments = assignments.update_storage_layout(self.storage_layout)
    values: List[jnp.ndarray] = []
    start = 0
    for stack in self.factor_stacks:
        noise = stack.factor.noise_model
        dim = stack.factor.get_residual_dim()
        end = start + stack.get_residual_dim()
        block = residual_vector[start:end].reshape((stack.num_factors, dim))
        whitened = [
            jax.vmap(type(noise).whiten_jacobian)(noise, jacobian, residual_vector=block)
            for jacobian in stack.compute_residual_jacobian(assignments)
        ]
        values.append(jnp.concatenate(whitened, axis=-1).flatten())
        start = end
    return sparse.SparseCooMatrix(
        values=jnp.concatenate(values),
        coords=self.jacobian_coords,
        shape=(self.residual_dim, self.local_storage_layout.dim),
    )
'''))
B("P07", "residual: preallocated with strides of the first stack", D(GRAPH, "StackedFactorGraph.compute_whitened_residual_vector", '''
@jdc.jit
def compute_whitened_residual_vector(
    self, assignments: VariableAssignments
) -> jnp.ndarray:
    """Residuals."""
    assignments = assignments.update_storage_layout(self.storage_layout)
    pieces = []
    for stack in self.factor_stacks:
        noise = stack.factor.noise_model
        residuals = stack.compute_residual_vector(assignments)
        pieces.append(jax.vmap(noise.whiten_residual_vector)(residuals).flatten())
    return jnp.concatenate(pieces, axis=0)
'''))
B("P07", "nll: slogdet sign instead of log", D(GRAPH, "StackedFactorGraph.compute_joint_nll", '''
@jdc.jit
def compute_joint_nll(
    self,
    assignments: VariableAssignments,
    include_constants: bool = False,
) -> jnp.ndarray:
    """NLL."""
    if include_constants:
        raise NotImplementedError()
    joint_nll, _ = self.compute_cost(assignments)
    for stack in self.factor_stacks:
        noise = stack.factor.noise_model
        if isinstance(noise, noises.Gaussian):
            sign, logdet = jnp.linalg.slogdet(noise.sqrt_precision_matrix)
            terms = -2.0 * sign * logdet
        elif isinstance(noise, noises.DiagonalGaussian):
            terms = -2.0 * jnp.sum(jnp.log(jnp.abs(noise.sqrt_precision_diagonal)), axis=-1)
        else:
            assert False, "unsupported"
        joint_nll = joint_nll + jnp.sum(terms)
    return joint_nll
'''))
B("P07", "nll: diagonal logs summed over all but one", D(GRAPH, "StackedFactorGraph.compute_joint_nll", '''
@jdc.jit
def compute_joint_nll(
    self,
    assignments: VariableAssignments,
    include_constants: bool = False,
) -> jnp.ndarray:
    """NLL."""
    if include_constants:
        raise NotImplementedError()
    joint_nll, _ = self.compute_cost(assignments)
    for stack in self.factor_stacks:
        noise = stack.factor.noise_model
        if isinstance(noise, noises.Gaussian):
            logdet = jnp.linalg.slogdet(noise.sqrt_precision_matrix)[1]
            joint_nll = joint_nll - 2.0 * jnp.sum(logdet)
        elif isinstance(noise, noises.DiagonalGaussian):
            joint_nll = joint_nll - jnp.sum(jnp.log(jnp.abs(noise.sqrt_precision_diagonal)))
        else:
            assert False, "unsupported"
    return joint_nll
'''))
B("P07", "nll: logdet of the first Gaussian stack reused", D(GRAPH, "StackedFactorGraph.compute_joint_nll", '''
@jdc.jit
def compute_joint_nll(
    self,
    assignments: VariableAssignments,
    include_constants: bool = False,
) -> jnp.ndarray:
    """NLL."""
    if include_constants:
        raise NotImplementedError()
    terms = [self.compute_cost(assignments)[0]]
    for stack in self.factor_stacks:
        noise = stack.factor.noise_model
        if isinstance(noise, noises.Gaussian):
            terms.append(-2.0 * jnp.sum(jnp.log(jnp.abs(jnp.linalg.det(noise.sqrt_precision_matrix)))))
        elif isinstance(noise, noises.DiagonalGaussian):
            terms.append(-2.0 * jnp.log(jnp.abs(jnp.sum(jnp.prod(noise.sqrt_precision_diagonal, axis=-1)))))
        else:
            assert False, "unsupported"
    return sum(terms[1:], terms[0])
'''))
B("P08", "gn: gradient built from dense matrix of wrong residual", (GN, "ATb = -(A.T @ state_prev.residual_vector)", "ATb = -(A.T @ graph.compute_whitened_residual_vector(state_prev.assignments.update_storage_layout(graph.storage_layout)) / 2.0)"))
B("P08", "fixed: warm residual from the new cost of old state", D(FX, "FixedIterationGaussNewtonSolver._step", '''
@overrides
def _step(
    self,
    graph: "StackedFactorGraph",
    state_prev: NonlinearSolverState,
) -> NonlinearSolverState:
    """One step."""
    self._hcb_print(
        lambda i, cost: f"Iteration #{i}: cost={str(cost)}",
        i=state_prev.iterations,
        cost=state_prev.cost,
    )
    r = state_prev.residual_vector
    A = graph.compute_whitened_residual_jacobian(state_prev.assignments, r)
    delta = self.linear_solver.solve_subproblem(A, -(A.T @ r), 0.0, state_prev.iterations)
    assignments = state_prev.assignments.manifold_retract(
        VariableAssignments(storage=delta, storage_layout=graph.local_storage_layout)
    )
    cost, _ = graph.compute_cost(assignments)
    return NonlinearSolverState(
        iterations=state_prev.iterations + 1,
        assignments=assignments,
        cost=cost,
        residual_vector=r + A @ delta,
        done=state_prev.iterations >= (self.iterations - 1),
    )
'''))
B("P09", "lm: acceptance with select_n of tree keeps cost", D(LM, "LevenbergMarquardtSolver._step", '''
@overrides
def _step(
    self,
    graph: "StackedFactorGraph",
    state_prev: _LevenbergMarquardtState,
) -> _LevenbergMarquardtState:
    self._hcb_print(
        lambda i, max_i, cost, lambd: f"Iteration #{i}/{max_i}: cost={str(cost).ljust(15)} lambda={str(lambd)}",
        i=state_prev.iterations,
        max_i=self.max_iterations,
        cost=state_prev.cost,
        lambd=state_prev.lambd,
    )
    A = graph.compute_whitened_residual_jacobian(state_prev.assignments, state_prev.residual_vector)
    ATb = -(A.T @ state_prev.residual_vector)
    step = self.linear_solver.solve_subproblem(A=A, ATb=ATb, lambd=state_prev.lambd, iteration=state_prev.iterations)
    delta = VariableAssignments(storage=step, storage_layout=graph.local_storage_layout)
    proposed = state_prev.assignments.manifold_retract(delta)
    cost, residual = graph.compute_cost(proposed)
    quality = self.compute_step_quality(A, cost, state_prev, step)
    accept = quality >= self.step_quality_min
    storage, cost_new = jax.tree_map(
        lambda new, old: jnp.where(accept, new, old),
        (proposed.storage, cost),
        (state_prev.assignments.storage, state_prev.cost),
    )
    done = self.check_exceeded_max_iterations(state_prev) | (
        accept & self.check_convergence(state_prev, cost, delta, ATb)
    )
    return _LevenbergMarquardtState(
        iterations=state_prev.iterations + 1,
        assignments=jdc.replace(state_prev.assignments, storage=storage),
        cost=cost_new,
        residual_vector=residual,
        done=done,
        lambd=jnp.where(
            accept,
            state_prev.lambd / self.lambda_factor,
            jnp.clip(state_prev.lambd * self.lambda_factor, self.lambda_min, self.lambda_max),
        ),
    )
'''), (LM, "import jax_dataclasses as jdc", "import jax\nimport jax_dataclasses as jdc"))
B("P11", "lm: clip on both branches", (LM, "state_prev.lambd / self.lambda_factor,", "jnp.maximum(state_prev.lambd / self.lambda_factor, self.lambda_min),"))
B("P11", "lm: damping scaled by power of accept", D(LM, "LevenbergMarquardtSolver._step", '''
@overrides
def _step(
    self,
    graph: "StackedFactorGraph",
    state_prev: _LevenbergMarquardtState,
) -> _LevenbergMarquardtState:
    A = graph.compute_whitened_residual_jacobian(state_prev.assignments, state_prev.residual_vector)
    ATb = -(A.T @ state_prev.residual_vector)
    step = self.linear_solver.solve_subproblem(A=A, ATb=ATb, lambd=state_prev.lambd, iteration=state_prev.iterations)
    delta = VariableAssignments(storage=step, storage_layout=graph.local_storage_layout)
    proposed = state_prev.assignments.manifold_retract(delta)
    cost, residual = graph.compute_cost(proposed)
    quality = self.compute_step_quality(A, cost, state_prev, step)
    accept = quality >= self.step_quality_min

    def keep(new, old):
        return jnp.where(accept, new, old)

    lambd = state_prev.lambd * jnp.where(accept, 1.0 / self.lambda_factor, self.lambda_factor)
    return _LevenbergMarquardtState(
        iterations=state_prev.iterations + 1,
        assignments=jdc.replace(state_prev.assignments, storage=keep(proposed.storage, state_prev.assignments.storage)),
        cost=keep(cost, state_prev.cost),
        residual_vector=keep(residual, state_prev.residual_vector),
        done=self.check_exceeded_max_iterations(state_prev)
        | (accept & self.check_convergence(state_prev, cost, delta, ATb)),
        lambd=jnp.minimum(lambd, self.lambda_max),
    )
'''))
B("P10", "dogleg: blend with beta from the larger root always", (DL, '''            beta = jnp.where(
                c <= 0,
                (-c + sqrt_c_sq_plus) / b_minus_a_norm_sq,
                radius_sq_minus_a_norm_sq / (c + sqrt_c_sq_plus),
            )
''', '''            beta = (-c + sqrt_c_sq_plus) / jnp.maximum(b_minus_a_norm_sq, 1e-3)
'''))
B("P10", "dogleg: helper for radius uses quality of magnitude", (DL, '''        radius = jnp.where(
            step_quality < 0.25,''', '''        radius = jnp.where(
            jnp.abs(step_quality) < 0.25,'''))
B("P10", "dogleg: select with conditions reordered", (DL, '''            return jnp.where(
                # Use GN if it's within trust region
                norm_gn <= state_prev.radius,
                step_vector_gn,
                jnp.where(
                    # Use normed SD if neither are within trust region
                    norm_sd >= state_prev.radius,
                    state_prev.radius / norm_sd * a,
                    a + beta * (step_vector_gn - a),
                ),
            )
''', '''            return jnp.select(
                [norm_sd >= state_prev.radius, norm_gn <= state_prev.radius],
                [state_prev.radius / norm_sd * a, step_vector_gn],
                a + beta * (step_vector_gn - a),
            )
'''))
B("P12", "termination: logical_or of two only", D(MX, "_TerminationCriteriaMixin.check_convergence", '''
@jax.jit
def check_convergence(
    self,
    state_prev: NonlinearSolverState,
    cost_updated: hints.Scalar,
    local_delta_assignments: VariableAssignments,
    negative_gradient: hints.Array,
) -> jax.Array:
    """Check for convergence!"""
    relative = jnp.abs(cost_updated - state_prev.cost) / state_prev.cost
    moved = state_prev.assignments.manifold_retract(
        jdc.replace(local_delta_assignments, storage=negative_gradient)
    ).storage
    gradient = jnp.linalg.norm(state_prev.assignments.storage - moved, ord=jnp.inf)
    step = jnp.linalg.norm(local_delta_assignments.storage)
    size = jnp.linalg.norm(state_prev.assignments.storage)
    return (
        (relative < self.cost_tolerance)
        | ((state_prev.iterations > self.gradient_tolerance_start_step) & (gradient < self.gradient_tolerance))
        | (step < self.parameter_tolerance * (size + self.parameter_tolerance))
    )
'''))
B("P12", "termination: per-variable step test", D(MX, "_TerminationCriteriaMixin.check_convergence", '''
@jax.jit
def check_convergence(
    self,
    state_prev: NonlinearSolverState,
    cost_updated: hints.Scalar,
    local_delta_assignments: VariableAssignments,
    negative_gradient: hints.Array,
) -> jax.Array:
    """Check for convergence!"""
    x = state_prev.assignments.storage
    moved = state_prev.assignments.manifold_retract(
        jdc.replace(local_delta_assignments, storage=negative_gradient)
    ).storage
    by_cost = jnp.abs(cost_updated - state_prev.cost) < self.cost_tolerance * state_prev.cost
    by_gradient = (state_prev.iterations >= self.gradient_tolerance_start_step) & (
        jnp.max(jnp.abs(x - moved)) < self.gradient_tolerance
    )
    by_step = jnp.linalg.norm(local_delta_assignments.storage) < (
        jnp.linalg.norm(x) * self.parameter_tolerance + self.parameter_tolerance
    )
    return by_cost | by_gradient | by_step
'''))
B("P12", "fixed: fori_loop bounds", (FX, '''            for i in range(self.iterations):
                state = self._step(graph, state)
''', '''            for i in range(1, self.iterations):
                state = self._step(graph, state)
'''))
B("P12", "base: loop also bounded by a stall counter", (NB, "cond_fun=lambda state: jnp.logical_not(state.done),", "cond_fun=lambda state: jnp.logical_not(state.done) & jnp.isfinite(state.cost),"))
B("P13", "solve: restores layout only when dims differ", (NB, '''        return state.assignments.update_storage_layout(
            initial_assignments.storage_layout
        )''', '''        if graph.storage_layout.dim == initial_assignments.storage_layout.dim:
            return state.assignments
        return state.assignments.update_storage_layout(
            initial_assignments.storage_layout
        )'''))
B("P13", "solve: result storage relabelled by replace", (FX, '''        return state.assignments.update_storage_layout(
            initial_assignments.storage_layout
        )''', '''        return jdc.replace(
            state.assignments, storage_layout=initial_assignments.storage_layout
        )'''))
B("P14", "matmul by segment_sum over columns", D(COO, "SparseCooMatrix.__matmul__", '''
def __matmul__(self, other: hints.Array):
    """Compute `Ax`, where `x` is a 1D vector."""
    assert other.shape == (self.shape[1],)
    return jax.ops.segment_sum(
        self.values * other[self.coords.cols], self.coords.rows, num_segments=self.shape[1]
    )
'''), (COO, "import jax_dataclasses as jdc", "import jax\nimport jax_dataclasses as jdc"))
B("P14", "matmul with unique rows", D(COO, "SparseCooMatrix.__matmul__", '''
def __matmul__(self, other: hints.Array):
    """Compute `Ax`, where `x` is a 1D vector."""
    assert other.shape == (self.shape[1],)
    products = self.values * other[self.coords.cols]
    output = jnp.zeros(self.shape[0], dtype=other.dtype)
    return output.at[self.coords.rows].set(output[self.coords.rows] + products)
'''))
B("P14", "dense through transposed scatter", D(COO, "SparseCooMatrix.as_dense", '''
def as_dense(self) -> jnp.ndarray:
    """Dense."""
    flat = jnp.zeros(self.shape[0] * self.shape[1])
    flat = flat.at[self.coords.rows * self.shape[0] + self.coords.cols].add(self.values)
    return flat.reshape(self.shape)
'''))
B("P14", "from scipy through csr", D(COO, "SparseCooMatrix.from_scipy_coo_matrix", '''
@staticmethod
def from_scipy_coo_matrix(matrix: scipy.sparse.coo_matrix) -> "SparseCooMatrix":
    """Build from a sparse scipy matrix."""
    keep = matrix.data != 0
    return SparseCooMatrix(
        values=matrix.data[keep],
        coords=SparseCooCoordinates(rows=matrix.row[keep], cols=matrix.col[keep]),
        shape=matrix.shape,
    )
'''))
B("P15", "cg: preconditioner includes damping, operator does not", (LIN, "return ATAx + lambd * ATA_diagonals * x\n", "return ATAx + lambd * jnp.mean(ATA_diagonals) * x\n"))
B("P15", "cg: Jacobi from dense product", (LIN, "return x / ATA_diagonals", "return x / jnp.sqrt(ATA_diagonals)"))
B("P15", "cholmod: key by shape and nnz", (LIN, "            A_T_scipy.indptr.tobytes(),\n            A_T_scipy.indices.tobytes(),\n", "            A_T_scipy.nnz,\n            A_T_scipy.indptr.tobytes(),\n"))
B("P15", "cholmod: numeric factor cached with pattern", (LIN, '''        if cache_key not in _cholmod_analyze_cache:
            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)

        # Factorize and solve
        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
            A_T_scipy,
            beta=args.lambd
            + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
        )
''', '''        if cache_key not in _cholmod_analyze_cache:
            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.cholesky_AAt(
                A_T_scipy, beta=args.lambd + 1e-5
            )
'''))
B("P16", "gaussian: solve triangular instead of product", D(GAUSS, "Gaussian.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,  # Unused
) -> hints.Array:
    return jnp.einsum("ji,jk->ik", self.sqrt_precision_matrix, jacobian)
'''))
B("P16", "gaussian: cholesky of the inverse", D(GAUSS, "Gaussian.make_from_covariance", '''
@staticmethod
def make_from_covariance(covariance: hints.Array) -> "Gaussian":
    assert len(covariance.shape) == 2 and covariance.shape[0] == covariance.shape[1]
    return Gaussian(sqrt_precision_matrix=jnp.linalg.cholesky(jnp.linalg.inv(covariance)))
'''))
B("P16", "diagonal: jacobian by multiply from the right", D(GAUSS, "DiagonalGaussian.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,  # Unused
) -> hints.Array:
    return jnp.einsum("i,ji->ji", self.sqrt_precision_diagonal, jacobian)
'''))
B("P16", "diagonal: power minus a half of clipped", D(GAUSS, "DiagonalGaussian.make_from_covariance", '''
@staticmethod
def make_from_covariance(
    diagonal: Union[hints.Array, Sequence[float]],
) -> "DiagonalGaussian":
    return DiagonalGaussian(sqrt_precision_diagonal=jnp.asarray(diagonal) ** -1)
'''))
B("P17", "huber: weight by min with linear ratio", D(HUBER, "HuberWrapper.whiten_residual_vector", '''
@overrides
def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
    whitened = self.wrapped.whiten_residual_vector(residual_vector)
    weight = jnp.minimum(1.0, self.delta / jnp.linalg.norm(whitened))
    return whitened * weight
'''))
B("P17", "huber: jacobian weight square root twice", D(HUBER, "HuberWrapper.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,
) -> hints.Array:
    norm = jnp.linalg.norm(residual_vector)
    weight = jnp.sqrt(self.delta / jnp.maximum(norm, self.delta))
    return weight * self.wrapped.whiten_jacobian(jacobian, residual_vector)
'''))
B("P18", "default jacobian: one jacfwd per variable with wrong argument", D(FACTOR, "FactorBase.compute_residual_jacobians", '''
def compute_residual_jacobians(
    self, variable_values: VariableValueTuple
) -> Tuple[jnp.ndarray, ...]:
    """Jacobians."""
    output = []
    for i, v in enumerate(self.variables):
        def residual_of_delta(delta, i=i, v=v):
            values = list(variable_values)
            values[0] = v.manifold_retract(values[i], delta)
            return self.compute_residual_vector(type(variable_values)(*values))
        output.append(jax.jacfwd(residual_of_delta)(jnp.zeros(v.get_local_parameter_dim())))
    return tuple(output)
'''))
B("P18", "between: analytic jacobian with a and b exchanged", D(GEO, "BetweenFactor.compute_residual_jacobians", '''
@overrides
def compute_residual_jacobians(
    self, variable_values: BetweenValueTuple
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    T_world_a, T_world_b = variable_values
    eye = jnp.eye(type(T_world_a).tangent_dim)
    return ((T_world_b.inverse() @ T_world_a).inverse().adjoint(), -eye)
'''))
B("P19", "lie: retraction by two exponentials", D(LIE, "LieVariableBase.manifold_retract", '''
@classmethod
@final
@overrides
def manifold_retract(cls, x: T, local_delta: hints.LocalVariableValue) -> T:
    group = cls.get_group_type()
    return x @ group.exp(x.adjoint() @ local_delta)
'''))
B("P19", "lie: retraction left", D(LIE, "LieVariableBase.manifold_retract", '''
@classmethod
@final
@overrides
def manifold_retract(cls, x: T, local_delta: hints.LocalVariableValue) -> T:
    return type(x).exp(local_delta).multiply(x)
'''))
B("P20", "covariance: column solve with L instead of its transpose", D(COV, "SparseCovariance.as_dense", '''
def as_dense(self, use_inverse: bool = True) -> onp.ndarray:
    """Dense."""
    if use_inverse:
        L = self.L.toarray()
        return onp.linalg.inv(L.T @ L)
    return self._compute_marginal(range(self.local_storage_layout.dim))
'''))
B("P20", "covariance: marginal by slices of storage", D(COV, "SparseCovariance.compute_marginal", '''
def compute_marginal(self, *variables: core.VariableBase) -> onp.ndarray:
    """Marginal."""
    first = min(self.local_storage_layout.index_from_variable[v] for v in variables)
    total = sum(v.get_local_parameter_dim() for v in variables)
    return self._compute_marginal(range(first, first + total))
'''))
B("P20", "covariance: cached sums per column", D(COV, "SparseCovariance._sum_over_col", '''
def _sum_over_col(self, col: int, col_l: int) -> float:
    column: scipy.sparse.csc_matrix = self.L.getcol(col)
    total: float = 0.0
    for row, val in zip(column.indices, column.data):
        if row > col and row <= col_l:
            total += val * self[row, col_l]
    return total
'''))
B("P23", "variables: flatten by concatenated leaves in tuple order", D(VARS, "VariableBase.flatten", '''
@staticmethod
@final
def flatten(x: VariableValueType) -> jnp.ndarray:
    """Flatten."""
    return jnp.concatenate([jnp.ravel(leaf, order="F") for leaf in jax.tree_leaves(x)])
'''))
B("P23", "variables: canonical instance in a dict by qualified name", D(VARS, "VariableBase.canonical_instance", '''
@classmethod
def canonical_instance(cls: Type[VariableType]) -> VariableType:
    """Canonical."""
    key = (cls.__module__, cls.__qualname__)
    if key not in _canonical:
        _canonical[key] = cls()
    return _canonical[key]
'''), (VARS, "class VariableBase(", "_canonical = {}\n\n\nclass VariableBase("))
B("P23", "variables: canonical instance inherited through attribute", D(VARS, "VariableBase.canonical_instance", '''
@classmethod
def canonical_instance(cls: Type[VariableType]) -> VariableType:
    """Canonical."""
    if not hasattr(cls, "_canonical"):
        cls._canonical = cls()
    return cls._canonical
'''))
B("P24", "inputs: isinstance of whole tuple by any", (FACTOR, '''        for i, (value, expected_type) in enumerate(
            zip(variable_values, tuple_content_types)
        ):
            assert isinstance(value, expected_type), (
                f"Variable value type hint inconsistency: expected {expected_type} at, "
                f"position {i} but got {type(value)}."
            )
''', '''        assert all(
            isinstance(value, expected_type)
            for value, expected_type in zip(variable_values[1:], tuple_content_types)
        )
'''))
B("P24", "inputs: values from assignments by layout order", (FACTOR, "tuple(assignments.get_value(v) for v in self.variables)", "tuple(\n                assignments.get_value(v)\n                for v in assignments.get_variables()\n                if v in self.variables\n            )"))
B("P25", "g2o: table of parsers with 2D pose of (y, x)", (G2O, "initial_poses[variable] = jaxlie.SE2.from_xy_theta(x, y, theta)", "initial_poses[variable] = jaxlie.SE2.from_rotation_and_translation(\n                jaxlie.SO2.from_radians(theta), onp.array([y, x])\n            )"))
B("P25", "g2o: 3D vertex by unnormalised sign", (G2O, "[qw, qx, qy, qz, x, y, z]", "[qw, qx, qy, -qz, x, y, z]"))
B("P26", "hcb_print ignores flag for keyword messages", (NB, "        if not self.verbose:\n            return\n", "        if not self.verbose and args:\n            return\n"))
B("P27", "solver: early exit with cond on host", (GN, "        # Linearize graph\n", "        if float(state_prev.cost) == 0.0:\n            return state_prev\n\n        # Linearize graph\n"))
