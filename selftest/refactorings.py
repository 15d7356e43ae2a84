"""Behaviour-preserving rewrites, most of them of whole functions: nothing may be reported for these."""

from cases import R

C, S = "jaxfg/core/", "jaxfg/solvers/"
LAYOUT, ASSIGN, VARS = C + "_storage_layout.py", C + "_variable_assignments.py", C + "_variables.py"
FACTOR, STACK, GRAPH = C + "_factor_base.py", C + "_factor_stack.py", C + "_stacked_factor_graph.py"
LM, DL, GN, FX = S + "_levenberg_marquardt_solver.py", S + "_dogleg_solver.py", S + "_gauss_newton_solver.py", S + "_fixed_iteration_gauss_newton_solver.py"
MX, NB = S + "_mixins.py", S + "_nonlinear_solver_base.py"
LIN, COO = "jaxfg/sparse/_linear_solve.py", "jaxfg/sparse/_sparse_matrix.py"
GAUSS, HUBER = "jaxfg/noises/_gaussians.py", "jaxfg/noises/_huber.py"
COV = "jaxfg/experimental/_sparse_covariance.py"
LIE, GEO = "jaxfg/geometry/_lie_variables.py", "jaxfg/geometry/_factors.py"


def D(rel, qual, new):
    """Replace one definition."""
    return rel, ("def", qual), new


# ---- layouts

R("layout: one pass per type with a helper", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""

    def dim_of(v: VariableBase) -> int:
        if local:
            return v.get_local_parameter_dim()
        return v.get_parameter_dim()

    buckets: Dict[Type[VariableBase], List[VariableBase]] = {}
    for v in variables:
        buckets.setdefault(type(v), []).append(v)

    starts: Dict[VariableBase, int] = {}
    type_starts: Dict[Type[VariableBase], int] = {}
    counts: Dict[Type[VariableBase], int] = {}
    offset = 0
    for kind in buckets:
        members = buckets[kind]
        counts[kind] = len(members)
        type_starts[kind] = offset
        for v in members:
            starts[v] = offset
            offset = offset + dim_of(v)

    return StorageLayout(
        local,
        offset,
        frozendict(starts),
        frozendict(type_starts),
        frozendict(counts),
    )
'''))
R("layout: type offsets from counts", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    variables_from_type = DefaultDict(list)
    for variable in variables:
        variables_from_type[type(variable)].append(variable)

    index_from_variable: Dict[VariableBase, int] = {}
    index_from_variable_type: Dict[Type[VariableBase], int] = {}
    storage_index = 0
    for variable_type, members in variables_from_type.items():
        dim = (
            variable_type.get_local_parameter_dim()
            if local
            else variable_type.get_parameter_dim()
        )
        index_from_variable_type[variable_type] = storage_index
        for i, variable in enumerate(members):
            index_from_variable[variable] = storage_index + i * dim
        storage_index += dim * len(members)

    return StorageLayout(
        local_flag=local,
        dim=storage_index,
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(index_from_variable_type),
        count_from_variable_type=frozendict(
            {k: len(v) for k, v in variables_from_type.items()}
        ),
    )
'''))
R("layout: get_variables through a list", D(LAYOUT, "StorageLayout.get_variables", '''
def get_variables(self) -> Collection[VariableBase]:
    """Variables. Storage indices are guaranteed to be in ascending order."""
    return list(self.index_from_variable)
'''))
R("layout: counts first with a Counter-like loop", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    grouped: Dict[Type[VariableBase], List[VariableBase]] = {}
    for variable in variables:
        key = type(variable)
        if key not in grouped:
            grouped[key] = []
        grouped[key].append(variable)

    index_from_variable = {}
    index_from_variable_type = {}
    count_from_variable_type = {}
    position = 0
    for variable_type, group in grouped.items():
        index_from_variable_type[variable_type] = position
        count_from_variable_type[variable_type] = len(group)
        for variable in group:
            index_from_variable[variable] = position
            if local:
                position += variable.get_local_parameter_dim()
            else:
                position += variable.get_parameter_dim()

    return StorageLayout(
        dim=position,
        local_flag=local,
        index_from_variable=frozendict(index_from_variable),
        count_from_variable_type=frozendict(count_from_variable_type),
        index_from_variable_type=frozendict(index_from_variable_type),
    )
'''))

# ---- assignments

R("defaults: repeat by list multiplication", D(ASSIGN, "VariableAssignments.make_from_defaults", '''
@staticmethod
def make_from_defaults(variables: Iterable[VariableBase]) -> "VariableAssignments":
    """Create an assignment object from the default values corresponding to each variable."""
    layout = StorageLayout.make(variables)
    parts = []
    for variable_type in layout.get_variable_types():
        default = jax.jit(variable_type.flatten)(variable_type.get_default_value())
        parts.extend([default] * layout.count_from_variable_type[variable_type])
    storage = jnp.concatenate(parts, axis=0)
    assert storage.shape == (layout.dim,)
    return VariableAssignments(storage=storage, storage_layout=layout)
'''))
R("defaults: through the partial dictionary", D(ASSIGN, "VariableAssignments.make_from_defaults", '''
@staticmethod
def make_from_defaults(variables: Iterable[VariableBase]) -> "VariableAssignments":
    """Create an assignment object from the default values corresponding to each variable."""
    return VariableAssignments.make_from_partial_dict(variables, {})
'''))
R("partial dictionary: loop and get", D(ASSIGN, "VariableAssignments.make_from_partial_dict", '''
@staticmethod
def make_from_partial_dict(
    variables: Iterable[VariableBase],
    assignments: Dict[VariableBase, hints.VariableValue],
) -> "VariableAssignments":
    """Create an assignment object from a variables and assignments. Missing
    assignments are assigned the default variable values."""

    storage_layout = StorageLayout.make(variables, local=False)
    if assignments is None:
        assignments = {}

    flat_values = []
    for variable in storage_layout.get_variables():
        if variable in assignments:
            value = assignments[variable]
        else:
            value = variable.get_default_value()
        flat_values.append(jax.jit(variable.flatten)(value))
    storage = jnp.concatenate(flat_values, axis=0)
    assert storage.shape == (storage_layout.dim,)

    return VariableAssignments(storage=storage, storage_layout=storage_layout)
'''))
R("convert: gather per variable", D(ASSIGN, "VariableAssignments.update_storage_layout", '''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Returns a new assignments object representing the same variable->value
    mapping, but with an updated storage layout."""
    source = self.storage_layout
    if source == storage_layout:
        return self

    assert source.dim == storage_layout.dim
    assert source.local_flag == storage_layout.local_flag
    assert set(source.get_variables()) == set(storage_layout.get_variables())

    pieces = []
    for variable in storage_layout.get_variables():
        start = source.index_from_variable[variable]
        if source.local_flag:
            width = variable.get_local_parameter_dim()
        else:
            width = variable.get_parameter_dim()
        pieces.append(self.storage[start : start + width])
    return VariableAssignments(
        storage=jnp.concatenate(pieces, axis=0), storage_layout=storage_layout
    )
'''))
R("convert: index list", D(ASSIGN, "VariableAssignments.update_storage_layout", '''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Returns a new assignments object representing the same variable->value
    mapping, but with an updated storage layout."""
    if self.storage_layout == storage_layout:
        return self

    assert self.storage_layout.dim == storage_layout.dim
    assert self.storage_layout.local_flag == storage_layout.local_flag
    assert set(self.storage_layout.get_variables()) == set(
        storage_layout.get_variables()
    )

    shuffle_indices = []
    for variable in storage_layout.get_variables():
        source_index = self.storage_layout.index_from_variable[variable]
        variable_dim = (
            variable.get_local_parameter_dim()
            if storage_layout.local_flag
            else variable.get_parameter_dim()
        )
        shuffle_indices.extend(range(source_index, source_index + variable_dim))

    new_storage = self.storage[jnp.array(shuffle_indices)]
    assert new_storage.shape == self.storage.shape
    return VariableAssignments(storage=new_storage, storage_layout=storage_layout)
'''))
R("get value: dim local", D(ASSIGN, "VariableAssignments.get_value", '''
def get_value(self, variable: VariableBase[VariableValueType]) -> VariableValueType:
    """Get value corresponding to specific variable."""
    cls = type(variable)
    start = self.storage_layout.index_from_variable[variable]
    stop = start + cls.get_parameter_dim()
    return cls.unflatten(self.storage[start:stop])
'''))
R("stacked value: reshape with -1", D(ASSIGN, "VariableAssignments.get_stacked_value", '''
def get_stacked_value(
    self, variable_type: Type[VariableBase[VariableValueType]]
) -> VariableValueType:
    """Get values of all variables corresponding to a specific type."""
    layout = self.storage_layout
    dim = variable_type.get_parameter_dim()
    start = layout.index_from_variable_type[variable_type]
    flat = self.storage[start : start + dim * layout.count_from_variable_type[variable_type]]
    return jax.vmap(variable_type.unflatten)(flat.reshape((-1, dim)))
'''))
R("set value: replace", D(ASSIGN, "VariableAssignments.set_value", '''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    start = self.storage_layout.index_from_variable[variable]
    stop = start + variable.get_parameter_dim()
    storage = jnp.asarray(self.storage)
    return jdc.replace(
        self, storage=storage.at[start:stop].set(variable.flatten(value))
    )
'''))
R("retract: one function per value", D(ASSIGN, "VariableAssignments.manifold_retract", '''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""
    layout = self.storage_layout
    local_layout = local_delta_assignments.storage_layout
    assert not layout.local_flag
    assert local_layout.local_flag

    updated = []
    for variable_type in layout.get_variable_types():
        count = layout.count_from_variable_type[variable_type]
        start = layout.index_from_variable_type[variable_type]
        local_start = local_layout.index_from_variable_type[variable_type]
        dim = variable_type.get_parameter_dim()
        local_dim = variable_type.get_local_parameter_dim()

        def retract_one(flat, delta, variable_type=variable_type):
            value = variable_type.unflatten(flat)
            return variable_type.flatten(variable_type.manifold_retract(value, delta))

        updated.append(
            jax.vmap(retract_one)(
                self.storage[start : start + count * dim].reshape((count, dim)),
                local_delta_assignments.storage[
                    local_start : local_start + count * local_dim
                ].reshape((count, local_dim)),
            ).flatten()
        )

    return VariableAssignments(
        storage=jnp.concatenate(updated, axis=0), storage_layout=layout
    )
'''))
R("as_dict: loop", D(ASSIGN, "VariableAssignments.as_dict", '''
def as_dict(self) -> Dict[VariableBase, hints.VariableValue]:
    """Grab assignments as a variable -> value dictionary."""
    output = {}
    for variable in self.storage_layout.get_variables():
        output[variable] = self.get_value(variable)
    return output
'''))
R("repr: loop", D(ASSIGN, "VariableAssignments.__repr__", '''
def __repr__(self) -> str:
    lines = []
    for i, (variable, value) in enumerate(self.as_dict().items()):
        lines.append(f"    {i}.{type(variable).__name__}: {value}")
    return "VariableAssignments(\\n" + "\\n".join(lines) + "\\n)"
'''))

# ---- variables

R("variables: retraction jacobian by closure", D(VARS, "VariableBase.manifold_retract_jacobian", '''
@classmethod
def manifold_retract_jacobian(cls, x: VariableValueType) -> Tuple[jnp.ndarray, ...]:
    """Jacobian of the variable parameters with respect to the local
    parameterization, linearized around `local_delta=zero`. Returns a tuple of
    Jacobian matrices,  one for each leaf in the variable value pytree."""

    def leaves_from_delta(local_delta):
        return jax.tree_leaves(cls.manifold_retract(x, local_delta))

    return jax.jacfwd(leaves_from_delta)(onp.zeros(cls.get_local_parameter_dim()))
'''))
R("variables: subclass initialisation", D(VARS, "VariableBase.__init_subclass__", '''
def __init_subclass__(cls):
    """For non-abstract subclasses, we determine the parameter dimensionality and
    unflattening procedure from the example provided by `get_default_value()`."""
    if not inspect.isabstract(cls):
        flat, cls._unflatten = flatten_util.ravel_pytree(cls.get_default_value())
        assert len(flat.shape) == 1
        cls._parameter_dim = flat.shape[0]
'''))
R("variables: flatten takes the first", D(VARS, "VariableBase.flatten", '''
@staticmethod
@final
def flatten(x: VariableValueType) -> jnp.ndarray:
    """Flatten variable value to 1D array."""
    return flatten_util.ravel_pytree(x)[0]
'''))
R("variables: retract in steps", D(VARS, "VariableBase.manifold_retract", '''
@classmethod
def manifold_retract(
    cls, x: VariableValueType, local_delta: hints.LocalVariableValue
) -> VariableValueType:
    r"""Retract local delta to manifold."""
    flat = cls.flatten(x)
    updated = local_delta + flat
    return cls.unflatten(updated)
'''))

# ---- factors

R("factor: jacobians in a loop", D(FACTOR, "FactorBase.compute_residual_jacobians", '''
def compute_residual_jacobians(
    self, variable_values: VariableValueTuple
) -> Tuple[jnp.ndarray, ...]:
    """Compute Jacobian of residual with respect to local parameterization, by
    composing the residual computation Jacobian with the manifold retraction
    Jacobian."""
    assert len(self.variables) == len(variable_values)
    residual_dim = self.get_residual_dim()

    jacobians = []
    wrt_values = jax.jacfwd(self.compute_residual_vector)(variable_values)
    for variable, value, wrt_value in zip(self.variables, variable_values, wrt_values):
        local_dim = variable.get_local_parameter_dim()
        wrt_parameters = jnp.concatenate(
            [leaf.reshape((residual_dim, -1)) for leaf in jax.tree_leaves(wrt_value)],
            axis=-1,
        )
        parameters_wrt_local = jnp.concatenate(
            [
                leaf.reshape((-1, local_dim))
                for leaf in variable.manifold_retract_jacobian(value)
            ],
            axis=0,
        )
        jacobians.append(wrt_parameters @ parameters_wrt_local)
    return tuple(jacobians)
'''))
R("factor: values from assignments", D(FACTOR, "FactorBase.get_variable_values_from_assignments", '''
@final
def get_variable_values_from_assignments(
    self, assignments: VariableAssignments
) -> VariableValueTuple:
    """Prepare a set of variable values corresponding to this factor."""
    values = tuple(map(assignments.get_value, self.variables))
    return self.build_variable_value_tuple(values)
'''))
R("factor: ellipsis handled by zip", D(FACTOR, "FactorBase.anonymize_variables", '''
@final
def anonymize_variables(self: FactorType) -> FactorType:
    """Returns a copy of this factor with all variables replaced with their
    canonical instances. Used for factor stacking.
    """
    canonical = []
    for variable in self.variables:
        canonical.append(type(variable).canonical_instance())
    return jdc.replace(self, variables=tuple(canonical))
'''))

# ---- factor stacks

R("stack: indices by comprehension", D(STACK, "FactorStack.make", '''
@staticmethod
def make(
    factors: Sequence[FactorType],
    storage_layout: StorageLayout,
    use_onp: bool,
) -> "FactorStack[FactorType]":
    """Make a stacked factor."""
    numpy = onp if use_onp else jnp

    anonymized = [factor.anonymize_variables() for factor in factors]
    stacked_factor: FactorType = jax.tree_map(
        lambda *arrays: numpy.stack(arrays, axis=0), *anonymized
    )

    for factor in factors:
        for variable, reference in zip(factor.variables, factors[0].variables):
            assert isinstance(
                variable, type(reference)
            ), "Variable types of stacked factors must match"

    def indices_of(variable):
        start = storage_layout.index_from_variable[variable]
        return onp.arange(start, start + variable.get_parameter_dim())

    return FactorStack(
        num_factors=len(factors),
        factor=stacked_factor,
        value_indices=tuple(
            onp.array([indices_of(factor.variables[i]) for factor in factors])
            for i in range(len(stacked_factor.variables))
        ),
        storage_layout=storage_layout,
    )
'''))
R("stack: coordinates with ravel", (STACK, '''            coords = onp.stack(
                (
                    # Row indices.
                    onp.broadcast_to(
                        residual_indices[:, :, None],
                        (num_factors, residual_dim, variable_dim),
                    )
                    + row_offset,
                    # Column indices.
                    onp.broadcast_to(
                        local_value_indices_stacked[variable_index][:, None, :],
                        (num_factors, residual_dim, variable_dim),
                    ),
                ),
                axis=-1,
            ).reshape((num_factors * residual_dim * variable_dim, 2))

            jacobian_coords.append(
                sparse.SparseCooCoordinates(
                    rows=coords[:, 0],
                    cols=coords[:, 1],
                )
            )
''', '''            block = (num_factors, residual_dim, variable_dim)
            rows = onp.broadcast_to(residual_indices[:, :, None], block) + row_offset
            cols = onp.broadcast_to(
                local_value_indices_stacked[variable_index][:, None, :], block
            )
            jacobian_coords.append(
                sparse.SparseCooCoordinates(rows=rows.flatten(), cols=cols.flatten())
            )
'''))
R("stack: rows by repeat", (STACK, '''            coords = onp.stack(
                (
                    # Row indices.
                    onp.broadcast_to(
                        residual_indices[:, :, None],
                        (num_factors, residual_dim, variable_dim),
                    )
                    + row_offset,
                    # Column indices.
                    onp.broadcast_to(
                        local_value_indices_stacked[variable_index][:, None, :],
                        (num_factors, residual_dim, variable_dim),
                    ),
                ),
                axis=-1,
            ).reshape((num_factors * residual_dim * variable_dim, 2))

            jacobian_coords.append(
                sparse.SparseCooCoordinates(
                    rows=coords[:, 0],
                    cols=coords[:, 1],
                )
            )
''', '''            rows = row_offset + onp.repeat(
                onp.arange(num_factors * residual_dim), variable_dim
            )
            cols = onp.repeat(
                local_value_indices_stacked[variable_index], residual_dim, axis=0
            ).flatten()
            jacobian_coords.append(sparse.SparseCooCoordinates(rows=rows, cols=cols))
'''))
R("stack: shared value lookup", D(STACK, "FactorStack.compute_residual_vector", '''
def _stacked_values(self, assignments: VariableAssignments):
    assert assignments.storage_layout == self.storage_layout
    return self.factor.build_variable_value_tuple(
        tuple(
            jax.vmap(variable.unflatten)(assignments.storage[indices])
            for variable, indices in zip(self.factor.variables, self.value_indices)
        )
    )

def compute_residual_vector(self, assignments: VariableAssignments) -> jnp.ndarray:
    """Compute stacked residual vectors."""
    factor_type = type(self.factor)
    return jax.vmap(factor_type.compute_residual_vector)(
        self.factor, self._stacked_values(assignments)
    )
'''), D(STACK, "FactorStack.compute_residual_jacobian", '''
def compute_residual_jacobian(
    self,
    assignments: VariableAssignments,
) -> Tuple[jnp.ndarray, ...]:
    """Compute stacked Jacobian matrices, one for each variable."""
    factor_type = type(self.factor)
    return jax.vmap(factor_type.compute_residual_jacobians)(
        self.factor, self._stacked_values(assignments)
    )
'''))
R("stack: residual lambda", (STACK, '''        residual_vector = jax.vmap(type(self.factor).compute_residual_vector)(
            self.factor,
            self.factor.build_variable_value_tuple(values_stacked),
        )
        return residual_vector''', '''        return jax.vmap(lambda factor, values: factor.compute_residual_vector(values))(
            self.factor,
            self.factor.build_variable_value_tuple(values_stacked),
        )'''))

# ---- graphs

R("graph: group key helper", (GRAPH, '''            group_key: GroupKey = (
                # (1) Treedef. Note that variables can be different as long as their
                # types are the same.
                jax.tree_structure(factor.anonymize_variables()),
                # (2) Leaf shapes: contained array shapes must match
                tuple(
                    leaf.shape if hasattr(leaf, "shape") else ()
                    for leaf in jax.tree_leaves(factor)
                ),
            )
''', '''            group_key: GroupKey = _make_group_key(factor)
'''), (GRAPH, '''@jdc.pytree_dataclass
class StackedFactorGraph''', '''def _make_group_key(factor: FactorBase) -> GroupKey:
    leaves, treedef = jax.tree_flatten(factor.anonymize_variables())
    return treedef, tuple(getattr(leaf, "shape", ()) for leaf in leaves)


@jdc.pytree_dataclass
class StackedFactorGraph'''))
R("graph: make in comprehensions", D(GRAPH, "StackedFactorGraph.make", '''
@staticmethod
def make(
    factors: Iterable[FactorBase],
    use_onp: bool = True,
) -> "StackedFactorGraph":
    """Create a factor graph from a set of factors."""
    groups: Dict[GroupKey, List[FactorBase]] = {}
    seen: Dict[VariableBase, None] = {}
    for factor in factors:
        shapes = tuple(
            leaf.shape if hasattr(leaf, "shape") else ()
            for leaf in jax.tree_leaves(factor)
        )
        key = (jax.tree_structure(factor.anonymize_variables()), shapes)
        groups.setdefault(key, []).append(factor)
        seen.update({v: None for v in factor.variables})

    storage_layout = StorageLayout.make(list(seen), local=False)
    local_storage_layout = StorageLayout.make(list(seen), local=True)

    stacks = [
        FactorStack.make(group, storage_layout, use_onp=use_onp)
        for group in groups.values()
    ]

    residual_dim = 0
    coords: List[sparse.SparseCooCoordinates] = []
    for stack, group in zip(stacks, groups.values()):
        coords += FactorStack.compute_jacobian_coords(
            group, local_storage_layout, residual_dim
        )
        residual_dim += stack.get_residual_dim()

    return StackedFactorGraph(
        factor_stacks=stacks,
        jacobian_coords=sparse.SparseCooCoordinates(
            rows=onp.concatenate([c.rows for c in coords], axis=0),
            cols=onp.concatenate([c.cols for c in coords], axis=0),
        ),
        storage_layout=storage_layout,
        local_storage_layout=local_storage_layout,
        residual_dim=residual_dim,
    )
'''))
R("graph: residuals in a loop", D(GRAPH, "StackedFactorGraph.compute_whitened_residual_vector", '''
@jdc.jit
def compute_whitened_residual_vector(
    self, assignments: VariableAssignments
) -> jnp.ndarray:
    """Computes flattened+whitened residual vector associated with our factor graph."""
    assignments = assignments.update_storage_layout(self.storage_layout)

    pieces = []
    for stack in self.factor_stacks:
        noise_model = stack.factor.noise_model
        whiten = jax.vmap(type(noise_model).whiten_residual_vector)
        whitened = whiten(noise_model, stack.compute_residual_vector(assignments))
        pieces.append(whitened.reshape(-1))
    residual_vector = jnp.concatenate(pieces)
    assert residual_vector.shape == (self.residual_dim,)
    return residual_vector
'''))
R("graph: cost by dot", D(GRAPH, "StackedFactorGraph.compute_cost", '''
@jdc.jit
def compute_cost(
    self, assignments: VariableAssignments
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    """Compute the sum of squared residuals associated with a factor graph."""
    r = self.compute_whitened_residual_vector(assignments)
    return jnp.dot(r, r), r
'''))
R("graph: nll with helper", D(GRAPH, "StackedFactorGraph.compute_joint_nll", '''
@jdc.jit
def compute_joint_nll(
    self,
    assignments: VariableAssignments,
    include_constants: bool = False,
) -> jnp.ndarray:
    """Compute the joint negative log-likelihood density associated with a set of
    variable assignments. Assumes Gaussian noise models."""
    if include_constants:
        raise NotImplementedError()

    total, _ = self.compute_cost(assignments)
    for stacked_factor in self.factor_stacks:
        noise_model = stacked_factor.factor.noise_model
        if isinstance(noise_model, noises.Gaussian):
            determinants = jnp.linalg.det(noise_model.sqrt_precision_matrix)
        elif isinstance(noise_model, noises.DiagonalGaussian):
            determinants = jnp.prod(noise_model.sqrt_precision_diagonal, axis=-1)
        else:
            assert False, f"Joint NLL not supported  for {type(noise_model)}"
        log_dets = -2.0 * jnp.log(jnp.abs(determinants))
        assert log_dets.shape == (stacked_factor.num_factors,)
        total += jnp.sum(log_dets)
    return total
'''))
R("graph: nll sums first", D(GRAPH, "StackedFactorGraph.compute_joint_nll", '''
@jdc.jit
def compute_joint_nll(
    self,
    assignments: VariableAssignments,
    include_constants: bool = False,
) -> jnp.ndarray:
    """Compute the joint negative log-likelihood density associated with a set of
    variable assignments. Assumes Gaussian noise models."""
    if include_constants:
        raise NotImplementedError()

    log_det_total = 0.0
    for stacked_factor in self.factor_stacks:
        noise_model = stacked_factor.factor.noise_model
        if isinstance(noise_model, noises.Gaussian):
            _, logdet = jnp.linalg.slogdet(noise_model.sqrt_precision_matrix)
        elif isinstance(noise_model, noises.DiagonalGaussian):
            logdet = jnp.log(
                jnp.abs(jnp.prod(noise_model.sqrt_precision_diagonal, axis=-1))
            )
        else:
            assert False, f"Joint NLL not supported  for {type(noise_model)}"
        assert logdet.shape == (stacked_factor.num_factors,)
        log_det_total = log_det_total + jnp.sum(logdet)

    residual_vector = self.compute_whitened_residual_vector(assignments)
    return jnp.sum(residual_vector**2) - 2.0 * log_det_total
'''))
R("graph: jacobian values flattened early", D(GRAPH, "StackedFactorGraph.compute_whitened_residual_jacobian", '''
@jdc.jit
def compute_whitened_residual_jacobian(
    self,
    assignments: VariableAssignments,
    residual_vector: hints.Array,
) -> sparse.SparseCooMatrix:
    """Compute the Jacobian of a graph's residual vector with respect to the stacked
    local delta vectors. Shape should be `(residual_dim, local_delta_storage_dim)`.
    """
    assignments = assignments.update_storage_layout(self.storage_layout)

    values: List[jnp.ndarray] = []
    offset = 0
    for stack in self.factor_stacks:
        noise_model = stack.factor.noise_model
        shape = (stack.num_factors, stack.factor.get_residual_dim())
        residuals = residual_vector[offset : offset + stack.get_residual_dim()]
        residuals = residuals.reshape(shape)
        whiten = jax.vmap(type(noise_model).whiten_jacobian)
        values += [
            whiten(noise_model, jacobian, residuals).flatten()
            for jacobian in stack.compute_residual_jacobian(assignments)
        ]
        offset += stack.get_residual_dim()
    assert offset != 0
    assert offset == self.residual_dim

    return sparse.SparseCooMatrix(
        values=jnp.concatenate(values),
        coords=self.jacobian_coords,
        shape=(self.residual_dim, self.local_storage_layout.dim),
    )
'''))

# ---- sparse matrices and linear solvers

R("coo: shapes named", D(COO, "SparseCooMatrix.__matmul__", '''
def __matmul__(self, other: hints.Array):
    """Compute `Ax`, where `x` is a 1D vector."""
    num_rows, num_cols = self.shape
    assert other.shape == (
        num_cols,
    ), "Inner product only supported for 1D vectors!"
    products = other[self.coords.cols] * self.values
    return jnp.zeros(num_rows, dtype=other.dtype).at[self.coords.rows].add(products)
'''))
R("coo: transposed shape spelled out", D(COO, "SparseCooMatrix.T", '''
@property
def T(self):
    """Return transpose of our sparse matrix."""
    rows, cols = self.shape
    return jdc.replace(
        self,
        coords=SparseCooCoordinates(rows=self.coords.cols, cols=self.coords.rows),
        shape=(cols, rows),
    )
'''))
R("cholmod: factor in a local", (LIN, '''        if cache_key not in _cholmod_analyze_cache:
            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)

        # Factorize and solve
        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
            A_T_scipy,
            beta=args.lambd
            + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
        )
        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)''', '''        factor = _cholmod_analyze_cache.get(cache_key)
        if factor is None:
            factor = sksparse.cholmod.analyze_AAt(A_T_scipy)
            _cholmod_analyze_cache[cache_key] = factor

        # Some simple linear problems blow up without this 1e-5 term
        factor.cholesky_AAt_inplace(A_T_scipy, beta=1e-5 + args.lambd)
        return factor.solve_A(args.ATb)'''))
R("cg: normal operator inlined", (LIN, '''        def ATA_function(x: hints.Array):
            # Compute ATAx
            ATAx = A.T @ (A @ x)

            # Return regularized (scale-invariant)
            return ATAx + lambd * ATA_diagonals * x

            # Vanilla regularization
            # return ATAx + lambd * x

        def jacobi_preconditioner(x):
            return x / ATA_diagonals
''', '''        A_transpose = A.T
        damping = lambd * ATA_diagonals

        def ATA_function(x: hints.Array):
            return A_transpose @ (A @ x) + damping * x

        jacobi_preconditioner = lambda x: x / ATA_diagonals
'''), (LIN, '''        solution_values, _unused_info = jax.scipy.sparse.linalg.cg(
            A=ATA_function,
            b=ATb,
            x0=initial_x,
            maxiter=len(
                initial_x
            ),  # https://en.wikipedia.org/wiki/Conjugate_gradient_method#Convergence_properties
            tol=self._get_cg_tolerance(iteration),
            M=jacobi_preconditioner,
        )
        return solution_values''', '''        return jax.scipy.sparse.linalg.cg(
            ATA_function,
            ATb,
            x0=initial_x,
            tol=self._get_cg_tolerance(iteration),
            maxiter=ATb.shape[0],
            M=jacobi_preconditioner,
        )[0]'''))

# ---- noise models

R("gaussian: matrix products", (GAUSS, 'return jnp.einsum("ij,j->i", self.sqrt_precision_matrix, residual_vector)', "return self.sqrt_precision_matrix @ residual_vector"), (GAUSS, 'return jnp.einsum("ij,jk->ik", self.sqrt_precision_matrix, jacobian)', "return jnp.matmul(self.sqrt_precision_matrix, jacobian)"))
R("gaussian: power", (GAUSS, "sqrt_precision_diagonal=1.0 / jnp.sqrt(jnp.asarray(diagonal))", "sqrt_precision_diagonal=jnp.asarray(diagonal) ** -0.5"))
R("gaussian: diagonal einsum", (GAUSS, "return self.sqrt_precision_diagonal[:, None] * jacobian", 'return jnp.einsum("i,ij->ij", self.sqrt_precision_diagonal, jacobian)'))
R("gaussian: dims from shape", (GAUSS, "return self.sqrt_precision_diagonal.shape[-1]", "(dim,) = self.sqrt_precision_diagonal.shape[-1:]\n        return dim"))
R("huber: shared weight", D(HUBER, "HuberWrapper.whiten_residual_vector", '''
@overrides
def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
    whitened = self.wrapped.whiten_residual_vector(residual_vector)
    norm = jnp.linalg.norm(whitened)
    weight = jnp.where(norm < self.delta, 1.0, jnp.sqrt(self.delta / norm))
    return weight * whitened
'''))
R("huber: outliers first", (HUBER, '''        return jnp.where(
            residual_norm < self.delta,
            jacobian,
            jacobian * (self.delta / residual_norm),
        )''', '''        is_outlier = residual_norm >= self.delta
        return jnp.where(is_outlier, self.delta / residual_norm * jacobian, jacobian)'''))

# ---- geometry

R("lie: compose with exp", (LIE, "return jaxlie.manifold.rplus(x, local_delta)", "return x @ cls.get_group_type().exp(local_delta)"))
R("prior: explicit log", (GEO, "return jaxlie.manifold.rminus(T, self.mu)", "return (T.inverse() @ self.mu).log()"), (GEO, "return (-jnp.eye(type(T).tangent_dim),)", "return (-1.0 * jnp.identity(T.tangent_dim),)"))
R("between: unpacked", D(GEO, "BetweenFactor.compute_residual_vector", '''
@overrides
def compute_residual_vector(
    self, variable_values: BetweenValueTuple
) -> jnp.ndarray:
    T_world_a, T_world_b = variable_values
    T_a_b_estimated = T_world_a.inverse() @ T_world_b
    return (T_a_b_estimated.inverse() @ self.T_a_b).log()
'''))
R("between: jacobian reordered", D(GEO, "BetweenFactor.compute_residual_jacobians", '''
@overrides
def compute_residual_jacobians(
    self, variable_values: BetweenValueTuple
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    T_world_a, T_world_b = variable_values
    assert type(T_world_a) == type(T_world_b)

    T_b_a = T_world_b.inverse() @ T_world_a
    jacobian_b = -jnp.eye(type(T_world_b).tangent_dim)
    return T_b_a.adjoint(), jacobian_b
'''))

# ---- covariances

R("covariance: index list by comprehension", D(COV, "SparseCovariance.compute_marginal", '''
def compute_marginal(self, *variables: core.VariableBase) -> onp.ndarray:
    """Compute marginal covariance for a set of variables. Input order matters."""
    starts = self.local_storage_layout.index_from_variable
    return self._compute_marginal(
        [
            starts[v] + k
            for v in variables
            for k in range(v.get_local_parameter_dim())
        ]
    )
'''))
R("covariance: enumerate", D(COV, "SparseCovariance._compute_marginal", '''
def _compute_marginal(self, indices: Sequence[int]) -> onp.ndarray:
    """Compute marginal covariance using a set of indices."""
    marginal_covariance = onp.zeros((len(indices), len(indices)))
    for i, row in enumerate(indices):
        for j, col in enumerate(indices):
            marginal_covariance[i, j] = self[row, col]
    return marginal_covariance
'''))
R("covariance: nested list", D(COV, "SparseCovariance._compute_marginal", '''
def _compute_marginal(self, indices: Sequence[int]) -> onp.ndarray:
    """Compute marginal covariance using a set of indices."""
    return onp.array([[self[i, j] for j in indices] for i in indices])
'''))
R("covariance: entry", D(COV, "SparseCovariance.__getitem__", '''
def __getitem__(self, indices: Tuple[int, int]) -> float:
    """Get a single value in our sparse covariance matrix."""
    row, col = min(indices), max(indices)
    key = (row, col)
    if key not in self._value_cache:
        total = self._sum_over_col(row, col)
        if row == col:
            value = self.L_diag_inv[row] * (self.L_diag_inv[row] - total)
        else:
            value = -self.L_diag_inv[row] * total
        self._value_cache[key] = value
    return self._value_cache[key]
'''))
R("covariance: sum by generator", D(COV, "SparseCovariance._sum_over_col", '''
def _sum_over_col(self, col: int, col_l: int) -> float:
    column = self.L.getcol(col)
    return sum(
        value * self[row, col_l]
        for row, value in zip(column.indices, column.data)
        if row != col
    )
'''))
R("covariance: make in steps", D(COV, "SparseCovariance.make", '''
@staticmethod
def make(graph: core.StackedFactorGraph, assignments: core.VariableAssignments):
    """Build the sparse covariance corresponding to a factor graph."""
    residual_vector = graph.compute_whitened_residual_vector(assignments)
    jacobian = graph.compute_whitened_residual_jacobian(assignments, residual_vector)
    A_T = jacobian.T.as_scipy_coo_matrix().tocsc(copy=False)
    factor = sksparse.cholmod.cholesky_AAt(A_T, ordering_method="natural")
    L = factor.L()
    return SparseCovariance(
        L=L,
        L_diag_inv=1.0 / L.diagonal(),
        local_storage_layout=graph.local_storage_layout,
        _value_cache={},
    )
'''))

# ---- solvers

R("solver base: named functions", D(NB, "NonlinearSolverBase.solve", '''
@jdc.jit
def solve(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> VariableAssignments:
    """Run MAP inference on a factor graph."""
    initial_layout = initial_assignments.storage_layout

    def not_done(state):
        return ~jnp.asarray(state.done)

    def body(state):
        return self._step(graph, state)

    final_state = jax.lax.while_loop(
        not_done,
        body,
        self._initialize_state(
            graph, initial_assignments.update_storage_layout(graph.storage_layout)
        ),
    )

    self._hcb_print(
        lambda i, cost: f"Terminated @ iteration #{i}: cost={str(cost).ljust(15)}",
        i=final_state.iterations,
        cost=final_state.cost,
    )
    return final_state.assignments.update_storage_layout(initial_layout)
'''))
R("solver base: verbose nested", D(NB, "NonlinearSolverBase._hcb_print", '''
def _hcb_print(
    self,
    string_from_args: Callable[..., str],
    *args: hints.Pytree,
    **kwargs: hints.Pytree,
) -> None:
    """Helper for printer optimizer messages via host callbacks. No-op if `verbose`
    is set to `False`."""
    if self.verbose:
        prefix = f"[{type(self).__name__}]"

        def tap(args_kwargs, _transforms):
            tap_args, tap_kwargs = args_kwargs
            print(prefix, string_from_args(*tap_args, **tap_kwargs))

        hcb.id_tap(tap, (args, kwargs))
'''))
R("gauss-newton: in steps", D(GN, "GaussNewtonSolver._step", '''
@overrides
def _step(
    self,
    graph: "StackedFactorGraph",
    state_prev: NonlinearSolverState,
) -> NonlinearSolverState:
    """Linearize, solve linear subproblem, and update on manifold."""
    iterations = state_prev.iterations
    self._hcb_print(
        lambda i, max_i, cost: f"Iteration #{i}/{max_i}: cost={str(cost)}",
        i=iterations,
        max_i=self.max_iterations,
        cost=state_prev.cost,
    )

    residual_prev = state_prev.residual_vector
    A = graph.compute_whitened_residual_jacobian(state_prev.assignments, residual_prev)
    negative_gradient = A.T @ (-residual_prev)
    delta = self.linear_solver.solve_subproblem(A, negative_gradient, 0.0, iterations)
    local_delta_assignments = VariableAssignments(delta, graph.local_storage_layout)

    assignments = state_prev.assignments.manifold_retract(local_delta_assignments)
    cost, residual_vector = graph.compute_cost(assignments)

    converged = self.check_convergence(
        state_prev, cost, local_delta_assignments, negative_gradient
    )
    exceeded = self.check_exceeded_max_iterations(state_prev)
    return NonlinearSolverState(
        iterations=iterations + 1,
        assignments=assignments,
        cost=cost,
        residual_vector=residual_vector,
        done=exceeded | converged,
    )
'''))
R("lm: branches built as states", (LM, '''        # Get output assignments
        assignments = jdc.replace(
            state_prev.assignments,
            storage=jnp.where(
                accept_flag,
                assignments_proposed.storage,
                state_prev.assignments.storage,
            ),
        )
''', '''        # Get output assignments
        assignments = jax.tree_map(
            lambda new, old: jnp.where(accept_flag, new, old),
            assignments_proposed,
            state_prev.assignments,
        )
'''), (LM, "import jax_dataclasses as jdc", "import jax\nimport jax_dataclasses as jdc"))
R("lm: choose helper", (LM, '''            cost=jnp.where(
                accept_flag, proposed_cost, state_prev.cost
            ),  # Use old cost if update is rejected
            residual_vector=jnp.where(
                accept_flag, residual_vector, state_prev.residual_vector
            ),  # Use old residual if update is rejected
''', '''            cost=choose(proposed_cost, state_prev.cost),
            residual_vector=choose(residual_vector, state_prev.residual_vector),
'''), (LM, '''        # Get output assignments
''', '''        def choose(new, old):
            return jnp.where(accept_flag, new, old)

        # Get output assignments
'''))
R("mixins: step quality in steps", D(MX, "_TrustRegionMixin.compute_step_quality", '''
def compute_step_quality(
    self,
    A: sparse.SparseCooMatrix,
    proposed_cost: hints.Scalar,
    state_prev: NonlinearSolverState,
    step_vector: jnp.ndarray,
) -> hints.Scalar:
    """Compute step quality ratio, often denoted $$\\\\rho$$."""
    linear_residual = state_prev.residual_vector + A @ step_vector
    predicted_cost = jnp.sum(jnp.square(linear_residual))
    actual_change = state_prev.cost - proposed_cost
    predicted_change = state_prev.cost - predicted_cost
    return actual_change / predicted_change
'''))
R("mixins: convergence split into helpers", D(MX, "_TerminationCriteriaMixin.check_convergence", '''
@jax.jit
def check_convergence(
    self,
    state_prev: NonlinearSolverState,
    cost_updated: hints.Scalar,
    local_delta_assignments: VariableAssignments,
    negative_gradient: hints.Array,
) -> jax.Array:
    """Check for convergence!"""
    x = state_prev.assignments
    relative_change = jnp.abs(state_prev.cost - cost_updated) / state_prev.cost
    converged_cost = relative_change < self.cost_tolerance

    retracted = x.manifold_retract(
        jdc.replace(local_delta_assignments, storage=negative_gradient)
    )
    gradient_size = jnp.max(jnp.abs(retracted.storage - x.storage))
    converged_gradient = jnp.logical_and(
        state_prev.iterations >= self.gradient_tolerance_start_step,
        gradient_size < self.gradient_tolerance,
    )

    tolerance = self.parameter_tolerance
    step_size = jnp.linalg.norm(local_delta_assignments.storage)
    converged_parameters = step_size < tolerance * (
        jnp.linalg.norm(x.storage) + tolerance
    )
    return jnp.logical_or(
        converged_cost, jnp.logical_or(converged_gradient, converged_parameters)
    )
'''))
R("dogleg: step as a method", (DL, '''        def compute_dogleg_step() -> jnp.ndarray:
''', '''        def compute_dogleg_step(radius) -> jnp.ndarray:
'''), (DL, "radius_sq = state_prev.radius**2", "radius_sq = radius**2"), (DL, "norm_gn <= state_prev.radius,", "norm_gn <= radius,"), (DL, "norm_sd >= state_prev.radius,\n                    state_prev.radius / norm_sd * a,", "norm_sd >= radius,\n                    (radius / norm_sd) * a,"), (DL, "step_vector = compute_dogleg_step()", "step_vector = compute_dogleg_step(state_prev.radius)"))
R("dogleg: radius in python order", (DL, '''        radius = jnp.where(
            step_quality < 0.25,
            state_prev.radius / 2.0,
            jnp.where(
                step_quality > 0.75,
                jnp.max(
                    jnp.array([state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)])
                ),
                state_prev.radius,
            ),
        )
''', '''        radius_shrunk = 0.5 * state_prev.radius
        radius_grown = jnp.maximum(
            state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)
        )
        radius = jnp.where(step_quality > 0.75, radius_grown, state_prev.radius)
        radius = jnp.where(step_quality < 0.25, radius_shrunk, radius)
'''))
R("fixed: shared body", D(FX, "FixedIterationGaussNewtonSolver.solve", '''
@jax.jit
@overrides
def solve(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> VariableAssignments:
    """Run MAP inference on a factor graph."""
    state = self._initialize_state(
        graph, initial_assignments.update_storage_layout(graph.storage_layout)
    )
    step = functools.partial(self._step, graph)

    if not self.unroll:
        state = jax.lax.while_loop(lambda s: jnp.logical_not(s.done), step, state)
    else:
        for _ in range(self.iterations):
            state = step(state)

    self._hcb_print(
        lambda i, cost: f"Terminated @ iteration #{i}: cost={str(cost).ljust(15)}",
        i=state.iterations,
        cost=state.cost,
    )
    output = state.assignments
    return output.update_storage_layout(initial_assignments.storage_layout)
'''))
