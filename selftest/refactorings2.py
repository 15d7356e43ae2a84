"""More behaviour-preserving rewrites: code moved between functions and files, renamed, reordered, respelled."""

from cases import R
from refactorings import ASSIGN, COO, COV, D, DL, FACTOR, FX, GAUSS, GEO, GN, GRAPH, HUBER, LAYOUT, LIE, LIN, LM, MX, NB, STACK, VARS

G2O = "scripts/_g2o_utils.py"

# ---- layouts and assignments

R("layout: dim argument to a module function", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    grouped: Dict[Type[VariableBase], List[VariableBase]] = {}
    for variable in variables:
        if type(variable) not in grouped:
            grouped[type(variable)] = []
        grouped[type(variable)].append(variable)

    index_from_variable: Dict[VariableBase, int] = {}
    index_from_variable_type: Dict[Type[VariableBase], int] = {}
    count_from_variable_type: Dict[Type[VariableBase], int] = {}
    dim = 0
    for variable_type, members in grouped.items():
        index_from_variable_type[variable_type] = dim
        count_from_variable_type[variable_type] = len(members)
        for member in members:
            index_from_variable[member] = dim
            dim += _stored_dim(member, local)

    return StorageLayout(
        local,
        dim,
        frozendict(index_from_variable),
        frozendict(index_from_variable_type),
        frozendict(count_from_variable_type),
    )
'''), (LAYOUT, '''@dataclasses.dataclass(frozen=True)
class StorageLayout:''', '''def _stored_dim(variable: VariableBase, local: bool) -> int:
    return (
        variable.get_local_parameter_dim() if local else variable.get_parameter_dim()
    )


@dataclasses.dataclass(frozen=True)
class StorageLayout:'''))
R("layout: dims per type", D(LAYOUT, "StorageLayout.make", '''
@staticmethod
def make(variables: Iterable[VariableBase], local: bool = False) -> "StorageLayout":
    """Determine storage indexing from a list of variables."""
    variables_from_type: DefaultDict[Type[VariableBase], List[VariableBase]] = (
        DefaultDict(list)
    )
    for variable in variables:
        variables_from_type[type(variable)].append(variable)

    index_from_variable: Dict[VariableBase, int] = {}
    index_from_variable_type: Dict[Type[VariableBase], int] = {}
    storage_index = 0
    for variable_type, group in variables_from_type.items():
        index_from_variable_type[variable_type] = storage_index
        if local:
            step = variable_type.get_local_parameter_dim()
        else:
            step = variable_type.get_parameter_dim()
        for variable in group:
            index_from_variable[variable] = storage_index
            storage_index = storage_index + step

    return StorageLayout(
        local_flag=local,
        dim=storage_index,
        index_from_variable=frozendict(index_from_variable),
        index_from_variable_type=frozendict(index_from_variable_type),
        count_from_variable_type=frozendict(
            {k: len(v) for k, v in variables_from_type.items()}
        ),
    )
'''))
R("layout: method names bound first", (LAYOUT, '''        for variable_type, variables in variables_from_type.items():
            index_from_variable_type[variable_type] = storage_index
            for variable in variables:
                index_from_variable[variable] = storage_index
                storage_index += (
                    variable.get_local_parameter_dim()
                    if local
                    else variable.get_parameter_dim()
                )
''', '''        for variable_type in variables_from_type:
            index_from_variable_type[variable_type] = storage_index
            get_dim = (
                variable_type.get_local_parameter_dim
                if local
                else variable_type.get_parameter_dim
            )
            for variable in variables_from_type[variable_type]:
                index_from_variable[variable] = storage_index
                storage_index += get_dim()
'''))
R("layout: enumerate within types", (LAYOUT, '''            for variable in variables:
                index_from_variable[variable] = storage_index
                storage_index += (
                    variable.get_local_parameter_dim()
                    if local
                    else variable.get_parameter_dim()
                )
''', '''            variable_dim = (
                variable_type.get_local_parameter_dim()
                if local
                else variable_type.get_parameter_dim()
            )
            for i, variable in enumerate(variables):
                index_from_variable[variable] = storage_index + i * variable_dim
            storage_index += len(variables) * variable_dim
'''))
R("layout: moved to another module", (LAYOUT, '''from ._variables import VariableBase
''', '''from ._grouping import group_by_type
from ._variables import VariableBase
'''), (LAYOUT, '''        variables_from_type: DefaultDict[Type[VariableBase], List[VariableBase]] = (
            DefaultDict(list)
        )
        for variable in variables:
            variables_from_type[type(variable)].append(variable)
''', '''        variables_from_type = group_by_type(variables)
'''), ("jaxfg/core/_grouping.py", None, '''from typing import Dict, Iterable, List, Type, TypeVar

T = TypeVar("T")


def group_by_type(items: Iterable[T]) -> Dict[Type[T], List[T]]:
    """Group objects by their type, in the order in which the types appear."""
    out: Dict[Type[T], List[T]] = {}
    for item in items:
        out.setdefault(type(item), []).append(item)
    return out
'''))
R("assignments: shared constructor", (ASSIGN, '''    @staticmethod
    def make_from_defaults(''', '''    @staticmethod
    def _pack(
        storage_layout: StorageLayout, blocks: List[jnp.ndarray]
    ) -> "VariableAssignments":
        storage = jnp.concatenate(blocks, axis=0)
        assert storage.shape == (storage_layout.dim,)
        return VariableAssignments(storage=storage, storage_layout=storage_layout)

    @staticmethod
    def make_from_defaults('''), (ASSIGN, "from typing import Collection, Dict, Iterable, Type, TypeVar", "from typing import Collection, Dict, Iterable, List, Type, TypeVar"), D(ASSIGN, "VariableAssignments.make_from_partial_dict", '''
@staticmethod
def make_from_partial_dict(
    variables: Iterable[VariableBase],
    assignments: Dict[VariableBase, hints.VariableValue],
) -> "VariableAssignments":
    """Create an assignment object from a variables and assignments. Missing
    assignments are assigned the default variable values."""
    storage_layout = StorageLayout.make(variables, local=False)
    blocks = []
    for variable in storage_layout.get_variables():
        if assignments is None or variable not in assignments:
            value = variable.get_default_value()
        else:
            value = assignments[variable]
        blocks.append(jax.jit(variable.flatten)(value))
    return VariableAssignments._pack(storage_layout, blocks)
'''), D(ASSIGN, "VariableAssignments.make_from_defaults", '''
@staticmethod
def make_from_defaults(variables: Iterable[VariableBase]) -> "VariableAssignments":
    """Create an assignment object from the default values corresponding to each variable."""
    layout = StorageLayout.make(variables)
    blocks = []
    for variable_type, count in layout.count_from_variable_type.items():
        default = variable_type.flatten(variable_type.get_default_value())
        blocks.append(jnp.tile(default, count))
    return VariableAssignments._pack(layout, blocks)
'''))
R("defaults: broadcast", (ASSIGN, '''                jnp.tile(
                    jax.jit(variable_type.flatten)(variable_type.get_default_value()),
                    reps=(storage_layout.count_from_variable_type[variable_type],),
                )
''', '''                jnp.tile(
                    VariableBase.flatten(variable_type.get_default_value()),
                    storage_layout.count_from_variable_type[variable_type],
                )
'''))
R("convert: early return inverted", D(ASSIGN, "VariableAssignments.update_storage_layout", '''
@jdc.jit
def update_storage_layout(
    self, storage_layout: jdc.Static[StorageLayout]
) -> "VariableAssignments":
    """Returns a new assignments object representing the same variable->value
    mapping, but with an updated storage layout."""
    current = self.storage_layout
    if current != storage_layout:
        assert current.dim == storage_layout.dim
        assert current.local_flag == storage_layout.local_flag
        assert set(current.get_variables()) == set(storage_layout.get_variables())

        shuffle_indices = jnp.zeros(storage_layout.dim, dtype=jnp.int32)
        for variable, target_index in storage_layout.index_from_variable.items():
            source_index = current.index_from_variable[variable]
            if storage_layout.local_flag:
                variable_dim = variable.get_local_parameter_dim()
            else:
                variable_dim = variable.get_parameter_dim()
            shuffle_indices = shuffle_indices.at[
                target_index : target_index + variable_dim
            ].set(source_index + jnp.arange(variable_dim))

        return jdc.replace(
            self,
            storage=self.storage[shuffle_indices],
            storage_layout=storage_layout,
        )
    return self
'''))
R("convert: take", (ASSIGN, '''        new_storage = self.storage[shuffle_indices]
''', '''        new_storage = jnp.take(self.storage, shuffle_indices, axis=0)
'''))
R("convert: asserts as raises", (ASSIGN, '''        assert self.storage_layout.dim == storage_layout.dim
        assert self.storage_layout.local_flag == storage_layout.local_flag
        assert set(self.storage_layout.get_variables()) == set(
            storage_layout.get_variables()
        )
''', '''        compatible = (
            self.storage_layout.dim == storage_layout.dim
            and self.storage_layout.local_flag == storage_layout.local_flag
            and set(self.storage_layout.get_variables())
            == set(storage_layout.get_variables())
        )
        if not compatible:
            raise AssertionError("storage layouts do not describe the same variables")
'''))
R("convert: numpy indices", (ASSIGN, '''        shuffle_indices = jnp.zeros(dim, dtype=jnp.int32)
''', '''        shuffle_indices = onp.zeros(dim, dtype=onp.int32)
'''), (ASSIGN, '''            shuffle_indices = shuffle_indices.at[
                target_index : target_index + variable_dim
            ].set(jnp.arange(source_index, source_index + variable_dim))
''', '''            shuffle_indices[target_index : target_index + variable_dim] = onp.arange(
                source_index, source_index + variable_dim
            )
'''), (ASSIGN, "import jax_dataclasses as jdc\n", "import jax_dataclasses as jdc\nimport numpy as onp\n"))
R("retract: concatenated blocks", D(ASSIGN, "VariableAssignments.manifold_retract", '''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""
    assert not self.storage_layout.local_flag
    assert local_delta_assignments.storage_layout.local_flag

    layout = self.storage_layout
    delta_layout = local_delta_assignments.storage_layout
    storage = self.storage
    for variable_type, start in layout.index_from_variable_type.items():
        count = layout.count_from_variable_type[variable_type]
        stop = start + variable_type.get_parameter_dim() * count
        values = self.get_stacked_value(variable_type)

        local_start = delta_layout.index_from_variable_type[variable_type]
        local_dim = variable_type.get_local_parameter_dim()
        deltas = local_delta_assignments.storage[
            local_start : local_start + local_dim * count
        ].reshape((count, local_dim))

        updated = jax.vmap(variable_type.manifold_retract)(values, deltas)
        storage = storage.at[start:stop].set(
            jax.vmap(variable_type.flatten)(updated).flatten()
        )
    return jdc.replace(self, storage=storage)
'''))
R("retract: helper for blocks", D(ASSIGN, "VariableAssignments.manifold_retract", '''
@jdc.jit
def manifold_retract(
    self, local_delta_assignments: "VariableAssignments"
) -> "VariableAssignments":
    """Update variables on manifold."""

    # Check that inputs make sense
    assert not self.storage_layout.local_flag
    assert local_delta_assignments.storage_layout.local_flag

    def block(assignments, variable_type, dim):
        layout = assignments.storage_layout
        start = layout.index_from_variable_type[variable_type]
        count = layout.count_from_variable_type[variable_type]
        return assignments.storage[start : start + dim * count].reshape((count, dim))

    def retract_flat(variable_type):
        def inner(flat_value, delta):
            value = variable_type.unflatten(flat_value)
            return variable_type.flatten(variable_type.manifold_retract(value, delta))

        return inner

    new_storage = jnp.zeros_like(self.storage)
    for variable_type in self.storage_layout.get_variable_types():
        dim = variable_type.get_parameter_dim()
        local_dim = variable_type.get_local_parameter_dim()
        flat = jax.vmap(retract_flat(variable_type))(
            block(self, variable_type, dim),
            block(local_delta_assignments, variable_type, local_dim),
        ).flatten()
        start = self.storage_layout.index_from_variable_type[variable_type]
        count = self.storage_layout.count_from_variable_type[variable_type]
        new_storage = new_storage.at[start : start + count * dim].set(flat)

    return VariableAssignments(
        storage=new_storage, storage_layout=self.storage_layout
    )
'''))
R("get value: via slice object", D(ASSIGN, "VariableAssignments.get_value", '''
def get_value(self, variable: VariableBase[VariableValueType]) -> VariableValueType:
    """Get value corresponding to specific variable."""
    return type(variable).unflatten(self.storage[self._location(variable)])

def _location(self, variable: VariableBase) -> slice:
    start = self.storage_layout.index_from_variable[variable]
    return slice(start, start + variable.get_parameter_dim())
'''), D(ASSIGN, "VariableAssignments.set_value", '''
def set_value(
    self, variable: VariableBase[VariableValueType], value: VariableValueType
) -> "VariableAssignments":
    """Update a value corresponding to specific variable."""
    storage = jnp.asarray(self.storage).at[self._location(variable)].set(
        type(variable).flatten(value)
    )
    return jdc.replace(self, storage=storage)
'''))
R("as_dict through repr helper", D(ASSIGN, "VariableAssignments.__repr__", '''
def __repr__(self) -> str:
    lines = [
        "    %d.%s: %s" % (i, type(k).__name__, v)
        for i, (k, v) in enumerate(self.as_dict().items())
    ]
    return "VariableAssignments(\\n" + "\\n".join(lines) + "\\n)"
'''))

# ---- variables and factors

R("variables: jacobian through partial", D(VARS, "VariableBase.manifold_retract_jacobian", '''
@classmethod
def manifold_retract_jacobian(cls, x: VariableValueType) -> Tuple[jnp.ndarray, ...]:
    """Jacobian of the variable parameters with respect to the local
    parameterization, linearized around `local_delta=zero`."""

    def leaves_from_delta(local_delta):
        return jax.tree_leaves(cls.manifold_retract(x, local_delta))

    zero = jnp.zeros(cls.get_local_parameter_dim())
    return jax.jacfwd(leaves_from_delta)(zero)
'''))
R("variables: parameter dim by size", (VARS, '''        flat, unflatten = flatten_util.ravel_pytree(example)
        (parameter_dim,) = flat.shape

        cls._parameter_dim = parameter_dim
        cls._unflatten = unflatten
''', '''        flat, cls._unflatten = flatten_util.ravel_pytree(example)
        cls._parameter_dim = flat.shape[0]
'''))
R("variables: canonical instances in a dictionary", (VARS, '''    @classmethod
    @functools.lru_cache(maxsize=None)
    def canonical_instance(cls: Type[VariableType]) -> VariableType:
        """Returns the 'canonical instance' of a variable. For a given class, this will
        be the same instance each time the method is called. Used for factor stacking.
        """
        return cls()
''', '''    @classmethod
    def canonical_instance(cls: Type[VariableType]) -> VariableType:
        """Returns the 'canonical instance' of a variable. For a given class, this will
        be the same instance each time the method is called. Used for factor stacking.
        """
        return _canonical_instance(cls)
'''), (VARS, '''# Fake templating; RealVectorVariable[N]
''', '''@functools.lru_cache(maxsize=None)
def _canonical_instance(cls: Type[VariableType]) -> VariableType:
    return cls()


# Fake templating; RealVectorVariable[N]
'''))
R("factor: jacobians by zip", D(FACTOR, "FactorBase.compute_residual_jacobians", '''
def compute_residual_jacobians(
    self, variable_values: VariableValueTuple
) -> Tuple[jnp.ndarray, ...]:
    """Compute Jacobian of residual with respect to local parameterization, by
    composing the residual computation Jacobian with the manifold retraction
    Jacobian."""
    assert len(self.variables) == len(variable_values)
    residual_dim = self.get_residual_dim()

    def residual_wrt_parameters(tree: hints.Pytree) -> jnp.ndarray:
        blocks = [leaf.reshape((residual_dim, -1)) for leaf in jax.tree_leaves(tree)]
        return jnp.concatenate(blocks, axis=-1)

    def parameters_wrt_local(variable: VariableBase, value) -> jnp.ndarray:
        blocks = [
            leaf.reshape((-1, variable.get_local_parameter_dim()))
            for leaf in variable.manifold_retract_jacobian(value)
        ]
        return jnp.concatenate(blocks, axis=0)

    trees = jax.jacfwd(self.compute_residual_vector)(variable_values)
    return tuple(
        jnp.dot(residual_wrt_parameters(tree), parameters_wrt_local(variable, value))
        for tree, variable, value in zip(trees, self.variables, variable_values)
    )
'''))
R("factor: hints looked up by a helper", D(FACTOR, "FactorBase.build_variable_value_tuple", '''
@final
def build_variable_value_tuple(
    self, variable_values: Tuple[hints.VariableValue, ...]
) -> VariableValueTuple:
    """Prepares and validates a raw tuple of variable values."""
    assert isinstance(variable_values, tuple)

    all_hints = get_type_hints(self.compute_residual_vector)
    if "variable_values" not in all_hints:
        raise NotImplementedError(
            f"Missing type hints for {type(self).__name__}.compute_residual_vector"
        )
    value_type: Type[VariableValueTuple] = all_hints["variable_values"]

    is_named = type(value_type) is type
    if is_named:
        content_types = tuple(get_type_hints(value_type).values())
    else:
        content_types = get_args(value_type)

    if len(content_types) == 2 and content_types[1] is Ellipsis:
        content_types = (content_types[0],) * len(variable_values)

    assert len(variable_values) == len(content_types)
    for value, expected_type in zip(variable_values, content_types):
        assert isinstance(value, expected_type), "Variable value type hint inconsistency"

    if is_named:
        return value_type(*variable_values)
    return cast(VariableValueTuple, variable_values)
'''))
R("factor: values as a loop", D(FACTOR, "FactorBase.get_variable_values_from_assignments", '''
@final
def get_variable_values_from_assignments(
    self, assignments: VariableAssignments
) -> VariableValueTuple:
    """Prepare a set of variable values corresponding to this factor."""
    values = []
    for variable in self.variables:
        values.append(assignments.get_value(variable))
    return self.build_variable_value_tuple(tuple(values))
'''), D(FACTOR, "FactorBase.anonymize_variables", '''
@final
def anonymize_variables(self: FactorType) -> FactorType:
    """Returns a copy of this factor with all variables replaced with their
    canonical instances. Used for factor stacking.
    """
    canonical = tuple(v.canonical_instance() for v in self.variables)
    with jdc.copy_and_mutate(self, validate=False) as out:
        out.variables = canonical
    return out
'''))

# ---- stacks and graphs

R("stack: indices by variable slot", D(STACK, "FactorStack.make", '''
@staticmethod
def make(
    factors: Sequence[FactorType],
    storage_layout: StorageLayout,
    use_onp: bool,
) -> "FactorStack[FactorType]":
    """Make a stacked factor."""
    array_module = onp if use_onp else jnp
    anonymous = [factor.anonymize_variables() for factor in factors]
    stacked_factor: FactorType = jax.tree_map(
        lambda *arrays: array_module.stack(arrays, axis=0), *anonymous
    )

    slots = range(len(factors[0].variables))
    value_indices = []
    for slot in slots:
        variable_type = type(factors[0].variables[slot])
        rows = []
        for factor in factors:
            variable = factor.variables[slot]
            assert isinstance(
                variable, variable_type
            ), "Variable types of stacked factors must match"
            start = storage_layout.index_from_variable[variable]
            rows.append(onp.arange(start, start + variable.get_parameter_dim()))
        value_indices.append(onp.array(rows))

    return FactorStack(
        num_factors=len(factors),
        factor=stacked_factor,
        value_indices=tuple(value_indices),
        storage_layout=storage_layout,
    )
'''))
R("stack: shared index helper", (STACK, '''        # Get indices for each variable of each factor.
        value_indices_list: Tuple[List[onp.ndarray], ...] = tuple(
            [] for _ in range(len(stacked_factor.variables))
        )
        for factor in factors:
            for i, variable in enumerate(factor.variables):
                assert isinstance(
                    variable, type(factors[0].variables[i])
                ), "Variable types of stacked factors must match"
                storage_pos = storage_layout.index_from_variable[variable]
                value_indices_list[i].append(
                    onp.arange(storage_pos, storage_pos + variable.get_parameter_dim())
                )

        # Stack: end result should be Tuple[array of shape (N, parameter_dim), ...].
        value_indices_stacked: Tuple[onp.ndarray, ...] = tuple(
            onp.array(indices) for indices in value_indices_list
        )
''', '''        for factor in factors:
            for i, variable in enumerate(factor.variables):
                assert isinstance(
                    variable, type(factors[0].variables[i])
                ), "Variable types of stacked factors must match"

        # Tuple[array of shape (N, parameter_dim), ...].
        value_indices_stacked = _stacked_indices(
            factors, storage_layout, lambda v: v.get_parameter_dim()
        )
'''), (STACK, '''        # Get indices for each variable.
        local_value_indices_list: Tuple[List[onp.ndarray], ...] = tuple(
            [] for _ in range(len(variable_types))
        )
        for factor in factors:
            for i, variable in enumerate(factor.variables):
                # Record local parameterization indices.
                storage_pos = local_storage_layout.index_from_variable[variable]
                local_value_indices_list[i].append(
                    onp.arange(
                        storage_pos,
                        storage_pos + variable.get_local_parameter_dim(),
                    )
                )

        # Stack: end result should be Tuple[array of shape (N, parameter_dim), ...].
        local_value_indices_stacked: Tuple[onp.ndarray, ...] = tuple(
            onp.array(indices) for indices in local_value_indices_list
        )
''', '''        # Tuple[array of shape (N, local_parameter_dim), ...].
        local_value_indices_stacked = _stacked_indices(
            factors, local_storage_layout, lambda v: v.get_local_parameter_dim()
        )
'''), (STACK, '''@jdc.pytree_dataclass
class FactorStack(Generic[FactorType]):''', '''def _stacked_indices(factors, layout, dim_of) -> Tuple[onp.ndarray, ...]:
    """For each variable slot, the storage indices of every factor's variable."""
    columns: List[List[onp.ndarray]] = [[] for _ in factors[0].variables]
    for factor in factors:
        for column, variable in zip(columns, factor.variables):
            start = layout.index_from_variable[variable]
            column.append(onp.arange(start, start + dim_of(variable)))
    return tuple(onp.array(column) for column in columns)


@jdc.pytree_dataclass
class FactorStack(Generic[FactorType]):'''))
R("stack: coordinates without stacking", (STACK, '''            coords = onp.stack(
                (
                    # Row indices.
                    onp.broadcast_to(
                        residual_indices[:, :, None],
                        (num_factors, residual_dim, variable_dim),
                    )
                    + row_offset,
                    # Column indices.
                    onp.broadcast_to(
                        local_value_indices_stacked[variable_index][:, None, :],
                        (num_factors, residual_dim, variable_dim),
                    ),
                ),
                axis=-1,
            ).reshape((num_factors * residual_dim * variable_dim, 2))

            jacobian_coords.append(
                sparse.SparseCooCoordinates(
                    rows=coords[:, 0],
                    cols=coords[:, 1],
                )
            )
''', '''            block_shape = (num_factors, residual_dim, variable_dim)
            rows = onp.broadcast_to(row_offset + residual_indices[..., None], block_shape)
            cols = onp.broadcast_to(
                local_value_indices_stacked[variable_index][:, None, :], block_shape
            )
            jacobian_coords.append(
                sparse.SparseCooCoordinates(rows=rows.flatten(), cols=cols.flatten())
            )
'''))
R("stack: residual dim swapped", D(STACK, "FactorStack.get_residual_dim", '''
def get_residual_dim(self) -> int:
    per_factor = self.factor.noise_model.get_residual_dim()
    return self.num_factors * per_factor
'''))
R("stack: inputs helper", D(STACK, "FactorStack.compute_residual_vector", '''
def _stacked_inputs(self, assignments: VariableAssignments):
    assert assignments.storage_layout == self.storage_layout
    values = []
    for variable, indices in zip(self.factor.variables, self.value_indices):
        values.append(jax.vmap(type(variable).unflatten)(assignments.storage[indices]))
    return self.factor.build_variable_value_tuple(tuple(values))

def compute_residual_vector(self, assignments: VariableAssignments) -> jnp.ndarray:
    """Compute stacked residual vectors."""
    values = self._stacked_inputs(assignments)
    return jax.vmap(type(self.factor).compute_residual_vector)(self.factor, values)
'''), D(STACK, "FactorStack.compute_residual_jacobian", '''
def compute_residual_jacobian(
    self,
    assignments: VariableAssignments,
) -> Tuple[jnp.ndarray, ...]:
    """Compute stacked Jacobian matrices, one for each variable."""
    values = self._stacked_inputs(assignments)
    return jax.vmap(type(self.factor).compute_residual_jacobians)(self.factor, values)
'''))
R("graph: groups collected by a function", (GRAPH, '''        factors_from_group: DefaultDict[GroupKey, List[FactorBase]] = defaultdict(list)
        variables_ordered_set: Dict[VariableBase, None] = {}
        for factor in factors:
            # Each factor is ultimately just a pytree node; in order for a set of
            # factors to be batchable, they must share the same:
            group_key: GroupKey = (
                # (1) Treedef. Note that variables can be different as long as their
                # types are the same.
                jax.tree_structure(factor.anonymize_variables()),
                # (2) Leaf shapes: contained array shapes must match
                tuple(
                    leaf.shape if hasattr(leaf, "shape") else ()
                    for leaf in jax.tree_leaves(factor)
                ),
            )

            # Record factor and variables
            factors_from_group[group_key].append(factor)
            for v in factor.variables:
                variables_ordered_set[v] = None
        variables = list(variables_ordered_set.keys())
''', '''        factors = list(factors)
        factors_from_group = _group_factors(factors)
        variables = list(
            dict.fromkeys(v for factor in factors for v in factor.variables)
        )
'''), (GRAPH, '''@jdc.pytree_dataclass
class StackedFactorGraph:''', '''def _group_factors(factors: List[FactorBase]) -> Dict[GroupKey, List[FactorBase]]:
    groups: Dict[GroupKey, List[FactorBase]] = {}
    for factor in factors:
        structure = jax.tree_structure(factor.anonymize_variables())
        shapes = tuple(getattr(leaf, "shape", ()) for leaf in jax.tree_leaves(factor))
        groups.setdefault((structure, shapes), []).append(factor)
    return groups


@jdc.pytree_dataclass
class StackedFactorGraph:'''))
R("graph: offsets with itertools", (GRAPH, '''        # Prepare each factor group
        residual_offset = 0
        for group_key, group in factors_from_group.items():
            # Make factor stack
            stacked_factors.append(
                FactorStack.make(
                    group,
                    storage_layout,
                    use_onp=use_onp,
                )
            )

            # Compute Jacobian coordinates
            #
            # These should be N pairs of (row, col) indices, where rows correspond to
            # residual indices and columns correspond to local parameter indices
            jacobian_coords.extend(
                FactorStack.compute_jacobian_coords(
                    factors=group,
                    local_storage_layout=local_storage_layout,
                    row_offset=residual_offset,
                )
            )
            residual_offset += stacked_factors[-1].get_residual_dim()
''', '''        # Prepare each factor group
        residual_offset = 0
        for group in factors_from_group.values():
            stack = FactorStack.make(group, storage_layout, use_onp)
            stacked_factors.append(stack)
            jacobian_coords += FactorStack.compute_jacobian_coords(
                group, local_storage_layout, residual_offset
            )
            residual_offset = residual_offset + stack.get_residual_dim()
'''), (GRAPH, '''        jacobian_coords_concat: sparse.SparseCooCoordinates = jax.tree_map(
            lambda *arrays: onp.concatenate(arrays, axis=0), *jacobian_coords
        )
''', '''        jacobian_coords_concat = sparse.SparseCooCoordinates(
            rows=onp.concatenate([c.rows for c in jacobian_coords], axis=0),
            cols=onp.concatenate([c.cols for c in jacobian_coords], axis=0),
        )
'''))
R("graph: whitening helper", (GRAPH, '''        residual_vector = jnp.concatenate(
            [
                jax.vmap(
                    type(stacked_factor.factor.noise_model).whiten_residual_vector
                )(
                    stacked_factor.factor.noise_model,
                    stacked_factor.compute_residual_vector(assignments),
                ).flatten()
                for stacked_factor in self.factor_stacks
            ],
            axis=0,
        )
''', '''        def whitened(stack: FactorStack) -> jnp.ndarray:
            noise_model = stack.factor.noise_model
            residuals = stack.compute_residual_vector(assignments)
            return jax.vmap(lambda noise, r: noise.whiten_residual_vector(r))(
                noise_model, residuals
            )

        residual_vector = jnp.concatenate(
            [whitened(stack).reshape(-1) for stack in self.factor_stacks]
        )
'''))
R("graph: cost by vdot", D(GRAPH, "StackedFactorGraph.compute_cost", '''
@jdc.jit
def compute_cost(
    self, assignments: VariableAssignments
) -> Tuple[jnp.ndarray, jnp.ndarray]:
    """Compute the sum of squared residuals associated with a factor graph."""
    residual_vector = self.compute_whitened_residual_vector(assignments=assignments)
    return jnp.sum(jnp.square(residual_vector)), residual_vector
'''))
R("graph: nll accumulates a list", (GRAPH, '''        # Add Mahalanobis distance terms to NLL
        joint_nll = jnp.sum(self.compute_whitened_residual_vector(assignments) ** 2)
''', '''        # Mahalanobis distance terms
        joint_nll, _ = self.compute_cost(assignments)
'''), (GRAPH, '''                cov_determinants = -2.0 * jnp.log(
                    jnp.abs(
                        jnp.prod(
                            cast(
                                noises.DiagonalGaussian, noise_model
                            ).sqrt_precision_diagonal,
                            axis=-1,
                        )
                    )
                )
''', '''                diagonal = cast(
                    noises.DiagonalGaussian, noise_model
                ).sqrt_precision_diagonal
                cov_determinants = -2.0 * jnp.sum(jnp.log(jnp.abs(diagonal)), axis=-1)
'''), (GRAPH, '''            joint_nll = joint_nll + jnp.sum(cov_determinants)
''', '''            joint_nll += cov_determinants.sum()
'''))
R("graph: slogdet", (GRAPH, '''                cov_determinants = -2.0 * jnp.log(
                    jnp.abs(
                        jnp.linalg.det(
                            cast(noises.Gaussian, noise_model).sqrt_precision_matrix
                        )
                    )
                )
''', '''                _sign, log_abs_det = jnp.linalg.slogdet(
                    noise_model.sqrt_precision_matrix
                )
                cov_determinants = -2.0 * log_abs_det
'''))
R("graph: jacobian whitening per stack", (GRAPH, '''        # Linearize factors by group.
        A_values_list: List[jnp.ndarray] = []
        residual_start = 0
        residual_end = 0
        for stacked_factor in self.factor_stacks:
            residual_end = residual_start + stacked_factor.get_residual_dim()
            stacked_residual_vector = residual_vector[
                residual_start:residual_end
            ].reshape(
                (
                    stacked_factor.num_factors,
                    stacked_factor.factor.get_residual_dim(),
                )
            )

            # Compute all Jacobians and whiten.
            for jacobian in stacked_factor.compute_residual_jacobian(assignments):
                A_values_list.append(
                    jax.vmap(type(stacked_factor.factor.noise_model).whiten_jacobian)(
                        stacked_factor.factor.noise_model,
                        jacobian,
                        residual_vector=stacked_residual_vector,
                    )
                )
            residual_start = residual_end
        assert residual_end != 0
        assert residual_end == self.residual_dim

        # Build Jacobian.
        A = sparse.SparseCooMatrix(
            values=jnp.concatenate([A.flatten() for A in A_values_list]),
            coords=self.jacobian_coords,
            shape=(self.residual_dim, self.local_storage_layout.dim),
        )
        return A
''', '''        # Linearize factors by group.
        A_values: List[jnp.ndarray] = []
        offset = 0
        for stack in self.factor_stacks:
            factor = stack.factor
            n = stack.get_residual_dim()
            residuals = residual_vector[offset : offset + n].reshape(
                (stack.num_factors, -1)
            )
            offset += n

            whiten = jax.vmap(type(factor.noise_model).whiten_jacobian)
            A_values.extend(
                whiten(factor.noise_model, jacobian, residuals).flatten()
                for jacobian in stack.compute_residual_jacobian(assignments)
            )
        assert offset != 0
        assert offset == self.residual_dim

        # Build Jacobian.
        return sparse.SparseCooMatrix(
            values=jnp.concatenate(A_values, axis=0),
            coords=self.jacobian_coords,
            shape=(self.residual_dim, self.local_storage_layout.dim),
        )
'''))

# ---- sparse

R("coo: product by segment_sum", D(COO, "SparseCooMatrix.__matmul__", '''
def __matmul__(self, other: hints.Array):
    """Compute `Ax`, where `x` is a 1D vector."""
    num_rows, num_cols = self.shape
    assert other.shape == (num_cols,), "Inner product only supported for 1D vectors!"
    rows, cols = self.coords.rows, self.coords.cols
    products = self.values * other[cols]
    output = jnp.zeros(num_rows, dtype=other.dtype)
    return output.at[rows].add(products)
'''))
R("coo: dense through index tuple", D(COO, "SparseCooMatrix.as_dense", '''
def as_dense(self) -> jnp.ndarray:
    """Convert to a dense JAX array."""
    dense = jnp.zeros(self.shape)
    where = (self.coords.rows, self.coords.cols)
    return dense.at[where].add(self.values)
'''), D(COO, "SparseCooMatrix.T", '''
@property
def T(self):
    """Return transpose of our sparse matrix."""
    h, w = self.shape
    flipped = SparseCooCoordinates(rows=self.coords.cols, cols=self.coords.rows)
    return jdc.replace(self, coords=flipped, shape=(w, h))
'''))
R("cholmod: cache via get", (LIN, '''        if cache_key not in _cholmod_analyze_cache:
            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)

        # Factorize and solve
        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
            A_T_scipy,
            beta=args.lambd
            + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
        )
        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)
''', '''        factor = _cholmod_analyze_cache.get(cache_key)
        if factor is None:
            factor = sksparse.cholmod.analyze_AAt(A_T_scipy)
            _cholmod_analyze_cache[cache_key] = factor

        # Factorize and solve
        # Some simple linear problems blow up without this 1e-5 term
        damping = args.lambd + 1e-5
        factor.cholesky_AAt_inplace(A_T_scipy, beta=damping)
        return factor.solve_A(args.ATb)
'''))
R("cholmod: key helper", (LIN, '''        cache_key = (
            object.__hash__(self),
            A_T_scipy.shape,
            A_T_scipy.indptr.tobytes(),
            A_T_scipy.indices.tobytes(),
        )
''', '''        cache_key = self._pattern_key(A_T_scipy)
'''), (LIN, '''    def _solve(self, args: _LinearSolverArgs) -> jnp.ndarray:
''', '''    def _pattern_key(self, matrix) -> Hashable:
        return (
            object.__hash__(self),
            matrix.shape,
            matrix.indptr.tobytes(),
            matrix.indices.tobytes(),
        )

    def _solve(self, args: _LinearSolverArgs) -> jnp.ndarray:
'''))
R("cholmod: unpacked arguments", (LIN, '''        return hcb.call(self._solve, _LinearSolverArgs(A, ATb, lambd), result_shape=ATb)
''', '''        return hcb.call(
            lambda args: self._solve(args),
            _LinearSolverArgs(A=A, ATb=ATb, lambd=lambd),
            result_shape=ATb,
        )
'''))
R("cg: operator named", (LIN, '''        # Form normal equation
        def ATA_function(x: hints.Array):
            # Compute ATAx
            ATAx = A.T @ (A @ x)

            # Return regularized (scale-invariant)
            return ATAx + lambd * ATA_diagonals * x

            # Vanilla regularization
            # return ATAx + lambd * x

        def jacobi_preconditioner(x):
            return x / ATA_diagonals
''', '''        # Form normal equation
        A_T = A.T
        damping = lambd * ATA_diagonals
        inverse_diagonals = 1.0 / ATA_diagonals

        def ATA_function(x: hints.Array):
            return A_T @ (A @ x) + damping * x

        def jacobi_preconditioner(x):
            return inverse_diagonals * x
'''), (LIN, '''            maxiter=len(
                initial_x
            ),  # https://en.wikipedia.org/wiki/Conjugate_gradient_method#Convergence_properties
''', '''            maxiter=initial_x.shape[0],
'''))
R("cg: tolerance as power", (LIN, "return self.inexact_step_eta / (iteration + 1)", "return self.inexact_step_eta * (1.0 / (1 + iteration))"))

# ---- noise models

R("gaussian: dot", (GAUSS, '''return jnp.einsum("ij,j->i", self.sqrt_precision_matrix, residual_vector)''', '''return jnp.dot(self.sqrt_precision_matrix, residual_vector)'''), (GAUSS, '''return jnp.einsum("ij,jk->ik", self.sqrt_precision_matrix, jacobian)''', '''return jnp.matmul(self.sqrt_precision_matrix, jacobian)'''))
R("gaussian: solve for the inverse", (GAUSS, '''        return Gaussian(
            sqrt_precision_matrix=jnp.linalg.inv(jnp.linalg.cholesky(covariance))
        )
''', '''        cholesky_factor = jnp.linalg.cholesky(covariance)
        identity = jnp.eye(covariance.shape[0])
        return Gaussian(
            sqrt_precision_matrix=jnp.linalg.solve(cholesky_factor, identity)
        )
'''))
R("gaussian: triangular solve", (GAUSS, '''        return Gaussian(
            sqrt_precision_matrix=jnp.linalg.inv(jnp.linalg.cholesky(covariance))
        )
''', '''        return Gaussian(
            sqrt_precision_matrix=jax.scipy.linalg.solve_triangular(
                jnp.linalg.cholesky(covariance),
                jnp.eye(covariance.shape[0]),
                lower=True,
            )
        )
'''), (GAUSS, "import jax_dataclasses as jdc\n", "import jax\nimport jax_dataclasses as jdc\n"))
R("diagonal: rsqrt", (GAUSS, "sqrt_precision_diagonal=1.0 / jnp.sqrt(jnp.asarray(diagonal))", "sqrt_precision_diagonal=jax.lax.rsqrt(jnp.asarray(diagonal, dtype=jnp.float32))"), (GAUSS, "import jax_dataclasses as jdc\n", "import jax\nimport jax_dataclasses as jdc\n"))
R("diagonal: reciprocal and newaxis", (GAUSS, "sqrt_precision_diagonal=1.0 / jnp.sqrt(jnp.asarray(diagonal))", "sqrt_precision_diagonal=jnp.reciprocal(jnp.sqrt(jnp.asarray(diagonal)))"), (GAUSS, "return self.sqrt_precision_diagonal[:, None] * jacobian", "return jacobian * self.sqrt_precision_diagonal[:, jnp.newaxis]"))
R("diagonal: reshape column", (GAUSS, "return self.sqrt_precision_diagonal[:, None] * jacobian", "return jnp.expand_dims(self.sqrt_precision_diagonal, axis=-1) * jacobian"))
R("diagonal: transposed product", (GAUSS, "return self.sqrt_precision_diagonal[:, None] * jacobian", "return (jacobian.T * self.sqrt_precision_diagonal).T"))
R("huber: scale chosen first", D(HUBER, "HuberWrapper.whiten_residual_vector", '''
@overrides
def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
    whitened = self.wrapped.whiten_residual_vector(residual_vector)
    norm = jnp.linalg.norm(whitened)
    inlier = norm < self.delta
    return jnp.where(inlier, whitened, jnp.sqrt(self.delta / norm) * whitened)
'''), D(HUBER, "HuberWrapper.whiten_jacobian", '''
@overrides
def whiten_jacobian(
    self,
    jacobian: hints.Array,
    residual_vector: hints.Array,
) -> hints.Array:
    whitened = self.wrapped.whiten_jacobian(jacobian, residual_vector)
    norm = jnp.sqrt(jnp.sum(residual_vector**2))
    scale = jnp.where(norm < self.delta, 1.0, self.delta / norm)
    return whitened * scale
'''))

# ---- geometry

R("lie: retraction spelled out", (LIE, "return jaxlie.manifold.rplus(x, local_delta)", "return x @ type(x).exp(local_delta)"))
R("lie: identity through the class", (LIE, "return cast(T, cls.get_group_type().identity())", "group_type = cls.get_group_type()\n        return cast(T, group_type.identity())"))
R("geometry: residuals by multiply", (GEO, "return jaxlie.manifold.rminus(T_world_a.inverse() @ T_world_b, self.T_a_b)", "T_b_a = T_world_b.inverse() @ T_world_a\n        return (T_b_a @ self.T_a_b).log()"), (GEO, "return jaxlie.manifold.rminus(T, self.mu)", "return T.inverse().multiply(self.mu).log()"))
R("geometry: adjoint of the inverse", (GEO, "            (T_world_a.inverse() @ T_world_b).inverse().adjoint(),\n", "            (T_world_b.inverse() @ T_world_a).adjoint(),\n"))
R("geometry: eye scaled", (GEO, "return (-jnp.eye(type(T).tangent_dim),)", "return (-1.0 * jnp.identity(type(T).tangent_dim),)"))

# ---- covariances

R("covariance: symmetric key by sorted", D(COV, "SparseCovariance.__getitem__", '''
def __getitem__(self, indices: Tuple[int, int]) -> float:
    """Get a single value in our sparse covariance matrix."""
    i, j = indices
    row, col = (j, i) if i > j else (i, j)
    if (row, col) not in self._value_cache:
        self._value_cache[(row, col)] = self._compute_entry(row, col)
    return self._value_cache[(row, col)]

def _compute_entry(self, row: int, col: int) -> float:
    inv = self.L_diag_inv[row]
    off_diagonal = self._sum_over_col(row, col)
    if row != col:
        return -inv * off_diagonal
    return inv * (inv - off_diagonal)
'''))
R("covariance: sum with early continue", D(COV, "SparseCovariance._sum_over_col", '''
def _sum_over_col(self, col: int, col_l: int) -> float:
    column: scipy.sparse.csc_matrix = self.L.getcol(col)
    total: float = 0.0
    for k in range(len(column.indices)):
        row = column.indices[k]
        if row == col:
            continue
        total += column.data[k] * self[row, col_l]
    return total
'''))
R("covariance: sum by indptr", D(COV, "SparseCovariance._sum_over_col", '''
def _sum_over_col(self, col: int, col_l: int) -> float:
    start, stop = self.L.indptr[col], self.L.indptr[col + 1]
    total: float = 0.0
    for row, val in zip(self.L.indices[start:stop], self.L.data[start:stop]):
        if row != col:  # Skip diagonal
            total += val * self[row, col_l]
    return total
'''))
R("covariance: dense in one expression", D(COV, "SparseCovariance.as_dense", '''
def as_dense(self, use_inverse: bool = True) -> onp.ndarray:
    """Return the full covariance as a dense array."""
    if not use_inverse:
        return self._compute_marginal(range(self.local_storage_layout.dim))
    L_inv = onp.linalg.inv(self.L.todense())
    return onp.transpose(L_inv) @ L_inv
'''))
R("covariance: marginal by numpy indices", D(COV, "SparseCovariance.compute_marginal", '''
def compute_marginal(self, *variables: core.VariableBase) -> onp.ndarray:
    """Compute marginal covariance for a set of variables. Input order matters."""
    layout = self.local_storage_layout
    indices: List[int] = []
    for v in variables:
        start_index = layout.index_from_variable[v]
        for k in range(v.get_local_parameter_dim()):
            indices.append(start_index + k)
    return self._compute_marginal(indices)
'''))
R("covariance: upper triangle mirrored", D(COV, "SparseCovariance._compute_marginal", '''
def _compute_marginal(self, indices: Sequence[int]) -> onp.ndarray:
    """Compute marginal covariance using a set of indices."""
    dim = len(indices)
    out = onp.zeros((dim, dim))
    for i in range(dim):
        for j in range(i + 1):
            out[i, j] = self[indices[i], indices[j]]
            out[j, i] = out[i, j]
    return out
'''))

# ---- solvers

R("solvers: initial state in the base class", D(NB, "NonlinearSolverBase.solve", '''
@jdc.jit
def solve(
    self,
    graph: "StackedFactorGraph",
    initial_assignments: VariableAssignments,
) -> VariableAssignments:
    """Run MAP inference on a factor graph."""
    original_layout = initial_assignments.storage_layout
    state = self._initialize_state(
        graph, initial_assignments.update_storage_layout(graph.storage_layout)
    )

    def not_done(state):
        return jnp.logical_not(state.done)

    def body(state):
        return self._step(graph, state)

    state = jax.lax.while_loop(not_done, body, state)
    self._hcb_print(
        lambda i, cost: f"Terminated @ iteration #{i}: cost={str(cost).ljust(15)}",
        i=state.iterations,
        cost=state.cost,
    )
    return state.assignments.update_storage_layout(original_layout)
'''))
R("solvers: message helper", D(NB, "NonlinearSolverBase._hcb_print", '''
def _hcb_print(
    self,
    string_from_args: Callable[..., str],
    *args: hints.Pytree,
    **kwargs: hints.Pytree,
) -> None:
    """Helper for printer optimizer messages via host callbacks."""
    if self.verbose:
        name = type(self).__name__

        def report(args_kwargs, _unused_transforms):
            message = string_from_args(*args_kwargs[0], **args_kwargs[1])
            print(f"[{name}]", message)

        hcb.id_tap(report, (args, kwargs))
'''))
R("gauss-newton: negated residual", (GN, "ATb = -(A.T @ state_prev.residual_vector)", "ATb = A.T @ (-1.0 * state_prev.residual_vector)"), (GN, '''        done = jnp.logical_or(
            self.check_exceeded_max_iterations(state_prev=state_prev),
            self.check_convergence(
                state_prev=state_prev,
                cost_updated=cost,
                local_delta_assignments=local_delta_assignments,
                negative_gradient=ATb,
            ),
        )
''', '''        exceeded = self.check_exceeded_max_iterations(state_prev)
        converged = self.check_convergence(
            state_prev, cost, local_delta_assignments, ATb
        )
        done = exceeded | converged
'''))
R("fixed: fori loop", (FX, '''            state = jax.lax.while_loop(
                cond_fun=lambda state: jnp.logical_not(state.done),
                body_fun=functools.partial(self._step, graph),
                init_val=state,
            )
''', '''            state = jax.lax.while_loop(
                lambda s: ~s.done,
                lambda s: self._step(graph, s),
                state,
            )
'''), (FX, "done = state_prev.iterations >= (self.iterations - 1)", "iterations = state_prev.iterations + 1\n        done = iterations >= self.iterations"), (FX, "            iterations=state_prev.iterations + 1,\n", "            iterations=iterations,\n"))
R("fixed: while instead of for", (FX, '''            for i in range(self.iterations):
                state = self._step(graph, state)
''', '''            for _unused_i in range(0, self.iterations):
                state = self._step(graph=graph, state_prev=state)
'''))
R("mixins: linearised residual named", (MX, '''        return (proposed_cost - state_prev.cost) / (
            jnp.sum((A @ step_vector + state_prev.residual_vector) ** 2)
            - state_prev.cost
        )
''', '''        predicted_residual = A @ step_vector + state_prev.residual_vector
        predicted_cost = predicted_residual @ predicted_residual
        actual_reduction = state_prev.cost - proposed_cost
        return actual_reduction / (state_prev.cost - predicted_cost)
'''))
R("mixins: convergence with operators", (MX, '''        return jnp.any(
            jnp.array(
                [
                    converged_cost,
                    converged_gradient,
                    converged_parameters,
                ]
            ),
            axis=0,
        )
''', '''        return converged_cost | converged_gradient | converged_parameters
'''), (MX, '''        converged_gradient = jnp.where(
            state_prev.iterations >= self.gradient_tolerance_start_step,
            jnp.max(
                jnp.abs(
                    state_prev.assignments.storage
                    - state_prev.assignments.manifold_retract(
                        VariableAssignments(
                            storage=negative_gradient,
                            storage_layout=local_delta_assignments.storage_layout,
                        ),
                    ).storage
                )
            )
            < self.gradient_tolerance,
            False,
        )
''', '''        x = state_prev.assignments
        gradient_delta = jdc.replace(local_delta_assignments, storage=negative_gradient)
        gradient_norm = jnp.max(
            jnp.abs(x.manifold_retract(gradient_delta).storage - x.storage)
        )
        converged_gradient = jnp.logical_and(
            gradient_norm < self.gradient_tolerance,
            state_prev.iterations >= self.gradient_tolerance_start_step,
        )
'''))
R("mixins: inf norm", (MX, '''            jnp.max(
                jnp.abs(
                    state_prev.assignments.storage
                    - state_prev.assignments.manifold_retract(
                        VariableAssignments(
                            storage=negative_gradient,
                            storage_layout=local_delta_assignments.storage_layout,
                        ),
                    ).storage
                )
            )
''', '''            jnp.linalg.norm(
                state_prev.assignments.storage
                - state_prev.assignments.manifold_retract(
                    VariableAssignments(
                        storage=negative_gradient,
                        storage_layout=local_delta_assignments.storage_layout,
                    ),
                ).storage,
                ord=jnp.inf,
            )
'''))
R("lm: state through replace", (LM, '''        return _LevenbergMarquardtState(
            iterations=state_prev.iterations + 1,
            assignments=assignments,
            lambd=lambd,
            cost=jnp.where(
                accept_flag, proposed_cost, state_prev.cost
            ),  # Use old cost if update is rejected
            residual_vector=jnp.where(
                accept_flag, residual_vector, state_prev.residual_vector
            ),  # Use old residual if update is rejected
            done=done,
        )
''', '''        cost, residual_vector = jax.lax.cond(
            accept_flag,
            lambda _: (proposed_cost, residual_vector),
            lambda _: (state_prev.cost, state_prev.residual_vector),
            operand=None,
        )
        with jdc.copy_and_mutate(state_prev, validate=False) as state:
            state.iterations = state_prev.iterations + 1
            state.assignments = assignments
            state.lambd = lambd
            state.cost = cost
            state.residual_vector = residual_vector
            state.done = done
        return state
'''), (LM, "import jax_dataclasses as jdc", "import jax\nimport jax_dataclasses as jdc"))
R("lm: damping by clip", (LM, '''            jnp.maximum(
                self.lambda_min,
                jnp.minimum(state_prev.lambd * self.lambda_factor, self.lambda_max),
            ),
''', '''            jnp.clip(
                self.lambda_factor * state_prev.lambd, self.lambda_min, self.lambda_max
            ),
'''))
R("lm: done with operators", (LM, '''        done = jnp.logical_or(
            self.check_exceeded_max_iterations(state_prev=state_prev),
            jnp.logical_and(
                accept_flag,
                self.check_convergence(
                    state_prev=state_prev,
                    cost_updated=proposed_cost,
                    local_delta_assignments=local_delta_assignments,
                    negative_gradient=ATb,
                ),
            ),
        )
''', '''        converged = self.check_convergence(
            state_prev=state_prev,
            cost_updated=proposed_cost,
            local_delta_assignments=local_delta_assignments,
            negative_gradient=ATb,
        )
        done = jnp.where(
            accept_flag,
            self.check_exceeded_max_iterations(state_prev=state_prev) | converged,
            self.check_exceeded_max_iterations(state_prev=state_prev),
        )
'''))
R("trust region: shared acceptance in the mixin", (MX, '''@jdc.pytree_dataclass
class _TerminationCriteriaMixin:''', '''    def select_assignments(
        self,
        accept_flag: jax.Array,
        proposed: VariableAssignments,
        previous: VariableAssignments,
    ) -> VariableAssignments:
        """Proposed values if the step is accepted, previous ones otherwise."""
        return jdc.replace(
            previous,
            storage=jnp.where(accept_flag, proposed.storage, previous.storage),
        )


@jdc.pytree_dataclass
class _TerminationCriteriaMixin:'''), (LM, '''        assignments = jdc.replace(
            state_prev.assignments,
            storage=jnp.where(
                accept_flag,
                assignments_proposed.storage,
                state_prev.assignments.storage,
            ),
        )
''', '''        assignments = self.select_assignments(
            accept_flag, assignments_proposed, state_prev.assignments
        )
'''), (DL, '''        assignments = jdc.replace(
            state_prev.assignments,
            storage=jnp.where(
                accept_flag,
                assignments_proposed.storage,
                state_prev.assignments.storage,
            ),
        )
''', '''        assignments = self.select_assignments(
            accept_flag, assignments_proposed, state_prev.assignments
        )
'''))
R("dogleg: step as a free function", (DL, '''        def compute_dogleg_step() -> jnp.ndarray:
            # Gauss-Newton step
            step_vector_gn: jnp.ndarray = self.linear_solver.solve_subproblem(
                A=A,
                ATb=ATb,
                lambd=0.0,
                iteration=state_prev.iterations,
            )

            # Steepest descent step
            step_vector_sd: jnp.ndarray = ATb

            # Blending parameters
            # Reference:
            # > METHODS FOR NON-LINEAR LEAST SQUARES PROBLEM, Madsen et al 2004.
            # > pg. 30~32
            alpha = jnp.sum(step_vector_sd**2) / jnp.sum((A @ step_vector_sd) ** 2)
            a = alpha * step_vector_sd
            b = step_vector_gn

            c = jnp.sum(a * (b - a))
            a_norm_sq = jnp.sum(a**2)
            b_minus_a_norm_sq = jnp.sum((b - a) ** 2)
            radius_sq = state_prev.radius**2
            radius_sq_minus_a_norm_sq = radius_sq - a_norm_sq
            sqrt_c_sq_plus = jnp.sqrt(
                c**2 + b_minus_a_norm_sq * radius_sq_minus_a_norm_sq
            )
            beta = jnp.where(
                c <= 0,
                (-c + sqrt_c_sq_plus) / b_minus_a_norm_sq,
                radius_sq_minus_a_norm_sq / (c + sqrt_c_sq_plus),
            )

            # Compute update step
            norm_gn = jnp.linalg.norm(step_vector_gn)
            norm_sd = jnp.linalg.norm(a)
            return jnp.where(
                # Use GN if it's within trust region
                norm_gn <= state_prev.radius,
                step_vector_gn,
                jnp.where(
                    # Use normed SD if neither are within trust region
                    norm_sd >= state_prev.radius,
                    state_prev.radius / norm_sd * a,
                    a + beta * (step_vector_gn - a),
                ),
            )

        step_vector = compute_dogleg_step()
''', '''        gauss_newton = self.linear_solver.solve_subproblem(
            A=A, ATb=ATb, lambd=0.0, iteration=state_prev.iterations
        )
        alpha = jnp.sum(ATb**2) / jnp.sum((A @ ATb) ** 2)
        step_vector = _blend(alpha * ATb, gauss_newton, state_prev.radius)
'''), (DL, '''@jdc.pytree_dataclass
class DoglegSolver(''', '''def _blend(
    cauchy: jnp.ndarray, gauss_newton: jnp.ndarray, radius: hints.Scalar
) -> jnp.ndarray:
    """Point of the dogleg path at the boundary of the trust region."""
    leg = gauss_newton - cauchy
    c = jnp.dot(cauchy, leg)
    leg_sq = jnp.dot(leg, leg)
    slack = radius**2 - jnp.dot(cauchy, cauchy)
    root = jnp.sqrt(c**2 + leg_sq * slack)
    beta = jnp.where(c > 0, slack / (root + c), (root - c) / leg_sq)

    norm_cauchy = jnp.linalg.norm(cauchy)
    within = jnp.where(
        norm_cauchy < radius, cauchy + beta * leg, cauchy * (radius / norm_cauchy)
    )
    return jnp.where(jnp.linalg.norm(gauss_newton) > radius, within, gauss_newton)


@jdc.pytree_dataclass
class DoglegSolver('''))
R("dogleg: radius as select list", (DL, '''        radius = jnp.where(
            step_quality < 0.25,
            state_prev.radius / 2.0,
            jnp.where(
                step_quality > 0.75,
                jnp.max(
                    jnp.array([state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)])
                ),
                state_prev.radius,
            ),
        )
''', '''        grown = jnp.maximum(state_prev.radius, jnp.linalg.norm(step_vector) * 3.0)
        radius = jnp.select(
            [step_quality < 0.25, step_quality > 0.75],
            [0.5 * state_prev.radius, grown],
            default=state_prev.radius,
        )
'''))

# ---- pose graph files

R("g2o: split without argument", (G2O, '''        parts = [part for part in line.split(" ") if part != ""]
''', '''        parts = list(filter(None, line.split(" ")))
'''))
R("g2o: precision helper", (G2O, '''            precision_matrix_components = onp.array(list(map(float, parts[6:])))
            precision_matrix = onp.zeros((3, 3))
            precision_matrix[onp.triu_indices(3)] = precision_matrix_components
            precision_matrix = precision_matrix.T
            precision_matrix[onp.triu_indices(3)] = precision_matrix_components
            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T
''', '''            sqrt_precision_matrix = _sqrt_precision(
                3, [float(part) for part in parts[6:]]
            )
'''), (G2O, '''            precision_matrix = onp.zeros((6, 6))
            precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]
            precision_matrix = precision_matrix.T
            precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]

            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T
''', '''            sqrt_precision_matrix = _sqrt_precision(6, numerical_parts[7:])
'''), (G2O, '''def parse_g2o(''', '''def _sqrt_precision(dim: int, upper_triangle: List[float]) -> onp.ndarray:
    """Square root of a precision matrix, from the entries of its upper triangle."""
    precision_matrix = onp.zeros((dim, dim))
    rows, cols = onp.triu_indices(dim)
    precision_matrix[rows, cols] = upper_triangle
    precision_matrix[cols, rows] = upper_triangle
    return onp.linalg.cholesky(precision_matrix).T


def parse_g2o('''))
R("g2o: tag local and returns", (G2O, '''    with open(path) as file:
        lines = [line.strip() for line in file.readlines()]
''', '''    with open(path) as file:
        lines = [line.strip() for line in file]
'''), (G2O, '''            _, index, x, y, theta = parts
            index = int(index)
            x, y, theta = map(float, [x, y, theta])
            assert len(initial_poses) == index
            variable = jaxfg.geometry.SE2Variable()
            initial_poses[variable] = jaxlie.SE2.from_xy_theta(x, y, theta)
            pose_variables.append(variable)
''', '''            _tag, index_text, *pose_text = parts
            x, y, theta = [float(text) for text in pose_text]
            assert int(index_text) == len(initial_poses)
            variable = jaxfg.geometry.SE2Variable()
            pose_variables.append(variable)
            initial_poses[variable] = jaxlie.SE2.from_xy_theta(x, y, theta)
'''))
R("g2o: edge factor helper", (G2O, '''            factors.append(
                jaxfg.geometry.BetweenFactor.make(
                    variable_T_world_a=pose_variables[before_index],
                    variable_T_world_b=pose_variables[after_index],
                    T_a_b=between,
                    noise_model=jaxfg.noises.Gaussian(
                        sqrt_precision_matrix=sqrt_precision_matrix
                    ),
                )
            )

        elif parts[0] == "VERTEX_SE3:QUAT":''', '''            factors.append(
                _edge(
                    pose_variables,
                    before_index,
                    after_index,
                    between,
                    sqrt_precision_matrix,
                )
            )

        elif parts[0] == "VERTEX_SE3:QUAT":'''), (G2O, '''            factors.append(
                jaxfg.geometry.BetweenFactor.make(
                    variable_T_world_a=pose_variables[before_index],
                    variable_T_world_b=pose_variables[after_index],
                    T_a_b=between,
                    noise_model=jaxfg.noises.Gaussian(
                        sqrt_precision_matrix=sqrt_precision_matrix
                    ),
                )
            )
        else:''', '''            factors.append(
                _edge(
                    pose_variables,
                    before_index,
                    after_index,
                    between,
                    sqrt_precision_matrix,
                )
            )
        else:'''), (G2O, '''def parse_g2o(''', '''def _edge(pose_variables, i, j, between, sqrt_precision_matrix):
    noise_model = jaxfg.noises.Gaussian(sqrt_precision_matrix=sqrt_precision_matrix)
    return jaxfg.geometry.BetweenFactor.make(
        pose_variables[i], pose_variables[j], between, noise_model
    )


def parse_g2o('''))
R("g2o: unknown tag raised", (G2O, '''            assert False, f"Unexpected line type: {parts[0]}"''', '''            raise AssertionError(f"Unexpected line type: {parts[0]}")'''), (G2O, '''            assert len(numerical_parts) == 7 + 21
''', '''            if len(numerical_parts) != 28:
                raise AssertionError("an SE(3) edge has 28 numbers")
'''))
R("g2o: tag in a variable", (G2O, '''        if parts[0] == "VERTEX_SE2":''', '''        tag = parts[0]
        if tag == "VERTEX_SE2":'''), (G2O, '''        elif parts[0] == "EDGE_SE2":''', '''        elif tag == "EDGE_SE2":'''), (G2O, '''        elif parts[0] == "VERTEX_SE3:QUAT":''', '''        elif tag == "VERTEX_SE3:QUAT":'''), (G2O, '''        elif parts[0] == "EDGE_SE3:QUAT":''', '''        elif tag == "EDGE_SE3:QUAT":'''), (G2O, '''            between = jaxlie.SE2.from_xy_theta(*(float(p) for p in parts[3:6]))
''', '''            dx, dy, dtheta = map(float, parts[3:6])
            between = jaxlie.SE2.from_xy_theta(dx, dy, dtheta)
'''))
R("g2o: one function per line type", (G2O, '''            # Create SE(3) variable
            _, index, x, y, z, qx, qy, qz, qw = parts
            index = int(index)
            assert len(initial_poses) == index
            variable = jaxfg.geometry.SE3Variable()
            initial_poses[variable] = jaxlie.SE3(
                wxyz_xyz=onp.array(list(map(float, [qw, qx, qy, qz, x, y, z])))  # type: ignore
            )
            pose_variables.append(variable)
''', '''            # Create SE(3) variable
            variable = jaxfg.geometry.SE3Variable()
            index, pose = _parse_se3_vertex(parts)
            assert index == len(initial_poses)
            initial_poses[variable] = pose
            pose_variables.append(variable)
'''), (G2O, '''def parse_g2o(''', '''def _parse_se3_vertex(parts: List[str]):
    _, index, x, y, z, qx, qy, qz, qw = parts
    wxyz_xyz = onp.array([float(v) for v in (qw, qx, qy, qz, x, y, z)])
    return int(index), jaxlie.SE3(wxyz_xyz=wxyz_xyz)  # type: ignore


def parse_g2o('''))
