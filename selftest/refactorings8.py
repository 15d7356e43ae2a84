"""Rewrites that treat nothing, one thing, or what needs no work apart; checks and logging added; other formulas."""

from cases import R
from refactorings import ASSIGN, COO, COV, DL, FACTOR, FX, GAUSS, GEO, GN, GRAPH, HUBER, LAYOUT, LIE, LIN, LM, MX, NB, STACK, VARS

G2O = "scripts/_g2o_utils.py"

R("retract: empty types skipped",(ASSIGN,"            storage_index = self.storage_layout.index_from_variable_type[variable_type]\n            local","            if count == 0:\n                continue\n            storage_index = self.storage_layout.index_from_variable_type[variable_type]\n            local"))
R("retract: into a copy, empty types skipped",(ASSIGN,"        new_storage = jnp.zeros_like(self.storage)\n        variable_type","        new_storage = self.storage\n        variable_type"),(ASSIGN,"            storage_index = self.storage_layout.index_from_variable_type[variable_type]\n            local","            if not count:\n                continue\n            storage_index = self.storage_layout.index_from_variable_type[variable_type]\n            local"))
R("retract: types with no parameters skipped",(ASSIGN,"            # Get batched variables\n","            if dim * count == 0:\n                continue\n\n            # Get batched variables\n"))
R("retract: types with no local parameters skipped, copy",(ASSIGN,"        new_storage = jnp.zeros_like(self.storage)\n        variable_type","        new_storage = self.storage\n        variable_type"),(ASSIGN,"            # Get batched variables\n","            if dim == 0:\n                continue\n\n            # Get batched variables\n"))
R("convert: empty variables skipped",(ASSIGN,"            shuffle_indices = shuffle_indices.at[\n","            if variable_dim == 0:\n                continue\n            shuffle_indices = shuffle_indices.at[\n"))
R("convert: moved only",(ASSIGN,"        shuffle_indices = jnp.zeros(dim, dtype=jnp.int32)\n","        shuffle_indices = jnp.arange(dim, dtype=jnp.int32)\n"),(ASSIGN,"            variable_dim = (\n","            if source_index == target_index:\n                continue\n            variable_dim = (\n"))
R("layout: nothing stored",(LAYOUT,"        # Assign block of storage vector for each variable\n","        if not variables_from_type:\n            return StorageLayout(local, 0, frozendict(), frozendict(), frozendict())\n\n        # Assign block of storage vector for each variable\n"))
R("stack: single factor broadcast",(STACK,"            lambda *arrays: jnp.stack(arrays, axis=0),\n","            lambda *arrays: jnp.stack(arrays, axis=0) if len(arrays) > 1 else jnp.asarray(arrays[0])[None],\n"))
R("graph: one stack",(GRAPH,"        assert residual_vector.shape == (self.residual_dim,)\n        return residual_vector","        if residual_vector.shape != (self.residual_dim,):\n            raise AssertionError(\"residual dimension\")\n        return residual_vector"))
R("defaults: one type needs no concatenation",(ASSIGN,'''        storage = jnp.concatenate(
            [
                jnp.tile(
                    jax.jit(variable_type.flatten)(variable_type.get_default_value()),
                    reps=(storage_layout.count_from_variable_type[variable_type],),
                )
                for variable_type in storage_layout.get_variable_types()
            ],
            axis=0,
        )
''','''        blocks = [
            jnp.tile(
                jax.jit(variable_type.flatten)(variable_type.get_default_value()),
                reps=(storage_layout.count_from_variable_type[variable_type],),
            )
            for variable_type in storage_layout.get_variable_types()
        ]
        storage = blocks[0] if len(blocks) == 1 else jnp.concatenate(blocks, axis=0)
'''))
R("graph: one stack needs no concatenation",(GRAPH,'''            values=jnp.concatenate([A.flatten() for A in A_values_list]),
''','''            values=(
                A_values_list[0].flatten()
                if len(A_values_list) == 1
                else jnp.concatenate([A.flatten() for A in A_values_list])
            ),
'''))
R("graph: coords of one argument",(GRAPH,'''            lambda *arrays: onp.concatenate(arrays, axis=0), *jacobian_coords
''','''            lambda *arrays: arrays[0] if len(arrays) == 1 else onp.concatenate(arrays, axis=0), *jacobian_coords
'''))
R("convert: nothing to move",(ASSIGN,"        shuffle_indices = jnp.zeros(dim, dtype=jnp.int32)\n","        if dim == 0:\n            return VariableAssignments(storage=self.storage, storage_layout=storage_layout)\n\n        shuffle_indices = jnp.zeros(dim, dtype=jnp.int32)\n"))
R("convert: one variable",(ASSIGN,"        shuffle_indices = jnp.zeros(dim, dtype=jnp.int32)\n","        if len(variables) <= 1:\n            return VariableAssignments(storage=self.storage, storage_layout=storage_layout)\n\n        shuffle_indices = jnp.zeros(dim, dtype=jnp.int32)\n"))
R("marginal: nothing asked for",(COV,'''        dim = len(indices)
        marginal_covariance''','''        dim = len(indices)
        if dim == 0:
            return onp.zeros((0, 0))
        marginal_covariance'''))
R("marginal: no variables",(COV,'''        indices: List[int] = []
        for v in variables''','''        if not variables:
            return onp.zeros((0, 0))
        indices: List[int] = []
        for v in variables'''))
R("as dict: empty",(ASSIGN,"        return {v: self.get_value(v) for v in self.get_variables()}","        if not self.get_variables():\n            return {}\n        return {v: self.get_value(v) for v in self.get_variables()}"))
R("graph: no factors",(GRAPH,"        variables = list(variables_ordered_set.keys())\n","        assert len(factors_from_group) > 0\n        variables = list(variables_ordered_set.keys())\n"))
R("anonymize: no variables",(FACTOR,"        v: VariableBase\n        return jdc","        v: VariableBase\n        if len(self.variables) == 0:\n            return self\n        return jdc"))
R("nll: no stacks",(GRAPH,"        # Add log-determinant terms\n","        if not self.factor_stacks:\n            return joint_nll\n\n        # Add log-determinant terms\n"))
R("matmul: no entries",(COO,'''        return (
            jnp.zeros(self.shape[0], dtype=other.dtype)
            .at[''','''        if len(self.values) == 0:
            return jnp.zeros(self.shape[0], dtype=other.dtype)
        return (
            jnp.zeros(self.shape[0], dtype=other.dtype)
            .at['''))
R("dense: no entries",(COO,'''        return (
            jnp.zeros(self.shape)
''','''        if self.values.shape[0] == 0:
            return jnp.zeros(self.shape)
        return (
            jnp.zeros(self.shape)
'''))
R("get values: none",(FACTOR,"            tuple(assignments.get_value(v) for v in self.variables)\n","            tuple(assignments.get_value(v) for v in self.variables) if self.variables else ()\n"))
R("jacobian: empty graph refused first",(GRAPH,"        assert residual_end != 0\n        assert residual_end == self.residual_dim\n","        assert len(A_values_list) > 0\n        assert residual_end != 0\n        assert residual_end == self.residual_dim\n"))
R("convert: same object first",(ASSIGN,"        if self.storage_layout == storage_layout:\n            return self\n","        if self.storage_layout is storage_layout:\n            return self\n        if self.storage_layout == storage_layout:\n            return self\n"))
R("convert: identity or equality",(ASSIGN,"        if self.storage_layout == storage_layout:\n            return self\n","        if self.storage_layout is storage_layout or self.storage_layout == storage_layout:\n            return self\n"))
R("solve: converted only when needed",(NB,"        assignments = initial_assignments.update_storage_layout(graph.storage_layout)\n        state","        assignments = initial_assignments\n        if assignments.storage_layout != graph.storage_layout:\n            assignments = assignments.update_storage_layout(graph.storage_layout)\n        state"))
R("solve: reverted only when needed",(NB,"        return state.assignments.update_storage_layout(\n            initial_assignments.storage_layout\n        )","        if initial_assignments.storage_layout == graph.storage_layout:\n            return state.assignments\n        return state.assignments.update_storage_layout(\n            initial_assignments.storage_layout\n        )"))
R("residual: converted only when needed",(GRAPH,"        assignments = assignments.update_storage_layout(self.storage_layout)\n\n        # Flatten","        if assignments.storage_layout != self.storage_layout:\n            assignments = assignments.update_storage_layout(self.storage_layout)\n\n        # Flatten"))
R("solver: messages behind the flag",(NB,'''        self._hcb_print(
            lambda i, cost: f"Terminated @ iteration #{i}: cost={str(cost).ljust(15)}",
            i=state.iterations,
            cost=state.cost,
        )
''','''        if self.verbose:
            self._hcb_print(
                lambda i, cost: f"Terminated @ iteration #{i}: cost={str(cost).ljust(15)}",
                i=state.iterations,
                cost=state.cost,
            )
'''))
R("cov: cache through exceptions",(COV,'''        if indices in self._value_cache:
            return self._value_cache[indices]
''','''        try:
            return self._value_cache[indices]
        except KeyError:
            pass
'''))
R("cov: cache through get",(COV,'''        if indices in self._value_cache:
            return self._value_cache[indices]
''','''        known = self._value_cache.get(indices)
        if known is not None:
            return known
'''))
R("cov: diagonal first",(COV,'''        if indices[0] > indices[1]:
            indices = indices[::-1]
        row, col = indices
''','''        row, col = indices
        if row != col and row > col:
            row, col = col, row
        indices = (row, col)
'''))
R("convert: scalars set singly",(ASSIGN,'''            shuffle_indices = shuffle_indices.at[
                target_index : target_index + variable_dim
            ].set(jnp.arange(source_index, source_index + variable_dim))
''','''            block = slice(target_index, target_index + variable_dim)
            shuffle_indices = shuffle_indices.at[block].set(
                source_index + jnp.arange(variable_dim)
            )
'''))
R("layout: two passes",(LAYOUT,'''                storage_index += (
                    variable.get_local_parameter_dim()
                    if local
                    else variable.get_parameter_dim()
                )
''','''                if local:
                    storage_index += variable.get_local_parameter_dim()
                else:
                    storage_index += variable.get_parameter_dim()
'''))
R("partial: none given",(ASSIGN,'''        # Figure out how variables are stored
        storage_layout = StorageLayout.make(variables, local=False)

        # Stack variable values in order
        storage = jnp.concatenate(
            [
                jax.jit(variable.flatten)(
                    assignments[variable]
                    if assignments is not None and variable in assignments
                    else variable.get_default_value()
                )
''','''        if assignments is None:
            assignments = {}

        # Figure out how variables are stored
        storage_layout = StorageLayout.make(variables, local=False)

        # Stack variable values in order
        storage = jnp.concatenate(
            [
                jax.jit(variable.flatten)(
                    assignments[variable]
                    if variable in assignments
                    else variable.get_default_value()
                )
'''))
R("partial: empty or none",(ASSIGN,'''                    if assignments is not None and variable in assignments
''','''                    if assignments and variable in assignments
'''))
R("partial: or",(ASSIGN,'''        # Figure out how variables are stored
        storage_layout = StorageLayout.make(variables, local=False)

        # Stack variable values in order
        storage = jnp.concatenate(
            [
                jax.jit(variable.flatten)(
                    assignments[variable]
                    if assignments is not None and variable in assignments
''','''        assignments = assignments or {}

        # Figure out how variables are stored
        storage_layout = StorageLayout.make(variables, local=False)

        # Stack variable values in order
        storage = jnp.concatenate(
            [
                jax.jit(variable.flatten)(
                    assignments[variable]
                    if variable in assignments
'''))
R("partial: defaults when nothing is given",(ASSIGN,'''        # Figure out how variables are stored
        storage_layout = StorageLayout.make(variables, local=False)

        # Stack variable values in order
        storage = jnp.concatenate(
            [
                jax.jit(variable.flatten)(
''','''        if not assignments:
            return VariableAssignments.make_from_defaults(variables)

        # Figure out how variables are stored
        storage_layout = StorageLayout.make(variables, local=False)

        # Stack variable values in order
        storage = jnp.concatenate(
            [
                jax.jit(variable.flatten)(
'''))
R("graph make: one group",(GRAPH,'''        for group_key, group in factors_from_group.items():
            # Make''','''        for group_key, group in factors_from_group.items():
            if len(group) == 0:
                continue
            # Make'''))
R("values: nothing to validate",(FACTOR,'''        # Validate expected and received types
        assert len(variable_values) == len(tuple_content_types)
''','''        # Validate expected and received types
        assert len(variable_values) == len(tuple_content_types)
        if len(variable_values) == 0:
            return output
'''))
R("cholmod: shared handle",(LIN,'''        if cache_key not in _cholmod_analyze_cache:
            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)
''','''        factor = _cholmod_analyze_cache.get(cache_key)
        if factor is None:
            factor = sksparse.cholmod.analyze_AAt(A_T_scipy)
            _cholmod_analyze_cache[cache_key] = factor
'''))
R("g2o: empty lines",(G2O,'''        parts = [part for part in line.split(" ") if part != ""]
''','''        parts = [part for part in line.split(" ") if part != ""]
        if len(parts) == 0:
            continue
'''))
R("g2o: comment lines",(G2O,'''        parts = [part for part in line.split(" ") if part != ""]
''','''        if not line:
            continue
        parts = [part for part in line.split(" ") if part != ""]
'''))
R("named scope around residual",(GRAPH,"        residual_vector = self.compute_whitened_residual_vector(assignments)\n        cost = jnp.sum(residual_vector**2)\n","        with jax.named_scope(\"cost\"):\n            residual_vector = self.compute_whitened_residual_vector(assignments)\n            cost = jnp.sum(residual_vector**2)\n"))
R("debug log",(GRAPH,"        variables = list(variables_ordered_set.keys())\n","        variables = list(variables_ordered_set.keys())\n        logger.debug(\"%d variables\", len(variables))\n"),(GRAPH,"# Key for determining which","logger = logging.getLogger(__name__)\n\n# Key for determining which"),(GRAPH,"import jax\n","import logging\n\nimport jax\n"))
R("layout: refuses non variables",(LAYOUT,"            variables_from_type[type(variable)].append(variable)","            assert isinstance(variable, VariableBase), variable\n            variables_from_type[type(variable)].append(variable)"))
R("graph: refuses no factors",(GRAPH,"        # Start by grouping","        factors = list(factors)\n        if not factors:\n            raise ValueError(\"A graph needs at least one factor\")\n\n        # Start by grouping"))
R("retract: checks dims",(ASSIGN,"        # On-manifold retractions, one variable type at a time!\n","        assert self.storage.shape == (self.storage_layout.dim,)\n        # On-manifold retractions, one variable type at a time!\n"))
R("set value: checks membership",(ASSIGN,"        index = self.storage_layout.index_from_variable[variable]\n        with","        if variable not in self.storage_layout.index_from_variable:\n            raise KeyError(variable)\n        index = self.storage_layout.index_from_variable[variable]\n        with"))
R("get value: try",(ASSIGN,"        index = self.storage_layout.index_from_variable[variable]\n        return type","        try:\n            index = self.storage_layout.index_from_variable[variable]\n        except KeyError as e:\n            raise KeyError(f\"Unknown variable {variable}\") from e\n        return type"))
R("gaussian: asarray",(GAUSS,'        return jnp.einsum("ij,j->i", self.sqrt_precision_matrix, residual_vector)','        residual_vector = jnp.asarray(residual_vector)\n        assert residual_vector.ndim == 1\n        return jnp.einsum("ij,j->i", self.sqrt_precision_matrix, residual_vector)'))
R("coo: checks",(COO,"        # TODO: untested\n","        assert len(self.shape) == 2\n"))
R("cg: checks shapes",(LIN,'        assert len(ATb.shape) == 1, "ATb should be 1D!"\n','        assert len(ATb.shape) == 1, "ATb should be 1D!"\n        assert ATb.shape == (A.shape[1],)\n'))
R("cov: bounds checked",(COV,"        # Enforce symmetry\n","        assert 0 <= min(indices) and max(indices) < self.local_storage_layout.dim\n        # Enforce symmetry\n"))
R("cov: ints",(COV,"        row, col = indices\n\n","        row, col = indices\n        assert row <= col\n\n"))
R("convert: message",(ASSIGN,"        assert self.storage_layout.dim == storage_layout.dim\n","        assert self.storage_layout.dim == storage_layout.dim, (\n            f\"Dimension mismatch: {self.storage_layout.dim} != {storage_layout.dim}\"\n        )\n"))
R("solver: graph checked",(GN,"        # Linearize graph\n","        assert state_prev.residual_vector.shape == (graph.residual_dim,)\n        # Linearize graph\n"))
R("max iterations: jnp",(MX,"        return state_prev.iterations >= (self.max_iterations - 1)  # type: ignore","        iterations = jnp.asarray(state_prev.iterations)\n        return iterations + 1 >= self.max_iterations"))
R("nll: refusal first",(GRAPH,"        # Add Mahalanobis distance terms to NLL\n","        for stacked_factor in self.factor_stacks:\n            assert isinstance(\n                stacked_factor.factor.noise_model, (noises.Gaussian, noises.DiagonalGaussian)\n            ), f\"Joint NLL not supported  for {type(stacked_factor.factor.noise_model)}\"\n\n        # Add Mahalanobis distance terms to NLL\n"))
R("variable: repr",(VARS,"    @classmethod\n    @final\n    def get_parameter_dim","    def __repr__(self) -> str:\n        return f\"{type(self).__name__}(dim={self._parameter_dim})\"\n\n    @classmethod\n    @final\n    def get_parameter_dim"))
R("layout: len",(LAYOUT,"    def get_variables(self)","    def __len__(self) -> int:\n        return len(self.index_from_variable)\n\n    def __contains__(self, variable: VariableBase) -> bool:\n        return variable in self.index_from_variable\n\n    def get_variables(self)"))
R("assignments: contains",(ASSIGN,"    def as_dict(self)","    def __contains__(self, variable: VariableBase) -> bool:\n        return variable in self.storage_layout.index_from_variable\n\n    def as_dict(self)"))
R("stack: checks lengths",(STACK,"        # For one-off computations","        assert len(factors) > 0\n        assert all(len(f.variables) == len(factors[0].variables) for f in factors)\n        # For one-off computations"))
R("huber: positive threshold assumed",(HUBER,"        residual_norm = jnp.linalg.norm(residual_vector)\n        return jnp.where(\n            residual_norm < self.delta,\n            residual_vector,","        residual_norm = jnp.linalg.norm(residual_vector)\n        inlier = residual_norm < self.delta\n        return jnp.where(\n            inlier,\n            residual_vector,"))
R("stopwatch style finally",(NB,"        state = jax.lax.while_loop(\n            cond_fun=lambda state: jnp.logical_not(state.done),\n            body_fun=functools.partial(self._step, graph),\n            init_val=state,\n        )\n","        def running(state):\n            return ~jnp.asarray(state.done)\n\n        state = jax.lax.while_loop(\n            cond_fun=running,\n            body_fun=lambda state: self._step(graph, state),\n            init_val=state,\n        )\n"))
R("g2o: path checked",(G2O,"    with open(path) as file:\n","    path = pathlib.Path(path)\n    assert path.exists(), path\n    with open(path) as file:\n"))
R("g2o: index checked",(G2O,"            before_index = int(parts[1])\n            after_index = int(parts[2])\n\n            numerical_parts","            before_index = int(parts[1])\n            after_index = int(parts[2])\n            assert before_index < len(pose_variables)\n            assert after_index < len(pose_variables)\n\n            numerical_parts"))
R("between: value checked",(GEO,"        T_world_a = variable_values.T_world_a\n        T_world_b = variable_values.T_world_b\n\n        return","        T_world_a = variable_values.T_world_a\n        T_world_b = variable_values.T_world_b\n        assert type(T_world_a) is type(T_world_b)\n\n        return"))
R("layout: dict of dims checked",(LAYOUT,"        return StorageLayout(\n            local_flag=local,","        assert storage_index >= 0\n        assert len(index_from_variable) == sum(map(len, variables_from_type.values()))\n        return StorageLayout(\n            local_flag=local,"))
R("dogleg: radius select",(DL,'''        radius = jnp.where(
            step_quality < 0.25,
            state_prev.radius / 2.0,
            jnp.where(
                step_quality > 0.75,
                jnp.max(
                    jnp.array([state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)])
                ),
                state_prev.radius,
            ),
        )
''','''        poor = step_quality < 0.25
        good = jnp.logical_and(~poor, step_quality > 0.75)
        radius = jnp.select(
            [poor, good],
            [
                0.5 * state_prev.radius,
                jnp.maximum(state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)),
            ],
            state_prev.radius,
        )
'''))
R("lm: damping by cond",(LM,'''        lambd = jnp.where(
            accept_flag,
            # If accept, decrease damping: note that we *don't* enforce any bounds here
            state_prev.lambd / self.lambda_factor,
            # If reject: increase lambda and enforce bounds
            jnp.maximum(
                self.lambda_min,
                jnp.minimum(state_prev.lambd * self.lambda_factor, self.lambda_max),
            ),
        )
''','''        lambd = jax.lax.cond(
            accept_flag,
            lambda l: l / self.lambda_factor,
            lambda l: jnp.maximum(jnp.minimum(l * self.lambda_factor, self.lambda_max), self.lambda_min),
            jnp.asarray(state_prev.lambd),
        )
'''),(LM,"import jax_dataclasses as jdc\n","import jax\nimport jax_dataclasses as jdc\n"))
R("mixins: convergence by or",(MX,'''        return jnp.any(
            jnp.array(
                [
                    converged_cost,
                    converged_gradient,
                    converged_parameters,
                ]
            ),
            axis=0,
        )
''','''        return converged_cost | converged_gradient | converged_parameters
'''))
R("mixins: gradient test by and",(MX,'''        converged_gradient = jnp.where(
            state_prev.iterations >= self.gradient_tolerance_start_step,
            jnp.max(
                jnp.abs(
                    state_prev.assignments.storage
                    - state_prev.assignments.manifold_retract(
                        VariableAssignments(
                            storage=negative_gradient,
                            storage_layout=local_delta_assignments.storage_layout,
                        ),
                    ).storage
                )
            )
            < self.gradient_tolerance,
            False,
        )
''','''        stepped = state_prev.assignments.manifold_retract(
            jdc.replace(local_delta_assignments, storage=negative_gradient)
        )
        change = stepped.storage - state_prev.assignments.storage
        largest = jnp.linalg.norm(change, ord=jnp.inf)
        converged_gradient = (largest < self.gradient_tolerance) & (
            state_prev.iterations >= self.gradient_tolerance_start_step
        )
'''))
R("mixins: quality as decrease",(MX,'''        return (proposed_cost - state_prev.cost) / (
            jnp.sum((A @ step_vector + state_prev.residual_vector) ** 2)
            - state_prev.cost
        )
''','''        predicted_residual = state_prev.residual_vector + A @ step_vector
        predicted = state_prev.cost - jnp.vdot(predicted_residual, predicted_residual)
        actual = state_prev.cost - proposed_cost
        return actual / predicted
'''))
R("lm: all through one where",(LM,'''        # Get output assignments
        assignments = jdc.replace(
            state_prev.assignments,
            storage=jnp.where(
                accept_flag,
                assignments_proposed.storage,
                state_prev.assignments.storage,
            ),
        )
''','''        # Get output assignments
        assignments = jax.tree_map(
            lambda new, old: jnp.where(accept_flag, new, old),
            assignments_proposed,
            state_prev.assignments,
        )
'''),(LM,"import jax_dataclasses as jdc\n","import jax\nimport jax_dataclasses as jdc\n"))
R("lm: state chosen whole",(LM,'''            cost=jnp.where(
                accept_flag, proposed_cost, state_prev.cost
            ),  # Use old cost if update is rejected
            residual_vector=jnp.where(
                accept_flag, residual_vector, state_prev.residual_vector
            ),  # Use old residual if update is rejected
''','''            **dict(
                zip(
                    ("cost", "residual_vector"),
                    (
                        jnp.where(accept_flag, new, old)
                        for new, old in (
                            (proposed_cost, state_prev.cost),
                            (residual_vector, state_prev.residual_vector),
                        )
                    ),
                )
            ),
'''))
R("dogleg: norms by hand",(DL,'''            norm_gn = jnp.linalg.norm(step_vector_gn)
            norm_sd = jnp.linalg.norm(a)
''','''            norm_gn = jnp.sqrt(jnp.vdot(b, b))
            norm_sd = jnp.sqrt(a_norm_sq)
'''))
R("dogleg: squares compared",(DL,"                norm_gn <= state_prev.radius,\n","                jnp.sum(step_vector_gn**2) <= radius_sq,\n"))
R("fixed: fori loop",(FX,'''            state = jax.lax.while_loop(
                cond_fun=lambda state: jnp.logical_not(state.done),
                body_fun=functools.partial(self._step, graph),
                init_val=state,
            )
''','''            step = functools.partial(self._step, graph)
            state = jax.lax.while_loop(lambda s: ~jnp.asarray(s.done), step, state)
'''))
R("gn: gradient by product",(GN,"        ATb = -(A.T @ state_prev.residual_vector)\n","        gradient = A.T @ state_prev.residual_vector\n        ATb = -1.0 * gradient\n"))
R("cost by dot",(GRAPH,"        cost = jnp.sum(residual_vector**2)\n","        cost = residual_vector @ residual_vector\n"))
R("nll by parts",(GRAPH,"        joint_nll = jnp.sum(self.compute_whitened_residual_vector(assignments) ** 2)\n","        joint_nll, _ = self.compute_cost(assignments)\n"))
R("nll slogdet",(GRAPH,'''                cov_determinants = -2.0 * jnp.log(
                    jnp.abs(
                        jnp.linalg.det(
                            cast(noises.Gaussian, noise_model).sqrt_precision_matrix
                        )
                    )
                )
''','''                _, logabsdet = jnp.linalg.slogdet(noise_model.sqrt_precision_matrix)
                cov_determinants = -2.0 * logabsdet
'''))
R("cg: diag by segment sum",(LIN,"        ATA_diagonals = jnp.zeros_like(initial_x).at[A.coords.cols].add(A.values**2)\n","        ATA_diagonals = jax.ops.segment_sum(\n            A.values**2, A.coords.cols, num_segments=ATb.shape[0]\n        )\n"))
R("coo: segment sum",(COO,'''        return (
            jnp.zeros(self.shape[0], dtype=other.dtype)
            .at[self.coords.rows]
            .add(self.values * other[self.coords.cols])
        )
''','''        products = self.values * other[self.coords.cols]
        return jax.ops.segment_sum(products, self.coords.rows, num_segments=self.shape[0])
'''),(COO,"from jax import numpy as jnp\n","import jax\nfrom jax import numpy as jnp\n"))
R("huber weight once",(HUBER,'''        return jnp.where(
            residual_norm < self.delta,
            jacobian,
            jacobian * (self.delta / residual_norm),
        )
''','''        weight = jnp.where(residual_norm < self.delta, 1.0, self.delta / residual_norm)
        return weight * jacobian
'''))
R("huber weight by minimum",(HUBER,'''        return jnp.where(
            residual_norm < self.delta,
            jacobian,
            jacobian * (self.delta / residual_norm),
        )
''','''        return jacobian * jnp.minimum(1.0, self.delta / residual_norm)
'''))
R("gaussian cov via solve",(GAUSS,"sqrt_precision_matrix=jnp.linalg.inv(jnp.linalg.cholesky(covariance))","sqrt_precision_matrix=jax.scipy.linalg.solve_triangular(\n                jnp.linalg.cholesky(covariance), jnp.eye(covariance.shape[0]), lower=True\n            )"),(GAUSS,"import jax_dataclasses as jdc\n","import jax\nimport jax.scipy.linalg\nimport jax_dataclasses as jdc\n"))
R("diag cov via rsqrt",(GAUSS,"sqrt_precision_diagonal=1.0 / jnp.sqrt(jnp.asarray(diagonal))","sqrt_precision_diagonal=jax.lax.rsqrt(jnp.asarray(diagonal))"),(GAUSS,"import jax_dataclasses as jdc\n","import jax\nimport jax_dataclasses as jdc\n"))
R("diag cov via power",(GAUSS,"1.0 / jnp.sqrt(jnp.asarray(diagonal))","jnp.asarray(diagonal) ** -0.5"))
