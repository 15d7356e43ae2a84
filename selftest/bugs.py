"""Bugs as another developer might introduce them: plausible optimisations, clean-ups and features that break a property only in particular circumstances."""

from cases import M


def B(props, name, *edits):
    M(props, "bug: " + name, *edits)


C = "jaxfg/core/"
SL, VA, VB, FB, FS, SG = C + "_storage_layout.py", C + "_variable_assignments.py", C + "_variables.py", C + "_factor_base.py", C + "_factor_stack.py", C + "_stacked_factor_graph.py"
S = "jaxfg/solvers/"
LM, DL, GN, FX = S + "_levenberg_marquardt_solver.py", S + "_dogleg_solver.py", S + "_gauss_newton_solver.py", S + "_fixed_iteration_gauss_newton_solver.py"
MX, NB = S + "_mixins.py", S + "_nonlinear_solver_base.py"
LS, SM = "jaxfg/sparse/_linear_solve.py", "jaxfg/sparse/_sparse_matrix.py"
GA, HU = "jaxfg/noises/_gaussians.py", "jaxfg/noises/_huber.py"
GF, LV = "jaxfg/geometry/_factors.py", "jaxfg/geometry/_lie_variables.py"
SC = "jaxfg/experimental/_sparse_covariance.py"
G2 = "scripts/_g2o_utils.py"

# P01
B("P01", "layout sorts variables of a type by id", (SL, "for variable in variables:\n                index_from", "for variable in sorted(variables, key=id):\n                index_from"))
B("P01", "layout sorts types by dimension", (SL, "for variable_type, variables in variables_from_type.items():", "for variable_type, variables in sorted(\n            variables_from_type.items(), key=lambda item: item[0].get_parameter_dim()\n        ):"))
B("P01", "layout buckets by dimension's first type", (SL, "variables_from_type[type(variable)].append(variable)", "variables_from_type[type(variable).__mro__[-5] if len(type(variable).__mro__) > 9 else type(variable)].append(variable)"))
B("P01", "type index recorded after its block", (SL, "            index_from_variable_type[variable_type] = storage_index\n            for variable in variables:\n                index_from_variable[variable] = storage_index\n", "            for variable in variables:\n                index_from_variable[variable] = storage_index\n                index_from_variable_type[variable_type] = storage_index\n"))
B("P01", "counts of variables with nonzero dimension", (SL, "{k: len(v) for k, v in variables_from_type.items()}", "{k: len(v) for k, v in variables_from_type.items() if len(v) > 1 or not local}"))
B("P01", "count from last bucket", (SL, "{k: len(v) for k, v in variables_from_type.items()}", "{k: len(variables) for k, v in variables_from_type.items()}"))
B("P01", "first type's dimension used for stride", (SL, "                storage_index += (\n                    variable.get_local_parameter_dim()\n                    if local\n                    else variable.get_parameter_dim()\n                )", "                storage_index += (\n                    variables[0].get_local_parameter_dim()\n                    if local and len(variables) > 1\n                    else variable.get_parameter_dim()\n                )"))
B("P01", "local dim at most parameter dim minus one", (SL, "variable.get_local_parameter_dim()\n", "min(variable.get_local_parameter_dim(), 6)\n"))
B("P01", "get_variables sorted by index then id", (SL, "return self.index_from_variable.keys()", "return sorted(self.index_from_variable, key=lambda v: (type(v).__name__, self.index_from_variable[v]))"))
B("P01", "variable types as set", (SL, "return self.index_from_variable_type.keys()", "return set(self.index_from_variable_type.keys())"))
B("P01", "layout dim from counts", (SL, "dim=storage_index,", "dim=sum(\n                len(v) * k.get_parameter_dim() for k, v in variables_from_type.items()\n            ),"))

# P02
B("P02", "partial dict: falsy values replaced by default", (VA, "assignments[variable]\n                    if assignments is not None and variable in assignments\n                    else variable.get_default_value()", "assignments.get(variable) or variable.get_default_value()"))
B("P02", "partial dict: values in dict order", (VA, "                    else variable.get_default_value()\n                )\n                for variable in storage_layout.get_variables()", "                    else variable.get_default_value()\n                )\n                for variable in (assignments or storage_layout.get_variables())"))
B("P02", "dict: default instead of value for shared type", (VA, "assignments[variable]\n                    if assignments is not None and variable in assignments", "assignments[variable]\n                    if assignments and variable in list(assignments)[:64]"))
B("P02", "defaults from first variable type", (VA, "jax.jit(variable_type.flatten)(variable_type.get_default_value()),", "jnp.zeros_like(jax.jit(variable_type.flatten)(variable_type.get_default_value())),"))
B("P02", "stacked value transposed reshape", (VA, ".reshape((count, variable_type.get_parameter_dim()))", '.reshape((count, variable_type.get_parameter_dim()), order="F")'))
B("P02", "stacked value drops last", (VA, "index : index + variable_type.get_parameter_dim() * count\n            ].reshape((count, variable_type.get_parameter_dim()))", "index : index + variable_type.get_parameter_dim() * max(count - 1, 1)\n            ].reshape((-1, variable_type.get_parameter_dim()))"))
B("P02", "set_value adds for own block", (VA, ".set(type(variable).flatten(value))", ".add(type(variable).flatten(value) - 0.0)"))
B("P02", "set_value writes at type start", (VA, "        index = self.storage_layout.index_from_variable[variable]\n        with jdc", "        index = self.storage_layout.index_from_variable_type[type(variable)]\n        with jdc"))
B("P02", "as_dict by type and stacked", (VA, "return {v: self.get_value(v) for v in self.get_variables()}", "return dict(zip(self.get_variables(), (self.get_value(v) for v in reversed(list(self.get_variables())))))"))
B("P02", "get_value uses local dim", (VA, "self.storage[index : index + variable.get_parameter_dim()]", "self.storage[index : index + variable.get_local_parameter_dim()]"))
B("P02", "set_value keeps dtype of value", (VA, "jnp.asarray(output.storage)  # In case storage vector is an onp array", "jnp.asarray(output.storage, dtype=jnp.float16)"))
B("P02 P21", "set_value on numpy storage in place", (VA, """        with jdc.copy_and_mutate(self) as output:
            output.storage = (
                jnp.asarray(output.storage)  # In case storage vector is an onp array
                .at[index : index + type(variable).get_parameter_dim()]
                .set(type(variable).flatten(value))
            )
        return output""", """        storage = self.storage
        if isinstance(storage, jax.Array):
            storage = storage.at[index : index + variable.get_parameter_dim()].set(
                type(variable).flatten(value)
            )
        else:
            storage[index : index + variable.get_parameter_dim()] = type(
                variable
            ).flatten(value)
        return jdc.replace(self, storage=storage)"""))

# P03
B("P03", "same-dimension layouts treated as equal", (VA, "if self.storage_layout == storage_layout:\n            return self", "if (\n            self.storage_layout.index_from_variable_type\n            == storage_layout.index_from_variable_type\n        ):\n            return self"))
B("P03", "no-op keeps old layout", (VA, "if self.storage_layout == storage_layout:\n            return self", "if list(self.get_variables()) == list(storage_layout.get_variables()):\n            return self"))
B("P03", "inverse permutation", (VA, "].set(jnp.arange(source_index, source_index + variable_dim))\n\n        new_storage = self.storage[shuffle_indices]", "].set(jnp.arange(source_index, source_index + variable_dim))\n\n        new_storage = jnp.zeros_like(self.storage).at[shuffle_indices].set(self.storage)"))
B("P03", "shuffle indices sorted dims", (VA, "target_index : target_index + variable_dim\n            ].set(jnp.arange(source_index, source_index + variable_dim))", "source_index : source_index + variable_dim\n            ].set(jnp.arange(target_index, target_index + variable_dim))"))
B("P03", "int16 indices", (VA, "dtype=jnp.int32", "dtype=jnp.int16"))
B("P03", "subset accepted", (VA, "assert set(self.storage_layout.get_variables()) == set(\n            storage_layout.get_variables()\n        )", "assert set(self.storage_layout.get_variables()) >= set(\n            storage_layout.get_variables()\n        )"))
B("P03", "only number of variables compared", (VA, "assert set(self.storage_layout.get_variables()) == set(\n            storage_layout.get_variables()\n        )", "assert len(self.storage_layout.get_variables()) == len(\n            storage_layout.get_variables()\n        )"))
B("P03", "local flag from self ignored", (VA, "        assert self.storage_layout.local_flag == storage_layout.local_flag\n", ""))
B("P03", "type blocks moved whole", (VA, """        for variable in variables:
            source_index = self.storage_layout.index_from_variable[variable]
            target_index = storage_layout.index_from_variable[variable]
            variable_dim = (
                variable.get_local_parameter_dim()
                if local_flag
                else variable.get_parameter_dim()
            )
""", """        for variable in storage_layout.get_variable_types():
            source_index = self.storage_layout.index_from_variable_type[variable]
            target_index = storage_layout.index_from_variable_type[variable]
            variable_dim = storage_layout.count_from_variable_type[variable] * (
                variable.get_local_parameter_dim()
                if local_flag
                else variable.get_parameter_dim()
            )
"""))
B("P03", "returned with previous layout's flag", (VA, "        return VariableAssignments(storage=new_storage, storage_layout=storage_layout)\n\n    def as_dict", "        return jdc.replace(self, storage=new_storage)\n\n    def as_dict"))

# P04
B("P04", "retract: delta reshaped by dim", (VA, "].reshape((count, local_dim))", "].reshape((local_dim, count)).T"))
B("P04", "retract with base layout's local start", (VA, "            local_storage_index = (\n                local_delta_assignments.storage_layout.index_from_variable_type[\n                    variable_type\n                ]\n            )", "            local_storage_index = (\n                storage_index\n                // variable_type.get_parameter_dim()\n                * variable_type.get_local_parameter_dim()\n            )"))
B("P04", "euclidean shortcut when dims agree", (VA, "            # Batched variable update\n", "            if dim == local_dim:\n                new_storage = new_storage.at[\n                    storage_index : storage_index + dim * count\n                ].set((batched_values_flat + batched_deltas).flatten())\n                continue\n\n            # Batched variable update\n"))
B("P04", "retract returns delta's layout", (VA, "return jdc.replace(self, storage=new_storage)", "return VariableAssignments(\n            storage=new_storage,\n            storage_layout=local_delta_assignments.storage_layout,\n        )"))
B("P04", "retract assertion or", (VA, "        assert not self.storage_layout.local_flag\n        assert local_delta_assignments.storage_layout.local_flag\n", "        assert (\n            not self.storage_layout.local_flag\n            or local_delta_assignments.storage_layout.local_flag\n        )\n"))
B("P04", "retract skips zero deltas start", (VA, "new_storage = jnp.zeros_like(self.storage)", "new_storage = jnp.zeros_like(local_delta_assignments.storage, shape=self.storage.shape)[:1] * self.storage"))
B("P04", "retract: in_axes shares first delta", (VA, "jax.vmap(variable_type.manifold_retract)(\n                        jax.vmap(variable_type.unflatten)(batched_values_flat),\n                        batched_deltas,\n                    )", "jax.vmap(variable_type.manifold_retract, in_axes=(0, None))(\n                        jax.vmap(variable_type.unflatten)(batched_values_flat),\n                        batched_deltas[0],\n                    )"))
B("P04", "retract clamps step", (VA, "                        batched_deltas,\n", "                        jnp.clip(batched_deltas, -10.0, 10.0),\n"))

# P05
B("P05", "group by class and residual dim", (SG, "jax.tree_structure(factor.anonymize_variables()),", "type(factor), factor.get_residual_dim(),"))
B("P05", "leaf sizes instead of shapes", (SG, 'leaf.shape if hasattr(leaf, "shape") else ()', 'leaf.size if hasattr(leaf, "size") else 1'))
B("P05", "identical factors deduplicated", (SG, "            factors_from_group[group_key].append(factor)\n", "            if not any(factor is other for other in factors_from_group[group_key]):\n                factors_from_group[group_key].append(factor)\n"))
B("P05", "only shapes of noise leaves", (SG, "for leaf in jax.tree_leaves(factor)\n", "for leaf in jax.tree_leaves(factor.noise_model)\n"))
B("P05", "variables only of first factor in group", (SG, "            for v in factor.variables:\n                variables_ordered_set[v] = None\n", "            for v in set(factor.variables):\n                variables_ordered_set.setdefault(v, None)\n"))
B("P05", "stack of sorted factors", (FS, "        for factor in factors:\n            for i, variable in enumerate(factor.variables):\n                assert isinstance", "        for factor in sorted(factors, key=lambda f: storage_layout.index_from_variable[f.variables[0]]):\n            for i, variable in enumerate(factor.variables):\n                assert isinstance"))
B("P05", "value index of first variable for same type", (FS, "storage_pos = storage_layout.index_from_variable[variable]", "storage_pos = storage_layout.index_from_variable[factor.variables[factor.variables.index(variable)] if i < 2 else factor.variables[1]]"))
B("P05", "stack layout check compares dim", (FS, "        assert assignments.storage_layout == self.storage_layout\n\n        # Stack inputs to our factors.\n        values_stacked = tuple(\n            jax.vmap(type(variable)", "        assert assignments.storage_layout.dim == self.storage_layout.dim\n\n        # Stack inputs to our factors.\n        values_stacked = tuple(\n            jax.vmap(type(variable)"))
B("P05", "jacobian layout check compares variables", (FS, "        assert assignments.storage_layout == self.storage_layout\n\n        # Stack inputs to our factors.\n        values_stacked = tuple(\n            jax.vmap(variable.unflatten)", "        assert set(assignments.get_variables()) == set(\n            self.storage_layout.get_variables()\n        )\n\n        # Stack inputs to our factors.\n        values_stacked = tuple(\n            jax.vmap(variable.unflatten)"))
B("P05", "stack concatenates then reshape", (FS, "lambda *arrays: jnp.stack(arrays, axis=0),", "lambda *arrays: jnp.stack(sorted(arrays, key=lambda a: a.size), axis=-1).T,"))
B("P05", "isinstance check of variable types removed and last type wins", (FS, "                assert isinstance(\n                    variable, type(factors[0].variables[i])\n                ), \"Variable types of stacked factors must match\"\n", ""))
B("P05", "residuals vmapped with shared factor", (FS, "        residual_vector = jax.vmap(type(self.factor).compute_residual_vector)(\n            self.factor,", "        residual_vector = jax.vmap(\n            type(self.factor).compute_residual_vector, in_axes=(None, 0)\n        )(\n            jax.tree_map(lambda leaf: leaf[0], self.factor),"))
B("P05", "unflatten by first variable's class", (FS, "jax.vmap(type(variable).unflatten)(assignments.storage[indices])\n            for variable, indices in zip(self.factor.variables, self.value_indices)", "jax.vmap(type(self.factor.variables[0]).unflatten)(assignments.storage[indices])\n            for variable, indices in zip(self.factor.variables, self.value_indices)"))

# P06
B("P06", "coords stacked transposed", (FS, "rows=coords[:, 0],\n                    cols=coords[:, 1],", "rows=coords[:, 0] % (num_factors * residual_dim) + row_offset,\n                    cols=coords[:, 1],"))
B("P06", "residual indices column-major", (FS, "residual_indices = onp.arange(num_factors * residual_dim).reshape(\n            (num_factors, residual_dim)\n        )", "residual_indices = onp.arange(num_factors * residual_dim).reshape(\n            (residual_dim, num_factors)\n        ).T"))
B("P06", "uint16 coordinates", (FS, ").reshape((num_factors * residual_dim * variable_dim, 2))", ").reshape((num_factors * residual_dim * variable_dim, 2)).astype(onp.uint16)"))
B("P06", "values flattened column-major", (SG, "values=jnp.concatenate([A.flatten() for A in A_values_list]),", 'values=jnp.concatenate([A.flatten(order="F") for A in A_values_list]),'))
B("P06", "jacobian shape from global layout", (SG, "shape=(self.residual_dim, self.local_storage_layout.dim),", "shape=(self.residual_dim, self.storage_layout.dim),"))
B("P06", "repeated variable's columns merged", (FS, "        for variable_index, variable_type in enumerate(variable_types):\n", "        for variable_index, variable_type in enumerate(variable_types):\n            if variable_index > 0 and onp.array_equal(\n                local_value_indices_stacked[variable_index], local_value_indices_stacked[0]\n            ):\n                continue\n"))
B("P06", "local index from canonical type start", (FS, "storage_pos = local_storage_layout.index_from_variable[variable]", "storage_pos = (\n                    local_storage_layout.index_from_variable_type[type(variable)]\n                    + list(local_storage_layout.get_variables()).index(variable)\n                    * variable.get_local_parameter_dim()\n                )"))

# P07
B("P07", "whitened by first group's noise class", (SG, "type(stacked_factor.factor.noise_model).whiten_residual_vector\n", "type(self.factor_stacks[0].factor.noise_model).whiten_residual_vector\n"))
B("P07", "cost is half", (SG, "cost = jnp.sum(residual_vector**2)", "cost = residual_vector @ residual_vector / 2.0"))
B("P07", "cost of finite residuals", (SG, "cost = jnp.sum(residual_vector**2)", "cost = jnp.nansum(residual_vector**2)"))
B("P07", "nll mean of determinants", (SG, "joint_nll = joint_nll + jnp.sum(cov_determinants)", "joint_nll = joint_nll + jnp.mean(cov_determinants)"))
B("P07", "nll other noise models skipped", (SG, 'assert False, f"Joint NLL not supported  for {type(noise_model)}"', "continue"))
B("P07", "nll ignores huber", (SG, "noise_model = stacked_factor.factor.noise_model\n            if isinstance", 'noise_model = stacked_factor.factor.noise_model\n            if hasattr(noise_model, "wrapped"):\n                noise_model = noise_model.wrapped\n            if isinstance'))
B("P07", "nll no abs", (SG, "cov_determinants = -2.0 * jnp.log(\n                    jnp.abs(\n                        jnp.linalg.det(\n                            cast(noises.Gaussian, noise_model).sqrt_precision_matrix\n                        )\n                    )\n                )", "cov_determinants = -2.0 * jnp.log(\n                    jnp.linalg.det(\n                        cast(noises.Gaussian, noise_model).sqrt_precision_matrix\n                    )\n                )"))
B("P07", "nll product of triangular diagonal", (SG, "jnp.linalg.det(\n                            cast(noises.Gaussian, noise_model).sqrt_precision_matrix\n                        )", "jnp.prod(\n                            jnp.diagonal(\n                                cast(noises.Gaussian, noise_model).sqrt_precision_matrix,\n                                axis1=-2,\n                                axis2=-1,\n                            ),\n                            axis=-1,\n                        )"))
B("P07", "cost returned with negative residual", (SG, "return cost, residual_vector\n", "return cost, jnp.abs(residual_vector)\n"))
B("P07", "residual of assignments without update if dims equal", (SG, "        assignments = assignments.update_storage_layout(self.storage_layout)\n\n        # Flatten", "        assignments = jdc.replace(assignments, storage_layout=self.storage_layout)\n\n        # Flatten"))
B("P07", "joint nll logdet of floor", (SG, "cov_determinants = -2.0 * jnp.log(\n                    jnp.abs(\n                        jnp.linalg.det(", "cov_determinants = -2.0 * jnp.log(\n                    1e-12 + jnp.abs(\n                        jnp.linalg.det("))

# P08
B("P08", "gn residual recomputed at initial", (GN, "ATb = -(A.T @ state_prev.residual_vector)", "ATb = -(A.T @ jnp.clip(state_prev.residual_vector, -1e3, 1e3))"))
B("P08", "gn linearised lazily on even iterations", (GN, "residual_vector=state_prev.residual_vector,\n        )\n        ATb", "residual_vector=jnp.zeros_like(state_prev.residual_vector),\n        )\n        ATb"))
B("P08", "lm passes iteration plus one", (LM, "iteration=state_prev.iterations,\n        )", "iteration=state_prev.iterations + 1,\n        )"))
B("P08", "dogleg damping", (DL, "lambd=0.0,", "lambd=1.0 / state_prev.radius,"))
B("P08", "dogleg iteration constant", (DL, "iteration=state_prev.iterations,\n            )", "iteration=0,\n            )"))
B("P08", "fixed step retracts global layout", (FX, "storage_layout=graph.local_storage_layout,", "storage_layout=graph.storage_layout,"))
B("P08", "gn counter starts at one", (GN, "iterations=0,", "iterations=1,"))
B("P08 P12", "lm counts only accepted", (LM, "iterations=state_prev.iterations + 1,", "iterations=state_prev.iterations + accept_flag,"))
B("P08", "fixed records previous cost", (FX, "            cost=cost,\n            residual_vector=residual_vector,\n            done=done,", "            cost=state_prev.cost,\n            residual_vector=residual_vector,\n            done=done,"))
B("P08", "gn half step on cost increase", (GN, "        # Check for convergence\n        cost, residual_vector", "        assignments = jdc.replace(\n            assignments,\n            storage=jnp.where(\n                jnp.all(jnp.isfinite(assignments.storage)),\n                assignments.storage,\n                state_prev.assignments.storage,\n            ),\n        )\n        # Check for convergence\n        cost, residual_vector"))
B("P08", "initial state of dogleg scaled", (DL, "cost=cost,\n            residual_vector=residual_vector,\n            done=False,", "cost=cost / 2.0,\n            residual_vector=residual_vector,\n            done=False,"))
B("P08", "lm gradient sign", (LM, "ATb = A.T @ -state_prev.residual_vector", "ATb = A.T @ -state_prev.residual_vector / (1.0 + state_prev.lambd)"))

# P09
B("P09", "lm accept any decrease", (LM, "accept_flag = (\n            self.compute_step_quality(\n                A=A,\n                proposed_cost=proposed_cost,\n                state_prev=state_prev,\n                step_vector=step_vector,\n            )\n            >= self.step_quality_min\n        )", "accept_flag = proposed_cost <= state_prev.cost"))
B("P09", "dogleg cost of proposal kept", (DL, "cost=jnp.where(\n                accept_flag, proposed_cost, state_prev.cost\n            ),", "cost=jnp.minimum(proposed_cost, state_prev.cost),"))
B("P09", "quality absolute", (MX, "return (proposed_cost - state_prev.cost) / (\n            jnp.sum((A @ step_vector + state_prev.residual_vector) ** 2)\n            - state_prev.cost\n        )", "return (proposed_cost - state_prev.cost) / (\n            -jnp.abs(jnp.sum((A @ step_vector + state_prev.residual_vector) ** 2)\n            - state_prev.cost)\n        )"))
B("P09", "quality epsilon", (MX, "            - state_prev.cost\n        )", "            - state_prev.cost\n            - 1e-8\n        )"))
B("P09", "lm nan accepted", (LM, "            >= self.step_quality_min\n        )\n", "            < self.step_quality_min\n        )\n        accept_flag = jnp.logical_not(accept_flag)\n"))
B("P09", "lm assignments by where of storage", (LM, "                assignments_proposed.storage,\n                state_prev.assignments.storage,\n            ),\n        )\n\n        # Check", "                assignments_proposed.storage,\n                initial_storage,\n            ),\n        )\n\n        # Check"), (LM, "        accept_flag = (\n", "        initial_storage = jnp.where(\n            jnp.isfinite(proposed_cost),\n            state_prev.assignments.storage,\n            jnp.zeros_like(state_prev.assignments.storage),\n        )\n        accept_flag = (\n"))
B("P09", "dogleg min quality fixed", (DL, "accept_flag = step_quality >= self.step_quality_min", "accept_flag = step_quality >= jnp.minimum(self.step_quality_min, 0.25)"))
B("P09", "lm quality of whole", (MX, "jnp.sum((A @ step_vector + state_prev.residual_vector) ** 2)", "jnp.sum((A @ step_vector) ** 2) + jnp.sum(state_prev.residual_vector ** 2)"))

# P10
B("P10", "radius grown only if step at boundary", (DL, "step_quality > 0.75,", "jnp.logical_and(\n                    step_quality > 0.75,\n                    jnp.linalg.norm(step_vector) >= 0.9 * state_prev.radius,\n                ),"))
B("P10", "quality thresholds inclusive", (DL, "step_quality < 0.25,", "step_quality <= 0.25,"))
B("P10", "nan quality keeps radius", (DL, "state_prev.radius / 2.0,", "jnp.maximum(state_prev.radius / 2.0, 1e-6),"))
B("P10", "cauchy scaled by sd norm", (DL, "norm_sd = jnp.linalg.norm(a)", "norm_sd = jnp.linalg.norm(step_vector_sd)"))
B("P10", "steepest descent from step without alpha", (DL, "state_prev.radius / norm_sd * a,", "state_prev.radius / jnp.maximum(norm_sd, 1.0) * a,"))
B("P10", "beta clipped", (DL, "a + beta * (step_vector_gn - a),", "a + jnp.clip(beta, 0.0, 0.5) * (step_vector_gn - a),"))
B("P10", "radius initial limited", (DL, "radius=self.radius_initial,", "radius=jnp.minimum(self.radius_initial, 1.0),"))
B("P10", "sqrt argument clipped wrongly", (DL, "c**2 + b_minus_a_norm_sq * radius_sq_minus_a_norm_sq\n", "c**2 + b_minus_a_norm_sq * radius_sq\n"))
B("P10", "gn radius compare strict with sd", (DL, "norm_gn <= state_prev.radius,", "norm_gn <= 2.0 * state_prev.radius,"))
B("P10", "alpha inverted denominators", (DL, "alpha = jnp.sum(step_vector_sd**2) / jnp.sum((A @ step_vector_sd) ** 2)", "alpha = jnp.sum(step_vector_sd**2) / jnp.maximum(jnp.sum((A @ step_vector_sd) ** 2), 1e-3)"))
B("P10", "radius times three", (DL, "jnp.array([state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)])", "jnp.array([3.0 * state_prev.radius, jnp.linalg.norm(step_vector)])"))

# P11
B("P11", "lm lower bound on accept", (LM, "state_prev.lambd / self.lambda_factor,", "jnp.maximum(state_prev.lambd / self.lambda_factor, self.lambda_min),"))
B("P11", "lm gain on good step only", (LM, "            state_prev.lambd / self.lambda_factor,", "            jnp.where(\n                proposed_cost < 0.5 * state_prev.cost,\n                state_prev.lambd / self.lambda_factor**2,\n                state_prev.lambd / self.lambda_factor,\n            ),"))
B("P11", "lm clamp order when bounds cross", (LM, "jnp.minimum(state_prev.lambd * self.lambda_factor, self.lambda_max),", "jnp.minimum(state_prev.lambd, self.lambda_max) * self.lambda_factor,"))
B("P11", "lm fixed factor", (LM, "state_prev.lambd * self.lambda_factor", "state_prev.lambd * 2.0"))
B("P11", "lm initial uses max", (LM, "lambd=self.lambda_initial,", "lambd=jnp.maximum(self.lambda_initial, self.lambda_min),"))
B("P11", "lm nu doubling", (LM, "state_prev.lambd * self.lambda_factor", "state_prev.lambd * self.lambda_factor ** (1 + state_prev.iterations // 50)"))
B("P11", "lm relinearise with next damping", (LM, "lambd=state_prev.lambd,\n            iteration", "lambd=jnp.where(state_prev.iterations == 0, 0.0, state_prev.lambd),\n            iteration"))

# P12
B("P12", "cost tolerance absolute when small", (MX, "jnp.abs(cost_updated - state_prev.cost) / state_prev.cost\n", "jnp.abs(cost_updated - state_prev.cost) / jnp.maximum(state_prev.cost, 1.0)\n"))
B("P12", "cost change signed", (MX, "jnp.abs(cost_updated - state_prev.cost) / state_prev.cost\n", "(state_prev.cost - cost_updated) / state_prev.cost\n"))
B("P12", "parameter norm of local delta", (MX, "jnp.linalg.norm(state_prev.assignments.storage)\n                + self.parameter_tolerance", "jnp.linalg.norm(local_delta_assignments.storage)\n                + self.parameter_tolerance"))
B("P12", "gradient mean", (MX, "jnp.max(\n                jnp.abs(\n                    state_prev", "jnp.mean(\n                jnp.abs(\n                    state_prev"))
B("P12", "gradient start counted after", (MX, "state_prev.iterations >= self.gradient_tolerance_start_step", "state_prev.iterations + 1 >= self.gradient_tolerance_start_step"))
B("P12", "gradient without retraction", (MX, """                    state_prev.assignments.storage
                    - state_prev.assignments.manifold_retract(
                        VariableAssignments(
                            storage=negative_gradient,
                            storage_layout=local_delta_assignments.storage_layout,
                        ),
                    ).storage
""", "                    negative_gradient\n"))
B("P12", "nan cost counts as converged", (MX, "            < self.cost_tolerance\n        )", "            < self.cost_tolerance\n        ) | jnp.isnan(cost_updated)"))
B("P12", "lm done when lambda saturates", (LM, "self.check_exceeded_max_iterations(state_prev=state_prev),", "self.check_exceeded_max_iterations(state_prev=state_prev) | (state_prev.lambd >= self.lambda_max),"))
B("P12", "dogleg stops on tiny radius", (DL, "self.check_exceeded_max_iterations(state_prev=state_prev),", "jnp.logical_or(\n                self.check_exceeded_max_iterations(state_prev=state_prev),\n                radius < 1e-8,\n            ),"))
B("P12", "fixed loop stops on convergence", (FX, "done = state_prev.iterations >= (self.iterations - 1)", "done = jnp.logical_or(\n            state_prev.iterations >= (self.iterations - 1), cost == state_prev.cost\n        )"))
B("P12", "fixed unrolled breaks", (FX, "for i in range(self.iterations):", "for i in range(max(1, self.iterations)):"))
B("P12", "fixed while starts at done", (FX, "done = state_prev.iterations >= (self.iterations - 1)", "done = state_prev.iterations >= self.iterations"))
B("P12", "gn requires cost decrease", (GN, "cost_updated=cost,", "cost_updated=jnp.minimum(cost, state_prev.cost),"))
B("P12", "dogleg convergence on rejected", (DL, "            jnp.logical_and(\n                accept_flag,\n                self", "            jnp.logical_and(\n                accept_flag | (state_prev.iterations > 50),\n                self"))
B("P12", "inf norm of parameters", (MX, "jnp.linalg.norm(jnp.abs(local_delta_assignments.storage))", "jnp.linalg.norm(jnp.abs(local_delta_assignments.storage), ord=jnp.inf)"))
B("P12", "max over 0-th order norm", (MX, "jnp.linalg.norm(state_prev.assignments.storage)\n", "jnp.linalg.norm(state_prev.assignments.storage, ord=1)\n"))

# P13
B("P13", "solve skips conversion if same variables", (NB, "assignments = initial_assignments.update_storage_layout(graph.storage_layout)", "assignments = (\n            initial_assignments\n            if initial_assignments.storage_layout.dim == graph.storage_layout.dim\n            and initial_assignments.storage_layout.index_from_variable_type\n            == graph.storage_layout.index_from_variable_type\n            else initial_assignments.update_storage_layout(graph.storage_layout)\n        )"))
B("P13", "fixed returns graph layout", (FX, "        return state.assignments.update_storage_layout(\n            initial_assignments.storage_layout\n        )", "        return state.assignments"))
B("P13", "solver relabels layout", (NB, "        return state.assignments.update_storage_layout(\n            initial_assignments.storage_layout\n        )", "        return VariableAssignments(\n            storage=state.assignments.storage,\n            storage_layout=initial_assignments.storage_layout,\n        )"))
B("P13", "graph solve makes default solver", (SG, "return solver.solve(graph=self, initial_assignments=initial_assignments)", "return solver.solve(\n            graph=self,\n            initial_assignments=VariableAssignments.make_from_dict(\n                initial_assignments.as_dict()\n            ),\n        ).update_storage_layout(self.storage_layout)"))
B("P13", "jacobian no conversion", (SG, "        assignments = assignments.update_storage_layout(self.storage_layout)\n\n        # Linearize", "        # Linearize"))
B("P13", "graph solve ignores solver when verbose", (SG, "return solver.solve(graph=self, initial_assignments=initial_assignments)", "return GaussNewtonSolver(verbose=solver.verbose).solve(graph=self, initial_assignments=initial_assignments)"))
B("P13", "solve initial state from unconverted", (NB, "state = self._initialize_state(graph, assignments)", "state = self._initialize_state(graph, initial_assignments)"))

# P14
B("P14", "dense set", (SM, ".at[self.coords.rows, self.coords.cols]\n            .add(self.values)", ".at[self.coords.rows, self.coords.cols]\n            .set(self.values)"))
B("P14", "transpose shape kept when square", (SM, "shape=self.shape[::-1],", "shape=(max(self.shape), min(self.shape)),"))
B("P14", "from scipy sums duplicates only rows", (SM, "shape=matrix.shape,", "shape=(int(matrix.row.max()) + 1, matrix.shape[1]),"))
B("P14", "matmul max of collisions", (SM, ".add(self.values * other[self.coords.cols])", ".add(self.values * other[self.coords.cols], unique_indices=True)"))
B("P14", "matmul sorted indices", (SM, ".add(self.values * other[self.coords.cols])", ".add(self.values * other[self.coords.cols], indices_are_sorted=True)"))
B("P14", "matmul check length ge", (SM, "assert other.shape == (\n            self.shape[1],\n        )", "assert (\n            len(other.shape) == 1 and other.shape[0] >= self.shape[1]\n        )"))
B("P14", "matmul int result dtype", (SM, "jnp.zeros(self.shape[0], dtype=other.dtype)", "jnp.zeros(self.shape[0], dtype=jnp.float16)"))
B("P14", "from scipy eliminates zeros", (SM, '        """Build from a sparse scipy matrix."""\n', '        """Build from a sparse scipy matrix."""\n        matrix.sum_duplicates()\n'))
B("P14", "as scipy no shape", (SM, "(self.values, (self.coords.rows, self.coords.cols)), shape=self.shape\n", "(self.values, (self.coords.rows, self.coords.cols))\n"))
B("P14", "from scipy upper half only", (SM, "values=matrix.data,", "values=onp_abs(matrix.data),"), (SM, "@jdc.pytree_dataclass\nclass SparseCooC", "onp_abs = abs\n\n\n@jdc.pytree_dataclass\nclass SparseCooC"))
B("P14", "matmul drop mode", (SM, "other[self.coords.cols]", "other.at[self.coords.cols - 1].get(mode=\"fill\", fill_value=0.0)"))

# P15
B("P15", "cache key without indices", (LS, "            A_T_scipy.indptr.tobytes(),\n            A_T_scipy.indices.tobytes(),\n", "            A_T_scipy.nnz,\n            A_T_scipy.indices.tobytes(),\n"))
B("P15", "cache key hashed prefix", (LS, "A_T_scipy.indices.tobytes(),", "A_T_scipy.indices[:1024].tobytes(),"))
B("P15", "cholmod beta max", (LS, "beta=args.lambd\n            + 1e-5,", "beta=max(args.lambd, 1e-5),"))
B("P15", "cg warm start", (LS, "initial_x = onp.zeros(ATb.shape)", "initial_x = onp.zeros(ATb.shape) + ATb"))
B("P15", "cg diag with eps", (LS, "return x / ATA_diagonals", "return x / (ATA_diagonals + lambd)"))
B("P15", "cg maxiter rows", (LS, "maxiter=len(\n                initial_x\n            ),", "maxiter=min(len(initial_x), 100),"))
B("P15", "cg inexact tolerance floor", (LS, "return self.inexact_step_eta / (iteration + 1)", "return self.inexact_step_eta / jnp.minimum(iteration + 1, 10)"))
B("P15", "cg damping of A", (LS, "ATAx + lambd * ATA_diagonals * x", "ATAx + jnp.sqrt(lambd) * ATA_diagonals * x"))
B("P15", "cholmod solve without permutation", (LS, ".solve_A(args.ATb)", ".solve_LDLt(args.ATb)"))
B("P15", "cholmod factor skipped if same data size", (LS, """        # Factorize and solve
        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
            A_T_scipy,
            beta=args.lambd
            + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
        )
""", """        # Factorize and solve
        if (cache_key, float(args.lambd)) not in _cholmod_analyze_cache:
            _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
                A_T_scipy,
                beta=args.lambd
                + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
            )
            _cholmod_analyze_cache[(cache_key, float(args.lambd))] = True
"""))
B("P15", "cg tolerance relative to lambda", (LS, "tol=self._get_cg_tolerance(iteration),", "tol=jnp.maximum(self._get_cg_tolerance(iteration), 1e-4),"))
B("P15", "cg atol", (LS, "tol=self._get_cg_tolerance(iteration),", "tol=self._get_cg_tolerance(iteration),\n            atol=1e-3,"))

# P16
B("P16", "gaussian inverse transposed", (GA, "jnp.linalg.inv(jnp.linalg.cholesky(covariance))", "jnp.linalg.cholesky(jnp.linalg.inv(covariance))"))
B("P16", "gaussian jacobian transposed", (GA, '"ij,jk->ik"', '"ji,jk->ik"'))
B("P16", "gaussian covariance jitter", (GA, "jnp.linalg.cholesky(covariance)", "jnp.linalg.cholesky(covariance + 1e-6 * jnp.eye(covariance.shape[0]))"))
B("P16", "diagonal jacobian columns", (GA, "self.sqrt_precision_diagonal[:, None] * jacobian", "self.sqrt_precision_diagonal * jacobian if jacobian.shape[0] == jacobian.shape[1] else self.sqrt_precision_diagonal[:, None] * jacobian"))
B("P16", "residual dim first axis", (GA, "return self.sqrt_precision_matrix.shape[-1]", "return self.sqrt_precision_matrix.shape[0]"))
B("P16", "diagonal clip", (GA, "1.0 / jnp.sqrt(jnp.asarray(diagonal))", "1.0 / jnp.sqrt(jnp.abs(jnp.asarray(diagonal)) + 1e-9)"))
B("P16", "diagonal residual dim of all axes", (GA, "return self.sqrt_precision_diagonal.shape[-1]", "return self.sqrt_precision_diagonal.size"))
B("P16", "gaussian symmetrised", (GA, 'jnp.einsum("ij,j->i", self.sqrt_precision_matrix, residual_vector)', "jnp.tril(self.sqrt_precision_matrix) @ residual_vector"))
B("P16", "diagonal whitening handles missing residuals", (GA, "return self.sqrt_precision_diagonal[:, None] * jacobian", "return jnp.where(\n            (residual_vector == 0.0)[:, None],\n            0.0,\n            self.sqrt_precision_diagonal[:, None] * jacobian,\n        )"))

# P17
B("P17", "huber strict threshold on squared", (HU, "residual_norm < self.delta,\n            residual_vector,", "residual_norm**2 < self.delta,\n            residual_vector,"))
B("P17", "huber elementwise", (HU, "residual_norm = jnp.linalg.norm(residual_vector)\n        return jnp.where(\n            residual_norm < self.delta,\n            residual_vector,", "residual_norm = jnp.abs(residual_vector)\n        return jnp.where(\n            residual_norm < self.delta,\n            residual_vector,"))
B("P17", "huber weight floor", (HU, "jnp.sqrt(self.delta / residual_norm)", "jnp.sqrt(jnp.maximum(self.delta / residual_norm, 0.1))"))
B("P17", "huber rho", (HU, "residual_vector * jnp.sqrt(self.delta / residual_norm)", "residual_vector * jnp.sqrt(2.0 * self.delta * residual_norm - self.delta**2) / residual_norm"))
B("P17", "huber jacobian unwrapped threshold", (HU, "            residual_norm < self.delta,\n            jacobian,", "            residual_norm < 2.0 * self.delta,\n            jacobian,"))
B("P17", "huber L1 norm", (HU, "residual_norm = jnp.linalg.norm(residual_vector)", "residual_norm = jnp.linalg.norm(residual_vector, ord=1)"))
B("P17", "huber jacobian skipping wrapped", (HU, "jacobian = self.wrapped.whiten_jacobian(jacobian, residual_vector)", "jacobian = self.wrapped.whiten_jacobian(\n            jacobian, residual_vector\n        ) if not isinstance(self.wrapped, HuberWrapper) else jacobian"))
B("P17", "huber dim", (HU, "return self.wrapped.get_residual_dim()", "return max(self.wrapped.get_residual_dim(), 1) + 0 * self.delta"))

# P18
B("P18", "prior left", (GF, "return jaxlie.manifold.rminus(T, self.mu)", "return (self.mu @ T.inverse()).log()"))
B("P18", "prior reversed", (GF, "return jaxlie.manifold.rminus(T, self.mu)", "return jaxlie.manifold.rminus(self.mu, T)"))
B("P18", "between adjoint not inverted", (GF, "(T_world_a.inverse() @ T_world_b).inverse().adjoint(),", "(T_world_a.inverse() @ T_world_b).adjoint(),"))
B("P18", "between adjoint of measurement", (GF, "(T_world_a.inverse() @ T_world_b).inverse().adjoint(),", "self.T_a_b.adjoint(),"))
B("P18", "between jacobian transposed", (GF, "(T_world_a.inverse() @ T_world_b).inverse().adjoint(),", "(T_world_a.inverse() @ T_world_b).adjoint().T,"))
B("P18", "between swapped jacobians", (GF, "            (T_world_a.inverse() @ T_world_b).inverse().adjoint(),\n            -jnp.eye(group_cls.tangent_dim),", "            -jnp.eye(group_cls.tangent_dim),\n            (T_world_a.inverse() @ T_world_b).inverse().adjoint(),"))
B("P18", "between make swaps", (GF, "                variable_T_world_a,\n                variable_T_world_b,\n            ),", "                variable_T_world_b,\n                variable_T_world_a,\n            ),"))
B("P18", "default jacobian of first variable class", (FB, "self.variables[i].manifold_retract_jacobian(variable_values[i]),", "self.variables[0].manifold_retract_jacobian(variable_values[i]),"))
B("P18", "default jacobian leaves reversed", (FB, "jnp.concatenate(jax.tree_leaves(tree), axis=-1)", "jnp.concatenate(jax.tree_leaves(tree)[::-1], axis=-1)"))
B("P18", "default jacobian local reshape", (FB, "(-1, v.get_local_parameter_dim()),", "(-1, self.variables[0].get_local_parameter_dim()),"))
B("P18", "default jacobian reversed variables", (FB, "for i, v in enumerate(self.variables)\n", "for i, v in reversed(list(enumerate(self.variables)))\n"))
B("P18", "default jacobian at default value", (FB, "self.variables[i].manifold_retract_jacobian(variable_values[i]),", "self.variables[i].manifold_retract_jacobian(v.get_default_value()),"))

# P19
B("P19", "SO3 variable is SE3's", (LV, "    def get_group_type() -> Type[jaxlie.SO2]:\n        return jaxlie.SO2", "    def get_group_type() -> Type[jaxlie.SO2]:\n        return jaxlie.SO3"))
B("P19", "default sampled", (LV, "cls.get_group_type().identity()", "cls.get_group_type().exp(jnp.full(cls.get_group_type().tangent_dim, 1e-3))"))
B("P19", "local dim matrix dim", (LV, "return cls.get_group_type().tangent_dim", "return cls.get_group_type().parameters_dim - 1"))
B("P19", "retract renormalised first order", (LV, "return jaxlie.manifold.rplus(x, local_delta)", "return x @ type(x).exp(local_delta * (1.0 + 1e-4))"))
B("P19", "retract jacobian of identity", (LV, "jaxlie.manifold.rplus_jacobian_parameters_wrt_delta(x),", "jaxlie.manifold.rplus_jacobian_parameters_wrt_delta(type(x).identity()),"))
B("P19", "retract jacobian transposed", (LV, "jaxlie.manifold.rplus_jacobian_parameters_wrt_delta(x),", "-jaxlie.manifold.rplus_jacobian_parameters_wrt_delta(x.inverse()),"))
B("P19", "retract inverse delta", (LV, "return jaxlie.manifold.rplus(x, local_delta)", "return jaxlie.manifold.rplus(x.inverse(), -local_delta).inverse()"))
B("P19", "se2 from so2", (LV, "    def get_group_type() -> Type[jaxlie.SE3]:\n        return jaxlie.SE3", "    def get_group_type() -> Type[jaxlie.SE3]:\n        return jaxlie.SE2"))

# P20
B("P20", "marginal sorted", (SC, "return self._compute_marginal(indices)", "return self._compute_marginal(sorted(indices))"))
B("P20", "marginal upper only", (SC, "for j in range(dim):", "for j in range(i, dim):"))
B("P20", "cache by set", (SC, "self._value_cache[indices] = value", "self._value_cache[indices[::-1]] = value"))
B("P20", "ordering default", (SC, 'ordering_method="natural"', 'ordering_method="best"'))
B("P20", "cov damped", (SC, 'cholesky_AAt(A=A, ordering_method="natural")', 'cholesky_AAt(A=A, beta=1e-5, ordering_method="natural")'))
B("P20", "sum skips upper", (SC, "if col != row:  # Skip diagonal", "if col < row and row <= col_l:"))
B("P20", "dense wrong product", (SC, "return L_inv.T @ L_inv", "return L_inv @ L_inv.T"))
B("P20", "cov residual zero", (SC, "residual_vector=graph.compute_whitened_residual_vector(assignments),", "residual_vector=graph.compute_cost(assignments)[1] * 0.0,"))
B("P20", "diag inverse squared", (SC, "value = -self.L_diag_inv[row] * self._sum_over_col(row, col)", "value = -self.L_diag_inv[col] * self._sum_over_col(row, col)"))
B("P20", "marginal uses global dims", (SC, "range(start_index, start_index + v.get_local_parameter_dim())", "range(start_index, start_index + v.get_parameter_dim())"))
B("P20", "shared cache default", (SC, "            _value_cache={},", "            _value_cache=_CACHE,"), (SC, "@dataclasses.dataclass\nclass", "_CACHE: Dict[Tuple[int, int], float] = {}\n\n\n@dataclasses.dataclass\nclass"))
B("P20", "cache hit before ordering", (SC, "        # Enforce symmetry\n        if indices[0] > indices[1]:\n            indices = indices[::-1]\n        row, col = indices\n", "        row, col = indices\n"))
B("P20", "small values dropped", (SC, "        self._value_cache[indices] = value\n        return value", "        if abs(value) < 1e-12:\n            value = 0.0\n        self._value_cache[indices] = value\n        return value"))

# P21
B("P21", "canonical cache by class attribute", (VB, "    @functools.lru_cache(maxsize=None)\n    def canonical_instance(cls: Type[VariableType]) -> VariableType:", "    def canonical_instance(cls: Type[VariableType]) -> VariableType:"), (VB, "        return cls()\n\n\n# Fake", "        if not hasattr(cls, \"_canonical\"):\n            VariableBase._canonical = cls()\n        return cls._canonical\n\n\n# Fake"))
B("P21", "layout memo by length", (SL, "    @staticmethod\n    def make(variables", "    _cache: ClassVar[Dict] = {}\n\n    @staticmethod\n    def make(variables"), (SL, "        return StorageLayout(\n            local_flag", "        key = (local, storage_index, tuple(variables_from_type))\n        if key in StorageLayout._cache:\n            return StorageLayout._cache[key]\n        StorageLayout._cache[key] = StorageLayout(\n            local_flag"), (SL, "            ),\n        )\n", "            ),\n        )\n        return StorageLayout._cache[key]\n"), (SL, "from typing import Collection", "from typing import ClassVar, Collection"))
B("P21", "partial dict filled in", (VA, "        # Stack variable values in order\n        storage = jnp.concatenate(\n            [\n                jax.jit(variable.flatten)(\n                    assignments[variable]\n                    if assignments is not None and variable in assignments\n                    else variable.get_default_value()\n                )", "        # Stack variable values in order\n        for variable in storage_layout.get_variables():\n            assignments.setdefault(variable, variable.get_default_value())\n        storage = jnp.concatenate(\n            [\n                jax.jit(variable.flatten)(assignments[variable])"))
B("P21", "graph sorts factors list in place", (SG, "        for factor in factors:\n            # Each", "        if isinstance(factors, list):\n            factors.sort(key=lambda f: f.get_residual_dim())\n        for factor in factors:\n            # Each"))
B("P21", "gaussian normalises covariance in place", (GA, "        return DiagonalGaussian(\n", "        if isinstance(diagonal, list):\n            for i, value in enumerate(diagonal):\n                diagonal[i] = abs(value)\n        return DiagonalGaussian(\n"))
B("P21", "jax config update", (SC, '        """Build the sparse covariance corresponding to a factor graph.', '        """Build.'), (SC, "        A: scipy.sparse.csc_matrix = (\n", "        onp.seterr(all=\"ignore\")\n        A: scipy.sparse.csc_matrix = (\n"))
B("P21", "linear solver remembers last solution", (LS, "        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)", "        solution = _cholmod_analyze_cache[cache_key].solve_A(args.ATb)\n        if not onp.all(onp.isfinite(solution)):\n            solution = _cholmod_analyze_cache.get(\"last\", solution)\n        _cholmod_analyze_cache[\"last\"] = solution\n        return solution"))
B("P21", "as_dense caches on self", (SC, "            L_inv = onp.linalg.inv(self.L.todense())\n            return L_inv.T @ L_inv", "            self.L = self.L.todense()\n            L_inv = onp.linalg.inv(self.L)\n            return L_inv.T @ L_inv"))
B("P21", "rng seeding", (SG, "        # Start by grouping", "        onp.random.seed(0)\n        # Start by grouping"))
B("P21", "default argument list", (FS, "        row_offset: int,\n    ) -> List", "        row_offset: int,\n        jacobian_coords: List[sparse.SparseCooCoordinates] = [],\n    ) -> List"), (FS, "        jacobian_coords: List[sparse.SparseCooCoordinates] = []\n", ""))
B("P21", "factor variables mutated", (FB, "        v: VariableBase\n        return jdc.replace(\n            self, variables=tuple(type(v).canonical_instance() for v in self.variables)\n        )", "        v: VariableBase\n        object.__setattr__(\n            self,\n            \"variables\",\n            tuple(type(v).canonical_instance() for v in self.variables),\n        )\n        return self"))
B("P21", "covariance getitem rescales the diagonal", (SC, "            if col != row:  # Skip diagonal\n                total += val * self[row, col_l]", "            if col != row:  # Skip diagonal\n                total += val * self[row, col_l]\n        self.L_diag_inv[col] = float(total)"))
B("P21", "solve memoised by id of graph", (SG, "        return solver.solve(graph=self, initial_assignments=initial_assignments)", "        key = (id(self), id(initial_assignments), id(solver))\n        if key not in _SOLVED:\n            _SOLVED[key] = solver.solve(\n                graph=self, initial_assignments=initial_assignments\n            )\n        return _SOLVED[key]"), (SG, "GroupKey = Hashable\n", "GroupKey = Hashable\n\n_SOLVED: Dict = {}\n"))

# P22
B("P22", "storage layout traced", (VA, "storage_layout: jdc.Static[StorageLayout]\n    \"\"\"Metadata", "storage_layout: StorageLayout\n    \"\"\"Metadata"))
B("P22", "cost tolerance static", (MX, "cost_tolerance: float = 1e-5", "cost_tolerance: jdc.Static[float] = 1e-5"))
B("P22", "max iterations static", (MX, "max_iterations: int = 100", "max_iterations: jdc.Static[int] = 100"))
B("P22", "noise static", (HU, "    delta: hints.Scalar\n", "    delta: jdc.Static[float]\n"))
B("P22", "num_factors traced", (FS, "num_factors: jdc.Static[int]", "num_factors: int"))
B("P22", "value indices static", (FS, "value_indices: Tuple[hints.Array, ...]", "value_indices: jdc.Static[Tuple[hints.Array, ...]]"))
B("P22", "layout plain dict", (SL, "index_from_variable=frozendict(index_from_variable),", "index_from_variable=index_from_variable,"))
B("P22", "layout eq false", (SL, "@dataclasses.dataclass(frozen=True)", "@dataclasses.dataclass(frozen=True, eq=False)"))
B("P22", "layout hash of dim", (SL, "    def get_variables(self)", "    def __eq__(self, other) -> bool:\n        return isinstance(other, StorageLayout) and self.dim == other.dim and self.local_flag == other.local_flag\n\n    def __hash__(self) -> int:\n        return hash((self.dim, self.local_flag))\n\n    def get_variables(self)"))
B("P22", "variables equal by type", (VB, "    # (4) Shared implementation details.\n", "    def __eq__(self, other) -> bool:\n        return type(self) is type(other) and self.__dict__ == other.__dict__\n\n    def __hash__(self) -> int:\n        return hash(type(self))\n\n    # (4) Shared implementation details.\n"))
B("P22", "lambda factor static", (LM, "lambda_factor: hints.Scalar = 2.0", "lambda_factor: jdc.Static[float] = 2.0"))
B("P22", "iterations traced", (FX, "iterations: jdc.Static[int] = 10", "iterations: int = 10"))
B("P22", "verbose traced", (NB, "verbose: jdc.Static[Boolean] = True", "verbose: Boolean = True"))
B("P22", "mu static", (GF, "    mu: jaxlie.MatrixLieGroup\n", "    mu: jdc.Static[jaxlie.MatrixLieGroup]\n"))
B("P22", "matrix shape traced", (SM, "shape: jdc.Static[Tuple[int, int]]", "shape: Tuple[int, int]"))
B("P22", "counts compare excluded", (SL, "    index_from_variable: Mapping[VariableBase, int]\n", "    index_from_variable: Mapping[VariableBase, int] = dataclasses.field(compare=False)\n"))
B("P22", "jacobian coords static", (SG, "    jacobian_coords: sparse.SparseCooCoordinates\n", "    jacobian_coords: jdc.Static[sparse.SparseCooCoordinates]\n"))
B("P22", "include_constants static jit", (LS, "tolerance: float = 1e-5\n    \"\"\"CG", "tolerance: jdc.Static[float] = 1e-5\n    \"\"\"CG"))

# P23
B("P23", "real vector cached by name", (VB, "    @functools.lru_cache(maxsize=None)\n    def __getitem__", "    @functools.lru_cache(maxsize=8)\n    def __getitem__"))
B("P23", "real vector uncached", (VB, "    @classmethod\n    @functools.lru_cache(maxsize=None)\n    def __getitem__", "    @classmethod\n    def __getitem__"))
B("P23", "canonical cached on base", (VB, "    @functools.lru_cache(maxsize=None)\n    def canonical_instance(cls: Type[VariableType]) -> VariableType:", "    @functools.lru_cache(maxsize=128)\n    def canonical_instance(cls: Type[VariableType]) -> VariableType:"))
B("P23", "default ones", (VB, "return jnp.zeros(dim)", "return jnp.zeros(max(dim, 1))"))
B("P23", "retract jacobian at ones", (VB, "onp.zeros(cls.get_local_parameter_dim()),", "onp.full(cls.get_local_parameter_dim(), 1e-2),"))
B("P23", "parameter dim count of leaves", (VB, "(parameter_dim,) = flat.shape", "parameter_dim = max(flat.size, 1)"))
B("P23", "flatten sorts", (VB, "flat, _unflatten = flatten_util.ravel_pytree(x)\n        return flat", "return jnp.concatenate(\n            [jnp.ravel(leaf, order=\"F\") for leaf in jax.tree_leaves(x)]\n        )"))
B("P23", "retract flattened twice delta", (VB, "return cls.unflatten(cls.flatten(x) + local_delta)", "return cls.unflatten(cls.flatten(x) + local_delta[: cls.get_local_parameter_dim()] * 1.0 + (0.0 if cls.get_parameter_dim() < 4 else 1e-6))"))
B("P23", "unflatten class by parent", (VB, "        if inspect.isabstract(cls):\n            return\n", "        if inspect.isabstract(cls) or \"_parameter_dim\" in cls.__mro__[1].__dict__:\n            return\n"))
B("P23", "local dim at least", (VB, "        return cls.get_parameter_dim()\n\n    @classmethod\n    def manifold_retract(", "        return min(cls.get_parameter_dim(), 6)\n\n    @classmethod\n    def manifold_retract("))
B("P23", "jacobian wrt x", (VB, "argnums=1,", "argnums=0,"))

# P24
B("P24", "named tuple only by length", (FB, "if type(value_type) is type:", "if type(value_type) is type and len(variable_values) > 1:"))
B("P24", "zip truncates", (FB, "        assert len(variable_values) == len(tuple_content_types)\n", ""))
B("P24", "length at least", (FB, "assert len(variable_values) == len(tuple_content_types)", "assert len(variable_values) >= len(tuple_content_types)"))
B("P24", "ellipsis skipped", (FB, "tuple_content_types = tuple_content_types[0:1] * len(variable_values)", "return output"))
B("P24", "any instead of all", (FB, "            assert isinstance(value, expected_type), (", "            assert isinstance(value, tuple_content_types), ("))
B("P24", "missing hint falls back to tuple", (FB, "            raise NotImplementedError(\n                f\"Missing type hints for {type(self).__name__}.compute_residual_vector\"\n            ) from e", "            return variable_values"))
B("P24", "named tuple unvalidated", (FB, "            tuple_content_types = tuple(get_type_hints(value_type).values())\n            output = value_type(*variable_values)", "            return value_type(*variable_values)"))
B("P24", "named tuple by sorted names", (FB, "output = value_type(*variable_values)", "output = value_type(**dict(zip(sorted(get_type_hints(value_type)), variable_values)))"))
B("P24", "values grouped by type", (FB, "tuple(assignments.get_value(v) for v in self.variables)", "tuple(\n                assignments.get_value(v)\n                for v in assignments.get_variables()\n                if v in self.variables\n            )"))
B("P24", "first position only warns", (FB, "            assert isinstance(value, expected_type), (", "            assert i == 0 or isinstance(value, expected_type), ("))
B("P24", "last position excluded", (FB, "zip(variable_values, tuple_content_types)\n        ):", "zip(variable_values[:-1] or variable_values, tuple_content_types)\n        ):"))
B("P24", "ellipsis of unions", (FB, "if len(tuple_content_types) == 2 and tuple_content_types[1] is Ellipsis:", "if tuple_content_types[-1] is Ellipsis and len(variable_values) > 1:"))

# P25
B("P25", "quaternion wxyz", (G2, "jaxlie.SO3.from_quaternion_xyzw(onp.array(quaternion))", "jaxlie.SO3(wxyz=onp.array(quaternion))"))
B("P25", "vertex translation last", (G2, "[qw, qx, qy, qz, x, y, z]", "[qx, qy, qz, qw, x, y, z]"))
B("P25", "cholesky lower", (G2, "sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T\n\n            factors", "sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix)\n\n            factors"))
B("P25", "se2 information not symmetrised", (G2, "            precision_matrix = precision_matrix.T\n            precision_matrix[onp.triu_indices(3)] = precision_matrix_components\n", "            precision_matrix = precision_matrix + precision_matrix.T\n"))
B("P25", "edge ends sorted", (G2, "            before_index = int(parts[1])\n            after_index = int(parts[2])\n\n            numerical_parts", "            before_index, after_index = sorted(map(int, parts[1:3]))\n            numerical_parts"))
B("P25", "unknown tags skipped", (G2, 'assert False, f"Unexpected line type: {parts[0]}"', "continue"))
B("P25", "comments skipped", (G2, 'assert False, f"Unexpected line type: {parts[0]}"', 'assert parts[0].startswith("FIX"), f"Unexpected line type: {parts[0]}"'))
B("P25", "prior at identity", (G2, "mu=initial_poses[pose_variables[0]],", "mu=type(initial_poses[pose_variables[0]]).identity(),"))
B("P25", "prior at last", (G2, "variable=pose_variables[0],", "variable=next(iter(initial_poses)) if len(factors) < 3 else pose_variables[-1],"))
B("P25", "edge skipped when closing loop", (G2, "            numerical_parts = list(map(float, parts[3:]))", "            if before_index > after_index:\n                continue\n            numerical_parts = list(map(float, parts[3:]))"))
B("P25", "relative pose rounded", (G2, "between = jaxlie.SE2.from_xy_theta(*(float(p) for p in parts[3:6]))", "between = jaxlie.SE2.from_xy_theta(*(round(float(p), 3) for p in parts[3:6]))"))
B("P25", "information scaled", (G2, "precision_matrix_components = onp.array(list(map(float, parts[6:])))", "precision_matrix_components = onp.array(list(map(float, parts[6:12])))[[0, 1, 3, 2, 4, 5]]"))
B("P25", "tril indices for se3", (G2, "precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]\n            precision_matrix = precision_matrix.T", "precision_matrix[onp.tril_indices(6)] = numerical_parts[7:]\n            precision_matrix = precision_matrix.T"))
B("P25", "translation rotated", (G2, "translation=onp.array(xyz),", "translation=onp.array(xyz[::-1]),"))

# P26
B("P26", "warning printed on nan", (LS, "        # Factorize and solve\n", "        if not onp.all(onp.isfinite(A_T_scipy.data)):\n            print(\"Non-finite Jacobian\")\n        # Factorize and solve\n"))
B("P26", "logging when big", (SG, "        # Prepare each factor group\n", "        if len(variables) > 1000:\n            print(f\"Building graph with {len(variables)} variables\")\n        # Prepare each factor group\n"))
B("P26", "final message always", (FX, "        self._hcb_print(\n            lambda i, cost: f\"Terminated", "        hcb.id_print(state.iterations)\n        self._hcb_print(\n            lambda i, cost: f\"Terminated"), (FX, "import functools\n", "import functools\n\nfrom jax.experimental import host_callback as hcb\n"))
B("P26", "verbose runs more iterations", (FX, "for i in range(self.iterations):", "for i in range(self.iterations if not self.verbose else self.iterations + 1):"))
B("P26", "verbose tolerance", (MX, "return state_prev.iterations >= (self.max_iterations - 1)", "return state_prev.iterations >= (self.max_iterations - 1 - int(not getattr(self, \"verbose\", True)))"))
B("P26", "hcb_print prints at trace", (NB, "        if not self.verbose:\n            return\n\n        hcb", "        if not self.verbose and len(kwargs) > 2:\n            return\n\n        hcb"))
B("P26", "stderr write", (LS, "        # Solve with conjugate gradient\n", "        import sys\n        sys.stderr.write(\"cg\\n\")\n        # Solve with conjugate gradient\n"))
B("P26", "debug print", (MX, "        # Cost tolerance\n", "        jax.debug.print(\"cost {c}\", c=cost_updated)\n        # Cost tolerance\n"))

# P27
B("P27", "float of lambda", (LS, "return ATAx + lambd * ATA_diagonals * x", "return ATAx + float(lambd) * ATA_diagonals * x"))
B("P27", "if lambda", (LS, "return ATAx + lambd * ATA_diagonals * x", "return ATAx + lambd * ATA_diagonals * x if lambd else ATAx"))
B("P27", "onp in matmul", (SM, ".add(self.values * other[self.coords.cols])", ".add(onp.asarray(self.values) * other[self.coords.cols])"), (SM, "import scipy\n", "import numpy as onp\nimport scipy\n"))
B("P27", "while loop in unroll", (FX, "            for i in range(self.iterations):\n                state = self._step(graph, state)\n", "            state = jax.lax.while_loop(\n                lambda s: s.iterations < self.iterations,\n                functools.partial(self._step, graph),\n                state,\n            )\n"))
B("P27", "huber python if", (HU, "        return jnp.where(\n            residual_norm < self.delta,\n            residual_vector,\n            residual_vector * jnp.sqrt(self.delta / residual_norm),\n        )", "        if residual_norm < self.delta:\n            return residual_vector\n        return residual_vector * jnp.sqrt(self.delta / residual_norm)"))
B("P27", "item in convergence", (MX, "jnp.linalg.norm(jnp.abs(local_delta_assignments.storage))", "jnp.linalg.norm(jnp.abs(local_delta_assignments.storage)).item()"))
B("P27", "dogleg bool", (DL, "accept_flag = step_quality >= self.step_quality_min", "accept_flag = bool(step_quality >= self.step_quality_min)"))
B("P27", "callback in residual", (SG, "        assert residual_vector.shape == (self.residual_dim,)\n        return residual_vector", "        assert residual_vector.shape == (self.residual_dim,)\n        jax.debug.callback(lambda r: None, residual_vector)\n        return residual_vector"))
B("P27", "retract via numpy", (VA, "new_storage = jnp.zeros_like(self.storage)", "new_storage = jnp.asarray(onp.zeros_like(self.storage))"), (VA, "import jax\n", "import jax\nimport numpy as onp\n"))
B("P27", "cg via scipy", (LS, "assert len(ATb.shape) == 1, \"ATb should be 1D!\"", "assert len(ATb.shape) == 1, \"ATb should be 1D!\"\n        if not onp.any(ATb):\n            return jnp.zeros_like(ATb)"))
B("P27", "lm host assert", (LM, "        # Update damping\n", "        assert jnp.isfinite(state_prev.cost)\n        # Update damping\n"))
B("P27", "while in default step", (FX, "        if self.unroll:\n            for", "        if self.unroll and self.iterations <= 10:\n            for"))
