"""Faulty variants of the rewrites: one line of a rewritten definition changed."""

from cases import CASES, M
import refactorings6  # noqa: F401


def V(props, rewrite, old, new):
    """The rewrite of that name with one text replaced in what it writes."""
    case = next(c for c in CASES if c["kind"] == "refactor" and c["name"].startswith(rewrite))
    edits = list(case["edits"])
    k = next(k for k, e in enumerate(edits) if old in e[2])
    edits[k] = (*edits[k][:2], edits[k][2].replace(old, new, 1))
    M(props, f"{case['name']}: {old.strip()[:40]} -> {new.strip()[:40]}", *edits)


V('P01', 'layout: allocator class', 'index_from_variable_type[variable_type] = allocator.position', 'index_from_variable_type[variable_type] = allocator.take(0) + 1')
V('P01', 'layout: allocator class', '        start = self.position\n        self.position = start + size\n        return start', '        self.position += size\n        return self.position')
V('P01', 'layout: allocator class', 'if local\n', 'if not local\n')
V('P03', 'layout: methods that give slices', 'if self.local_flag:\n            return variable.get_local_parameter_dim()', 'if not self.local_flag:\n            return variable.get_local_parameter_dim()')
V('P03', 'layout: methods that give slices', 'jnp.arange(source.start, source.stop)', 'jnp.arange(target.start, target.stop)')
V('P04', 'layout: methods that give slices', 'size = self._size_of(variable_type) * self.count', 'size = self._size_of(variable_type) + self.count')
V('P02', 'assignments: constructor from flattened values', 'if variable in assignments:', 'if variable not in assignments:')
V('P02', 'assignments: constructor from flattened values', 'yield jnp.tile(default, reps=(count,))', 'yield jnp.repeat(default, count)')
V('P06', 'stack: gather method shared', 'type(self.factor).compute_residual_jacobians, assignments', 'type(self.factor).compute_residual_vector, assignments')
V('P05', 'stack: gather method shared', 'assert assignments.storage_layout == self.storage_layout\n        values', 'values')
V('P06', 'stack: coordinates by meshgrid', 'k * residual_dim + onp', 'k + onp')
V('P06', 'stack: coordinates by meshgrid', 'indexing="ij"', 'indexing="xy"')
V('P06', 'stack: coordinates by meshgrid', 'row_offset + k', 'k')
V('P06', 'graph: builder class', 'offset += stack.get_residual_dim()', 'offset = stack.get_residual_dim()')
V('P05', 'graph: builder class', 'self.groups[self.group_key(factor)].append(factor)', 'self.groups[type(factor)].append(factor)')
V('P05', 'graph: builder class', 'local=True', 'local=False')
V('P06', 'graph: whitening methods on the stack', 'noise_model, jacobian, residuals\n', 'noise_model, jacobian, jacobian\n')
V('P07', 'graph: whitening methods on the stack', 'stack.whiten_residuals(stack.compute_residual_vector(assignments))', 'stack.compute_residual_vector(assignments)')
V('P07', 'nll: one function per noise model', 'joint_nll = joint_nll - 2.0', 'joint_nll = joint_nll + 2.0')
V('P07', 'nll: one function per noise model', 'return _log_det_full(noise_model)', 'return 2.0 * _log_det_full(noise_model)')
V('P09', 'trust region: propose and select', 'jnp.where(accept, a, b), new, old', 'jnp.where(accept, b, a), new, old')
V('P12', 'trust region: propose and select', '(accept & converged)', 'converged')
V('P11', 'trust region: propose and select', 'jnp.where(accept, lowered, raised)', 'jnp.where(accept, raised, lowered)')
V('P10', 'dogleg: step function with three', '(root - c) / length_sq', '(root + c) / length_sq')
V('P10', 'dogleg: step function with three', 'slack = radius**2', 'slack = radius')
V('P10', 'dogleg: step function with three', '_squared_norm(A @ gradient)', '_squared_norm(gradient)')
V('P13', 'solvers: finish method', 'original_layout = initial_assignments.storage_layout', 'original_layout = graph.storage_layout')
V('P12', 'solvers: finish method', 'return ~jnp.asarray(state.done)', 'return jnp.asarray(state.done)')
V('P12', 'termination: criteria as separate', '| self._gradient_converged', '& self._gradient_converged')
V('P12', 'termination: criteria as separate', 'jnp.linalg.norm(x) + tolerance', 'jnp.linalg.norm(x)')
V('P12', 'termination: criteria as separate', 'state_prev.iterations >= self', 'state_prev.iterations > self')
V('P08', 'gauss newton: fixed iterations shares', 'lambd=0.0', 'lambd=1.0')
V('P12', 'gauss newton: fixed iterations shares', 'done=stop', 'done=False')
V('P15', 'cholmod: cache accessor', '        A_T_scipy.indices.tobytes(),\n', '')
V('P15', 'cholmod: cache accessor', 'return factor.solve_A(ATb)', 'return factor.solve_A(ATb) * 2.0')
V('P15', 'cg: tolerance as attribute', 'x / diagonal', 'x * diagonal')
V('P15', 'cg: tolerance as attribute', 'jnp.square(A.values)', 'A.values')
V('P14', 'coo: static scatter helper', '.at[index].add(values)', '.at[index].set(values)')
V('P14', 'coo: static scatter helper', 'other[self.coords.cols]', 'other[self.coords.rows]')
V('P20', 'covariance: index lookup', 'scale * (scale - total)', 'scale * (scale + total)')
V('P20', 'covariance: index lookup', 'key = (row, col)', 'key = (row, row)')
V('P25', 'g2o: dispatch table', 'numbers[3:7]', 'numbers[4:8]')
V('P25', 'g2o: dispatch table', 'parts[2:5]', 'parts[1:4]')
V('P25', 'g2o: dispatch table', 'pose_variables[after_index]', 'pose_variables[before_index]')
V('P25', 'g2o: dispatch table', '(qw, qx, qy, qz, x, y, z)', '(qx, qy, qz, qw, x, y, z)')
V('P18', 'factor: jacobians as explicit', 'axis=-1,\n', 'axis=0,\n')
V('P18', 'factor: jacobians as explicit', 'wrt_parameters @ wrt_local', 'wrt_parameters @ wrt_parameters.T')
V('P24', 'factor: hint resolution', 'if is_named_tuple else variable_values', 'if not is_named_tuple else variable_values')
V('P24', 'factor: hint resolution', '(content_types[0],) * len(variable_values)', '(content_types[0],)')
V('P16', 'noises: scale helper', 'self.sqrt_precision_matrix @ residual_vector', 'self.sqrt_precision_matrix.T @ residual_vector')
V('P17', 'huber: weight from norm', 'norm < self.delta, array, array * weight', 'norm < self.delta, array * weight, array')
V('P19', 'lie: group type as a class', '_GROUPS["SE2"]', '_GROUPS["SO2"]')
V('P18', 'geometry: residual through explicit', 'T_a_b_predicted.inverse() @ self.T_a_b', 'T_a_b_predicted @ self.T_a_b')
V('P18', 'geometry: residual through explicit', 'T_world_b.inverse() @ T_world_a', 'T_world_a.inverse() @ T_world_b')
V('P25', 'g2o: parser class', 'index, x, y, theta = rest', 'index, y, x, theta = rest')
V('P25', 'g2o: parser class', 'numbers = [float(p) for p in rest[2:]]\n            assert', 'numbers = [float(p) for p in rest[1:]]\n            assert')
V('P25', 'g2o: parser class', 'self.pose_variables[after]', 'self.pose_variables[before]')
