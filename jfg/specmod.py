"""Specifications, in the analysed language. This module is parsed by the analyser and never imported.

Each function states what the public operation of the corresponding name has to compute; several functions with the
same stem are alternatives. Parameters correspond by position.
"""

import itertools
from collections import defaultdict
from typing import Any, Collection, DefaultDict, Dict, Iterable, List, Mapping, Sequence, Tuple, Type, get_args, get_type_hints

import jax
import jax_dataclasses as jdc
import jaxlie
import numpy as onp
import scipy
import sksparse
from frozendict import frozendict
from jax import flatten_util
from jax import numpy as jnp

import jaxfg
from jaxfg import core, experimental, geometry, hints, noises, solvers, sparse
from jaxfg.core import FactorBase, FactorStack, StackedFactorGraph, StorageLayout, VariableAssignments, VariableBase
from jaxfg.sparse import SparseCooCoordinates, SparseCooMatrix

# ---------------------------------------------------------------------------------------------------------------------
# Storage layouts


def layout_make(variables: Iterable[VariableBase], local: bool) -> StorageLayout:
    by_type: DefaultDict[Type[VariableBase], List[VariableBase]] = defaultdict(list)
    for v in variables:
        by_type[type(v)].append(v)
    index: Dict[VariableBase, int] = {}
    index_of_type: Dict[Type[VariableBase], int] = {}
    at = 0
    for t, vs in by_type.items():
        index_of_type[t] = at
        for v in vs:
            index[v] = at
            at += type(v).get_local_parameter_dim() if local else type(v).get_parameter_dim()
    return StorageLayout(
        local_flag=local,
        dim=at,
        index_from_variable=frozendict(index),
        index_from_variable_type=frozendict(index_of_type),
        count_from_variable_type=frozendict({t: len(vs) for t, vs in by_type.items()}),
    )


def layout_variables(self: StorageLayout):
    return self.index_from_variable.keys()


def layout_variables_sorted(self: StorageLayout):
    return sorted(self.index_from_variable, key=self.index_from_variable.get)


def layout_types(self: StorageLayout):
    return self.index_from_variable_type.keys()


def layout_types_sorted(self: StorageLayout):
    return sorted(self.index_from_variable_type, key=self.index_from_variable_type.get)


# ---------------------------------------------------------------------------------------------------------------------
# Assignments


def made_layout(variables: Iterable[VariableBase]) -> StorageLayout:
    return StorageLayout.make(variables, local=False)


def made_layout_of_keys(assignments: Dict[VariableBase, Any]) -> StorageLayout:
    return StorageLayout.make(assignments.keys(), local=False)


def from_defaults(variables: Iterable[VariableBase]) -> VariableAssignments:
    layout = StorageLayout.make(variables, local=False)
    return VariableAssignments(
        storage=jnp.concatenate(
            [
                jnp.tile(t.flatten(t.get_default_value()), (layout.count_from_variable_type[t],))
                for t in layout.get_variable_types()
            ],
            axis=0,
        ),
        storage_layout=layout,
    )


def from_defaults_each(variables: Iterable[VariableBase]) -> VariableAssignments:
    layout = StorageLayout.make(variables, local=False)
    return VariableAssignments(
        storage=jnp.concatenate([v.flatten(type(v).get_default_value()) for v in layout.get_variables()], axis=0),
        storage_layout=layout,
    )


def from_partial(variables: Iterable[VariableBase], assignments: Dict[VariableBase, Any]) -> VariableAssignments:
    layout = StorageLayout.make(variables, local=False)
    return VariableAssignments(
        storage=jnp.concatenate(
            [
                v.flatten(assignments[v] if v in assignments else type(v).get_default_value())
                for v in layout.get_variables()
            ],
            axis=0,
        ),
        storage_layout=layout,
    )


def from_dict(assignments: Dict[VariableBase, Any]) -> VariableAssignments:
    layout = StorageLayout.make(assignments.keys(), local=False)
    return VariableAssignments(
        storage=jnp.concatenate([v.flatten(assignments[v]) for v in layout.get_variables()], axis=0),
        storage_layout=layout,
    )


def assigned_value(self: VariableAssignments, variable: VariableBase):
    i = self.storage_layout.index_from_variable[variable]
    return type(variable).unflatten(self.storage[i : i + type(variable).get_parameter_dim()])


def assigned_stacked(self: VariableAssignments, variable_type: Type[VariableBase]):
    i = self.storage_layout.index_from_variable_type[variable_type]
    n = self.storage_layout.count_from_variable_type[variable_type]
    d = variable_type.get_parameter_dim()
    return jax.vmap(variable_type.unflatten)(self.storage[i : i + n * d].reshape((n, d)))


def assigned_dict(self: VariableAssignments):
    return {v: assigned_value(self, v) for v in self.storage_layout.index_from_variable.keys()}


def assigned_variables(self: VariableAssignments):
    return self.storage_layout.get_variables()


def assigned_set(self: VariableAssignments, variable: VariableBase, value) -> VariableAssignments:
    i = self.storage_layout.index_from_variable[variable]
    return VariableAssignments(
        storage=jnp.asarray(self.storage)
        .at[i : i + type(variable).get_parameter_dim()]
        .set(type(variable).flatten(value)),
        storage_layout=self.storage_layout,
    )


def assigned_set_whole(self: VariableAssignments, variable: VariableBase, value) -> VariableAssignments:
    i = self.storage_layout.index_from_variable[variable]
    flat = type(variable).flatten(value)
    return VariableAssignments(
        storage=jnp.asarray(self.storage).at[i : i + len(flat)].set(flat), storage_layout=self.storage_layout
    )


def convert(self: VariableAssignments, storage_layout: StorageLayout) -> VariableAssignments:
    if self.storage_layout == storage_layout:
        return self
    return VariableAssignments(
        storage=jnp.concatenate(
            [
                self.storage[
                    self.storage_layout.index_from_variable[v] : self.storage_layout.index_from_variable[v]
                    + (v.get_local_parameter_dim() if storage_layout.local_flag else v.get_parameter_dim())
                ]
                for v in storage_layout.get_variables()
            ],
            axis=0,
        ),
        storage_layout=storage_layout,
    )


def convert_always(self: VariableAssignments, storage_layout: StorageLayout) -> VariableAssignments:
    if self.storage_layout == storage_layout:
        return VariableAssignments(storage=self.storage, storage_layout=storage_layout)
    return convert(self, storage_layout)


def layouts_equal(self: VariableAssignments, storage_layout: StorageLayout):
    return self.storage_layout == storage_layout


def convert_ok(self: VariableAssignments, storage_layout: StorageLayout):
    assert self.storage_layout.dim == storage_layout.dim
    assert self.storage_layout.local_flag == storage_layout.local_flag
    assert set(self.storage_layout.get_variables()) == set(storage_layout.get_variables())


def retract(self: VariableAssignments, local_delta_assignments: VariableAssignments) -> VariableAssignments:
    out = jnp.zeros_like(self.storage)
    for t in self.storage_layout.get_variable_types():
        n = self.storage_layout.count_from_variable_type[t]
        i = self.storage_layout.index_from_variable_type[t]
        j = local_delta_assignments.storage_layout.index_from_variable_type[t]
        d = t.get_parameter_dim()
        ld = t.get_local_parameter_dim()
        out = out.at[i : i + n * d].set(
            jax.vmap(lambda x, delta: t.flatten(t.manifold_retract(t.unflatten(x), delta)))(
                self.storage[i : i + n * d].reshape((n, d)),
                local_delta_assignments.storage[j : j + n * ld].reshape((n, ld)),
            ).flatten()
        )
    return VariableAssignments(storage=out, storage_layout=self.storage_layout)


def retract_each(self: VariableAssignments, local_delta_assignments: VariableAssignments) -> VariableAssignments:
    out = []
    for v in self.storage_layout.get_variables():
        i = self.storage_layout.index_from_variable[v]
        j = local_delta_assignments.storage_layout.index_from_variable[v]
        t = type(v)
        out.append(
            t.flatten(
                t.manifold_retract(
                    t.unflatten(self.storage[i : i + t.get_parameter_dim()]),
                    local_delta_assignments.storage[j : j + t.get_local_parameter_dim()],
                )
            )
        )
    return VariableAssignments(storage=jnp.concatenate(out, axis=0), storage_layout=self.storage_layout)


def retract_ok(self: VariableAssignments, local_delta_assignments: VariableAssignments):
    assert not self.storage_layout.local_flag
    assert local_delta_assignments.storage_layout.local_flag


def cover_vars(layout: StorageLayout, k: int):
    v = list(layout.index_from_variable.keys())[k]
    ld = type(v).get_local_parameter_dim()
    pd = type(v).get_parameter_dim()
    return (v, len(layout.index_from_variable), layout.index_from_variable[v], ld if layout.local_flag else pd, ld, pd, layout.dim)


def cover_at(layout: StorageLayout, v: VariableBase):
    return (layout.index_from_variable[v],)


def cover_stacks(graph: StackedFactorGraph, k: int):
    return (len(graph.factor_stacks), graph.factor_stacks[k].get_residual_dim(), graph.residual_dim)


def cover_types(layout: StorageLayout, k: int):
    t = list(layout.index_from_variable_type.keys())[k]
    ld = t.get_local_parameter_dim()
    pd = t.get_parameter_dim()
    return (
        t,
        len(layout.index_from_variable_type),
        layout.dim,
        layout.index_from_variable_type[t],
        layout.count_from_variable_type[t],
        ld if layout.local_flag else pd,
        ld,
        pd,
    )


# ---------------------------------------------------------------------------------------------------------------------
# Factor stacks


def stack_make(factors: Sequence[FactorBase], storage_layout: StorageLayout, use_onp: bool) -> FactorStack:
    return FactorStack(
        num_factors=len(factors),
        factor=jax.tree_map(lambda *leaves: jnp.stack(leaves, axis=0), *[f.anonymize_variables() for f in factors]),
        value_indices=tuple(
            onp.array(
                [
                    onp.arange(
                        storage_layout.index_from_variable[f.variables[k]],
                        storage_layout.index_from_variable[f.variables[k]] + type(f.variables[k]).get_parameter_dim(),
                    )
                    for f in factors
                ]
            )
            for k in range(len(factors[0].variables))
        ),
        storage_layout=storage_layout,
    )


def stack_make_ok(factors: Sequence[FactorBase], storage_layout: StorageLayout, use_onp: bool):
    for f in factors:
        for k, v in enumerate(f.variables):
            assert isinstance(v, type(factors[0].variables[k]))


def stack_make_ok_exact(factors: Sequence[FactorBase], storage_layout: StorageLayout, use_onp: bool):
    for f in factors:
        for k, v in enumerate(f.variables):
            assert type(v) is type(factors[0].variables[k])


def stack_coords(factors: Sequence[FactorBase], local_storage_layout: StorageLayout, row_offset: int):
    n = len(factors)
    r = factors[0].get_residual_dim()
    out = []
    for k in range(len(factors[0].variables)):
        d = type(factors[0].variables[k]).get_local_parameter_dim()
        rows = onp.arange(n * r).reshape((n, r, 1)) + row_offset
        starts = onp.array([local_storage_layout.index_from_variable[f.variables[k]] for f in factors])
        cols = starts[:, None, None] + onp.arange(d)[None, None, :]
        out.append(
            SparseCooCoordinates(
                rows=onp.broadcast_to(rows, (n, r, d)).flatten(), cols=onp.broadcast_to(cols, (n, r, d)).flatten()
            )
        )
    return out


def stack_residual_dim(self: FactorStack):
    return self.factor.get_residual_dim() * self.num_factors


def stack_values(self: FactorStack, assignments: VariableAssignments):
    return self.factor.build_variable_value_tuple(
        tuple(
            jax.vmap(type(v).unflatten)(assignments.storage[ix])
            for v, ix in zip(self.factor.variables, self.value_indices)
        )
    )


def stack_residual(self: FactorStack, assignments: VariableAssignments):
    return jax.vmap(type(self.factor).compute_residual_vector)(self.factor, stack_values(self, assignments))


def stack_jacobian(self: FactorStack, assignments: VariableAssignments):
    return jax.vmap(type(self.factor).compute_residual_jacobians)(self.factor, stack_values(self, assignments))


def stack_eval_ok(self: FactorStack, assignments: VariableAssignments):
    assert assignments.storage_layout == self.storage_layout


def factor_anonymous(self: FactorBase):
    return jdc.replace(self, variables=tuple(type(v).canonical_instance() for v in self.variables))


# ---------------------------------------------------------------------------------------------------------------------
# Graphs


def graph_make(factors: Iterable[FactorBase], use_onp: bool) -> StackedFactorGraph:
    groups: Dict[Any, List[FactorBase]] = defaultdict(list)
    seen: Dict[VariableBase, None] = {}
    for f in factors:
        key = (
            jax.tree_util.tree_structure(f.anonymize_variables()),
            tuple(jnp.shape(leaf) for leaf in jax.tree_util.tree_leaves(f)),
        )
        groups[key].append(f)
        for v in f.variables:
            seen[v] = None
    variables = list(seen)
    layout = StorageLayout.make(variables, local=False)
    local_layout = StorageLayout.make(variables, local=True)
    stacks: List[FactorStack] = []
    rows = []
    cols = []
    at = 0
    for members in groups.values():
        stack = FactorStack.make(members, layout, use_onp=use_onp)
        stacks.append(stack)
        for c in FactorStack.compute_jacobian_coords(members, local_layout, at):
            rows.append(c.rows)
            cols.append(c.cols)
        at = at + members[0].get_residual_dim() * len(members)
    return StackedFactorGraph(
        factor_stacks=stacks,
        jacobian_coords=SparseCooCoordinates(
            rows=onp.concatenate(rows, axis=0), cols=onp.concatenate(cols, axis=0)
        ),
        storage_layout=layout,
        local_storage_layout=local_layout,
        residual_dim=at,
    )


def graph_variables(self: StackedFactorGraph):
    return self.local_storage_layout.get_variables()


def graph_variables_global(self: StackedFactorGraph):
    return self.storage_layout.get_variables()


def graph_residual(self: StackedFactorGraph, assignments: VariableAssignments):
    a = assignments.update_storage_layout(self.storage_layout)
    return jnp.concatenate(
        [
            jax.vmap(type(s.factor.noise_model).whiten_residual_vector)(
                s.factor.noise_model, stack_residual(s, a)
            ).flatten()
            for s in self.factor_stacks
        ],
        axis=0,
    )


def graph_cost(self: StackedFactorGraph, assignments: VariableAssignments):
    r = self.compute_whitened_residual_vector(assignments)
    return (jnp.sum(r**2), r)


def graph_nll(self: StackedFactorGraph, assignments: VariableAssignments, include_constants: bool):
    out = jnp.sum(self.compute_whitened_residual_vector(assignments) ** 2)
    for s in self.factor_stacks:
        noise = s.factor.noise_model
        if isinstance(noise, noises.Gaussian):
            out = out + jnp.sum(-2.0 * jnp.log(jnp.abs(jnp.linalg.det(noise.sqrt_precision_matrix))))
        elif isinstance(noise, noises.DiagonalGaussian):
            out = out + jnp.sum(-2.0 * jnp.log(jnp.abs(jnp.prod(noise.sqrt_precision_diagonal, axis=-1))))
        else:
            raise NotImplementedError()
    return out


def graph_nll_ok(self: StackedFactorGraph, assignments: VariableAssignments, include_constants: bool):
    for s in self.factor_stacks:
        noise = s.factor.noise_model
        assert isinstance(noise, noises.Gaussian) or isinstance(noise, noises.DiagonalGaussian)


def graph_jacobian(
    self: StackedFactorGraph, assignments: VariableAssignments, residual_vector: hints.Array
) -> SparseCooMatrix:
    a = assignments.update_storage_layout(self.storage_layout)
    values = []
    at = 0
    for s in self.factor_stacks:
        n = s.num_factors
        r = s.factor.get_residual_dim()
        residual = residual_vector[at : at + n * r].reshape((n, r))
        for jacobian in stack_jacobian(s, a):
            values.append(
                jax.vmap(type(s.factor.noise_model).whiten_jacobian)(s.factor.noise_model, jacobian, residual).flatten()
            )
        at = at + n * r
    return SparseCooMatrix(
        values=jnp.concatenate(values),
        coords=self.jacobian_coords,
        shape=(self.residual_dim, self.local_storage_layout.dim),
    )


def graph_solve(self: StackedFactorGraph, initial_assignments: VariableAssignments, solver: solvers.NonlinearSolverBase):
    return solver.solve(self, initial_assignments)


# ---------------------------------------------------------------------------------------------------------------------
# Nonlinear solvers. States are passed field by field.


def solver_convert(self: solvers.NonlinearSolverBase, graph: StackedFactorGraph, initial_assignments: VariableAssignments):
    return initial_assignments.update_storage_layout(graph.storage_layout)


def solver_return(
    self: solvers.NonlinearSolverBase,
    graph: StackedFactorGraph,
    initial_assignments: VariableAssignments,
    final: VariableAssignments,
):
    return final.update_storage_layout(initial_assignments.storage_layout)


def solver_layouts(
    self: solvers.NonlinearSolverBase,
    graph: StackedFactorGraph,
    initial_assignments: VariableAssignments,
):
    return graph.storage_layout == initial_assignments.storage_layout


def solver_init(graph: StackedFactorGraph, assignments: VariableAssignments):
    r = graph.compute_whitened_residual_vector(assignments)
    return (0, assignments, jnp.sum(r**2), r, False)


def linearise(graph: StackedFactorGraph, assignments: VariableAssignments, residual_vector: hints.Array):
    return graph.compute_whitened_residual_jacobian(assignments, residual_vector)


def subproblem(
    linear_solver: sparse.LinearSubproblemSolverBase,
    graph: StackedFactorGraph,
    assignments: VariableAssignments,
    residual_vector: hints.Array,
    lambd,
    iterations,
):
    A = graph.compute_whitened_residual_jacobian(assignments, residual_vector)
    return linear_solver.solve_subproblem(A, -(A.T @ residual_vector), lambd, iterations)


def moved(graph: StackedFactorGraph, assignments: VariableAssignments, step: hints.Array):
    return assignments.manifold_retract(
        VariableAssignments(storage=step, storage_layout=graph.local_storage_layout)
    )


def cost_of(graph: StackedFactorGraph, assignments: VariableAssignments):
    r = graph.compute_whitened_residual_vector(assignments)
    return (jnp.sum(r**2), r)


def exceeded(self, iterations):
    return iterations + 1 >= self.max_iterations


def converged(self, graph, iterations, assignments, cost, residual_vector, step, new_cost):
    A = graph.compute_whitened_residual_jacobian(assignments, residual_vector)
    by_cost = jnp.abs(new_cost - cost) / cost < self.cost_tolerance
    along_gradient = moved(graph, assignments, -(A.T @ residual_vector))
    by_gradient = jnp.logical_and(
        iterations >= self.gradient_tolerance_start_step,
        jnp.max(jnp.abs(assignments.storage - along_gradient.storage)) < self.gradient_tolerance,
    )
    by_step = (
        jnp.linalg.norm(step)
        < (jnp.linalg.norm(assignments.storage) + self.parameter_tolerance) * self.parameter_tolerance
    )
    return jnp.logical_or(by_cost, jnp.logical_or(by_gradient, by_step))


def gn_step(self, graph, iterations, assignments, cost, residual_vector):
    step = subproblem(self.linear_solver, graph, assignments, residual_vector, 0.0, iterations)
    new = moved(graph, assignments, step)
    new_cost, new_residual = cost_of(graph, new)
    return (
        iterations + 1,
        new,
        new_cost,
        new_residual,
        jnp.logical_or(
            exceeded(self, iterations),
            converged(self, graph, iterations, assignments, cost, residual_vector, step, new_cost),
        ),
    )


def fixed_step(self, graph, iterations, assignments, cost, residual_vector):
    step = subproblem(self.linear_solver, graph, assignments, residual_vector, 0.0, iterations)
    new = moved(graph, assignments, step)
    new_cost, new_residual = cost_of(graph, new)
    return (iterations + 1, new, new_cost, new_residual, iterations + 1 >= self.iterations)


def quality(graph, assignments, cost, residual_vector, step, new_cost):
    A = graph.compute_whitened_residual_jacobian(assignments, residual_vector)
    predicted = jnp.sum((A @ step + residual_vector) ** 2)
    return (new_cost - cost) / (predicted - cost)


def trust_region(self, graph, iterations, assignments, cost, residual_vector, step):
    new = moved(graph, assignments, step)
    new_cost, new_residual = cost_of(graph, new)
    q = quality(graph, assignments, cost, residual_vector, step, new_cost)
    accept = q >= self.step_quality_min
    return (
        iterations + 1,
        VariableAssignments(
            storage=jnp.where(accept, new.storage, assignments.storage), storage_layout=assignments.storage_layout
        ),
        jnp.where(accept, new_cost, cost),
        jnp.where(accept, new_residual, residual_vector),
        jnp.logical_or(
            exceeded(self, iterations),
            jnp.logical_and(
                accept,
                converged(self, graph, iterations, assignments, cost, residual_vector, step, new_cost),
            ),
        ),
        q,
        accept,
    )


def lm_step(self, graph, iterations, assignments, cost, residual_vector, extra):
    step = subproblem(self.linear_solver, graph, assignments, residual_vector, extra, iterations)
    i, a, c, r, d, q, accept = trust_region(self, graph, iterations, assignments, cost, residual_vector, step)
    damping = jnp.where(
        accept,
        extra / self.lambda_factor,
        jnp.maximum(self.lambda_min, jnp.minimum(extra * self.lambda_factor, self.lambda_max)),
    )
    return (i, a, c, r, d, damping)


def lm_step_other_clamp(self, graph, iterations, assignments, cost, residual_vector, extra):
    i, a, c, r, d, _ = lm_step(self, graph, iterations, assignments, cost, residual_vector, extra)
    step = subproblem(self.linear_solver, graph, assignments, residual_vector, extra, iterations)
    _, _, _, _, _, q, accept = trust_region(self, graph, iterations, assignments, cost, residual_vector, step)
    damping = jnp.where(
        accept,
        extra / self.lambda_factor,
        jnp.minimum(self.lambda_max, jnp.maximum(extra * self.lambda_factor, self.lambda_min)),
    )
    return (i, a, c, r, d, damping)


def dogleg_parts(linear_solver, graph, iterations, assignments, residual_vector, radius):
    A = graph.compute_whitened_residual_jacobian(assignments, residual_vector)
    negative_gradient = -(A.T @ residual_vector)
    gauss_newton = linear_solver.solve_subproblem(A, negative_gradient, 0.0, iterations)
    cauchy = (
        jnp.sum(negative_gradient**2) / jnp.sum((A @ negative_gradient) ** 2) * negative_gradient
    )
    c = jnp.sum(cauchy * (gauss_newton - cauchy))
    e = jnp.sum((gauss_newton - cauchy) ** 2)
    f = radius**2 - jnp.sum(cauchy**2)
    return gauss_newton, cauchy, c, e, f, jnp.sqrt(c**2 + e * f)


def dogleg_pick(gauss_newton, cauchy, radius, beta):
    return jnp.where(
        jnp.linalg.norm(gauss_newton) <= radius,
        gauss_newton,
        jnp.where(
            jnp.linalg.norm(cauchy) >= radius,
            radius / jnp.linalg.norm(cauchy) * cauchy,
            cauchy + beta * (gauss_newton - cauchy),
        ),
    )


def dogleg_vector(linear_solver, graph, iterations, assignments, residual_vector, radius):
    gn, cp, c, e, f, root = dogleg_parts(linear_solver, graph, iterations, assignments, residual_vector, radius)
    return dogleg_pick(gn, cp, radius, jnp.where(c <= 0, (root - c) / e, f / (c + root)))


def dogleg_vector_a(linear_solver, graph, iterations, assignments, residual_vector, radius):
    gn, cp, c, e, f, root = dogleg_parts(linear_solver, graph, iterations, assignments, residual_vector, radius)
    return dogleg_pick(gn, cp, radius, (root - c) / e)


def dogleg_vector_b(linear_solver, graph, iterations, assignments, residual_vector, radius):
    gn, cp, c, e, f, root = dogleg_parts(linear_solver, graph, iterations, assignments, residual_vector, radius)
    return dogleg_pick(gn, cp, radius, f / (c + root))


def dogleg_rest(self, graph, iterations, assignments, cost, residual_vector, extra, step):
    i, a, c, r, d, q, accept = trust_region(self, graph, iterations, assignments, cost, residual_vector, step)
    radius = jnp.where(
        q < 0.25,
        extra / 2.0,
        jnp.where(q > 0.75, jnp.maximum(extra, 3.0 * jnp.linalg.norm(step)), extra),
    )
    return (i, a, c, r, d, radius)


def dogleg_step(self, graph, iterations, assignments, cost, residual_vector, extra):
    step = dogleg_vector(self.linear_solver, graph, iterations, assignments, residual_vector, extra)
    return dogleg_rest(self, graph, iterations, assignments, cost, residual_vector, extra, step)


def dogleg_step_a(self, graph, iterations, assignments, cost, residual_vector, extra):
    step = dogleg_vector_a(self.linear_solver, graph, iterations, assignments, residual_vector, extra)
    return dogleg_rest(self, graph, iterations, assignments, cost, residual_vector, extra, step)


def dogleg_step_b(self, graph, iterations, assignments, cost, residual_vector, extra):
    step = dogleg_vector_b(self.linear_solver, graph, iterations, assignments, residual_vector, extra)
    return dogleg_rest(self, graph, iterations, assignments, cost, residual_vector, extra, step)


def lm_initial(self):
    return self.lambda_initial


def dogleg_initial(self):
    return self.radius_initial


# ---------------------------------------------------------------------------------------------------------------------
# Used by every run to confirm that the comparison can tell values apart.


def canary_same(self: sparse.SparseCooMatrix):
    return jnp.where(self.shape[0] > 2, jnp.sum(self.values**2), 0.0)


def canary_other_words(self: sparse.SparseCooMatrix):
    return jnp.where(self.shape[0] <= 2, 0.0, jnp.sum(self.values * self.values))


def canary_different(self: sparse.SparseCooMatrix):
    return jnp.where(self.shape[0] >= 2, jnp.sum(self.values**2), 0.0)


# ---------------------------------------------------------------------------------------------------------------------
# Sparse matrices


def coo_matmul(self: SparseCooMatrix, other: hints.Array):
    return jnp.zeros(self.shape[0]).at[self.coords.rows].add(self.values * other[self.coords.cols])


def coo_matmul_ok(self: SparseCooMatrix, other: hints.Array):
    assert other.shape == (self.shape[1],)


def coo_dense(self: SparseCooMatrix):
    return jnp.zeros(self.shape).at[self.coords.rows, self.coords.cols].add(self.values)


def coo_transpose(self: SparseCooMatrix):
    return SparseCooMatrix(
        values=self.values,
        coords=SparseCooCoordinates(rows=self.coords.cols, cols=self.coords.rows),
        shape=(self.shape[1], self.shape[0]),
    )


def coo_from_scipy(matrix: scipy.sparse.coo_matrix):
    return SparseCooMatrix(
        values=matrix.data,
        coords=SparseCooCoordinates(rows=matrix.row, cols=matrix.col),
        shape=matrix.shape,
    )


def coo_to_scipy(self: SparseCooMatrix):
    return scipy.sparse.coo_matrix((self.values, (self.coords.rows, self.coords.cols)), shape=self.shape)


# ---------------------------------------------------------------------------------------------------------------------
# Noise models


def gaussian_residual(self: noises.Gaussian, residual_vector: hints.Array):
    return self.sqrt_precision_matrix @ residual_vector


def gaussian_jacobian(self: noises.Gaussian, jacobian: hints.Array, residual_vector: hints.Array):
    return self.sqrt_precision_matrix @ jacobian


def gaussian_dim(self: noises.Gaussian):
    return self.sqrt_precision_matrix.shape[-1]


def gaussian_dim_rows(self: noises.Gaussian):
    return self.sqrt_precision_matrix.shape[-2]


def gaussian_make(covariance: hints.Array):
    return noises.Gaussian(sqrt_precision_matrix=jnp.linalg.inv(jnp.linalg.cholesky(covariance)))


def gaussian_make_precision(covariance: hints.Array):
    return noises.Gaussian(sqrt_precision_matrix=jnp.linalg.cholesky(jnp.linalg.inv(covariance)).T)


def gaussian_make_ok(covariance: hints.Array):
    assert len(covariance.shape) == 2
    assert covariance.shape[0] == covariance.shape[1]


def diagonal_residual(self: noises.DiagonalGaussian, residual_vector: hints.Array):
    return self.sqrt_precision_diagonal * residual_vector


def diagonal_jacobian(self: noises.DiagonalGaussian, jacobian: hints.Array, residual_vector: hints.Array):
    return self.sqrt_precision_diagonal[:, None] * jacobian


def diagonal_dim(self: noises.DiagonalGaussian):
    return self.sqrt_precision_diagonal.shape[-1]


def diagonal_make(diagonal: hints.Array):
    return noises.DiagonalGaussian(sqrt_precision_diagonal=1.0 / jnp.sqrt(jnp.asarray(diagonal)))


def diagonal_residual_ok(self: noises.DiagonalGaussian, residual_vector: hints.Array):
    assert residual_vector.shape == self.sqrt_precision_diagonal.shape


def huber_residual(self: noises.HuberWrapper, residual_vector: hints.Array):
    r = self.wrapped.whiten_residual_vector(residual_vector)
    n = jnp.linalg.norm(r)
    return jnp.where(n < self.delta, r, r * jnp.sqrt(self.delta / n))


def huber_residual_closed(self: noises.HuberWrapper, residual_vector: hints.Array):
    r = self.wrapped.whiten_residual_vector(residual_vector)
    n = jnp.linalg.norm(r)
    return jnp.where(n <= self.delta, r, r * jnp.sqrt(self.delta / n))


def huber_jacobian(self: noises.HuberWrapper, jacobian: hints.Array, residual_vector: hints.Array):
    J = self.wrapped.whiten_jacobian(jacobian, residual_vector)
    # |r| as whitened by the wrapper is sqrt(delta n), so the weight sqrt(delta / n) is delta / |r|
    n = jnp.linalg.norm(residual_vector)
    return jnp.where(n < self.delta, J, J * (self.delta / n))


def huber_jacobian_closed(self: noises.HuberWrapper, jacobian: hints.Array, residual_vector: hints.Array):
    J = self.wrapped.whiten_jacobian(jacobian, residual_vector)
    n = jnp.linalg.norm(residual_vector)
    return jnp.where(n <= self.delta, J, J * (self.delta / n))


def huber_dim(self: noises.HuberWrapper):
    return self.wrapped.get_residual_dim()


# ---------------------------------------------------------------------------------------------------------------------
# Lie variables


def lie_default(cls: Type[geometry.LieVariableBase]):
    return cls.get_group_type().identity()


def lie_local_dim(cls: Type[geometry.LieVariableBase]):
    return cls.get_group_type().tangent_dim


def lie_retract(cls: Type[geometry.LieVariableBase], x: jaxlie.MatrixLieGroup, local_delta: hints.Array):
    return x @ cls.get_group_type().exp(local_delta)


def lie_retract_own(cls: Type[geometry.LieVariableBase], x: jaxlie.MatrixLieGroup, local_delta: hints.Array):
    return jaxlie.manifold.rplus(x, local_delta)


def lie_retract_jacobian(cls: Type[geometry.LieVariableBase], x: jaxlie.MatrixLieGroup):
    return (jaxlie.manifold.rplus_jacobian_parameters_wrt_delta(x),)


def lie_so2():
    return jaxlie.SO2


def lie_se2():
    return jaxlie.SE2


def lie_so3():
    return jaxlie.SO3


def lie_se3():
    return jaxlie.SE3


# ---------------------------------------------------------------------------------------------------------------------
# Linear solvers


def cholmod_solution(self: sparse.CholmodSolver, A: SparseCooMatrix, ATb: hints.Array, lambd: hints.Scalar, iteration: hints.Scalar):
    M = scipy.sparse.coo_matrix((A.values, (A.coords.cols, A.coords.rows)), shape=(A.shape[1], A.shape[0])).tocsc()
    return sksparse.cholmod.cholesky_AAt(M, beta=lambd + 1e-5).solve_A(ATb)


def cg_normal(A, ATb, lambd, tolerance):
    diagonal = jnp.zeros(ATb.shape).at[A.coords.cols].add(A.values**2)
    x, _ = jax.scipy.sparse.linalg.cg(
        A=lambda x: A.T @ (A @ x) + lambd * diagonal * x,
        b=ATb,
        x0=jnp.zeros(ATb.shape),
        maxiter=len(ATb),
        tol=tolerance,
        M=lambda x: x / diagonal,
    )
    return x


def cg_solution(self: sparse.ConjugateGradientSolver, A: SparseCooMatrix, ATb: hints.Array, lambd: hints.Scalar, iteration: hints.Scalar):
    return cg_normal(A, ATb, lambd, self.tolerance)


def cg_inexact_solution(
    self: sparse.InexactStepConjugateGradientSolver, A: SparseCooMatrix, ATb: hints.Array, lambd: hints.Scalar, iteration: hints.Scalar
):
    return cg_normal(A, ATb, lambd, self.inexact_step_eta / (iteration + 1))


# ---------------------------------------------------------------------------------------------------------------------
# Factors


def factor_jacobians(self: core.FactorBase, variable_values: Tuple[hints.VariableValue, ...]):
    out = []
    of_residual = jax.jacfwd(self.compute_residual_vector)(variable_values)
    for i in range(len(variable_values)):
        v = self.variables[i]
        d_parameters = jnp.concatenate(
            [leaf.reshape((self.get_residual_dim(), -1)) for leaf in jax.tree_leaves(of_residual[i])], axis=-1
        )
        d_delta = jnp.concatenate(
            [leaf.reshape((-1, v.get_local_parameter_dim())) for leaf in v.manifold_retract_jacobian(variable_values[i])], axis=0
        )
        out.append(d_parameters @ d_delta)
    return tuple(out)


def factor_jacobians_direct(self: core.FactorBase, variable_values: Tuple[hints.VariableValue, ...]):
    out = []
    for i in range(len(self.variables)):
        v = self.variables[i]

        def moved(delta, i=i, v=v):
            values = list(variable_values)
            values[i] = type(v).manifold_retract(variable_values[i], delta)
            return self.compute_residual_vector(type(variable_values)(*values))

        out.append(jax.jacfwd(moved)(jnp.zeros(v.get_local_parameter_dim())))
    return tuple(out)


def factor_jacobians_ok(self: core.FactorBase, variable_values: Tuple[hints.VariableValue, ...]):
    assert len(self.variables) == len(variable_values)


def factor_residual_dim(self: core.FactorBase):
    return self.noise_model.get_residual_dim()


def prior_residual(self: geometry.PriorFactor, variable_values: Tuple[jaxlie.MatrixLieGroup]):
    return (variable_values[0].inverse() @ self.mu).log()


def prior_jacobians(self: geometry.PriorFactor, variable_values: Tuple[jaxlie.MatrixLieGroup]):
    return (-jnp.eye(type(variable_values[0]).tangent_dim),)


def prior_make(variable: geometry.LieVariableBase, mu: jaxlie.MatrixLieGroup, noise_model: noises.NoiseModelBase):
    return geometry.PriorFactor(variables=(variable,), mu=mu, noise_model=noise_model)


def between_relative(T_a, T_b):
    return T_a.inverse() @ T_b


def between_residual(self: geometry.BetweenFactor, variable_values: geometry._factors.BetweenValueTuple):
    return (between_relative(variable_values[0], variable_values[1]).inverse() @ self.T_a_b).log()


def between_jacobians(self: geometry.BetweenFactor, variable_values: geometry._factors.BetweenValueTuple):
    T_a, T_b = variable_values[0], variable_values[1]
    return (between_relative(T_a, T_b).inverse().adjoint(), -jnp.eye(type(T_a).tangent_dim))


def between_make(
    variable_T_world_a: geometry.LieVariableBase,
    variable_T_world_b: geometry.LieVariableBase,
    T_a_b: jaxlie.MatrixLieGroup,
    noise_model: noises.NoiseModelBase,
):
    return geometry.BetweenFactor(variables=(variable_T_world_a, variable_T_world_b), T_a_b=T_a_b, noise_model=noise_model)


def factor_values(self: core.FactorBase, assignments: core.VariableAssignments):
    return self.build_variable_value_tuple(tuple([assignments.get_value(v) for v in self.variables]))


def factor_tuple(self: core.FactorBase, variable_values: Tuple[hints.VariableValue, ...]):
    hint = get_type_hints(self.compute_residual_vector)["variable_values"]
    if type(hint) is type:
        return hint(*variable_values)
    return variable_values


def factor_tuple_ok(self: core.FactorBase, variable_values: Tuple[hints.VariableValue, ...]):
    hint = get_type_hints(self.compute_residual_vector)["variable_values"]
    if type(hint) is type:
        types = tuple(get_type_hints(hint).values())
    else:
        types = get_args(hint)
    if len(types) == 2 and types[1] is Ellipsis:
        types = types[0:1] * len(variable_values)
    assert len(variable_values) == len(types)
    for value, t in zip(variable_values, types):
        assert isinstance(value, t)


# ---------------------------------------------------------------------------------------------------------------------
# Variables


def variable_local_dim(cls: Type[core.VariableBase]):
    return cls.get_parameter_dim()


def variable_retract(cls: Type[core.VariableBase], x: hints.VariableValue, local_delta: hints.Array):
    return cls.unflatten(cls.flatten(x) + local_delta)


def variable_retract_jacobian(cls: Type[core.VariableBase], x: hints.VariableValue):
    return jax.jacfwd(lambda delta: jax.tree_leaves(cls.manifold_retract(x, delta)))(jnp.zeros(cls.get_local_parameter_dim()))


def variable_flatten(x: hints.VariableValue):
    return flatten_util.ravel_pytree(x)[0]


def variable_unflatten(cls: Type[core.VariableBase], flat: hints.Array):
    return flatten_util.ravel_pytree(cls.get_default_value())[1](flat)


def variable_parameter_dim(cls: Type[core.VariableBase]):
    return len(flatten_util.ravel_pytree(cls.get_default_value())[0])


def variable_canonical(cls: Type[core.VariableBase]):
    return cls()


def vector_default(dim: int):
    return jnp.zeros(dim)


def between_jacobians_measured(self: geometry.BetweenFactor, variable_values: geometry._factors.BetweenValueTuple):
    # at zero residual the measured and the actual relative pose agree
    return (self.T_a_b.inverse().adjoint(), -jnp.eye(type(variable_values[0]).tangent_dim))


# ---------------------------------------------------------------------------------------------------------------------
# Marginal covariances


def cov_make(graph: core.StackedFactorGraph, assignments: core.VariableAssignments):
    A = graph.compute_whitened_residual_jacobian(assignments, graph.compute_whitened_residual_vector(assignments))
    M = scipy.sparse.coo_matrix((A.values, (A.coords.cols, A.coords.rows)), shape=(A.shape[1], A.shape[0])).tocsc()
    L = sksparse.cholmod.cholesky_AAt(M, ordering_method="natural").L()
    return (L, 1.0 / L.diagonal(), graph.local_storage_layout)


def cov_entry(self: experimental.SparseCovariance, indices: Tuple[int, int]):
    row, col = indices[0], indices[1]
    if row > col:
        row, col = col, row
    column = self.L.getcol(row)
    total = 0.0
    for k, value in zip(column.indices, column.data):
        if k != row:
            total += value * self[k, col]
    if row == col:
        return (1.0 / self.L.diagonal()[row]) * ((1.0 / self.L.diagonal()[row]) - total)
    return -(1.0 / self.L.diagonal()[row]) * total


def cov_marginal(self: experimental.SparseCovariance, *variables: core.VariableBase):
    out = []
    for v in variables:
        for k in range(v.get_local_parameter_dim()):
            row = []
            for w in variables:
                for m in range(w.get_local_parameter_dim()):
                    row.append(
                        self[
                            self.local_storage_layout.index_from_variable[v] + k,
                            self.local_storage_layout.index_from_variable[w] + m,
                        ]
                    )
            out.append(row)
    return onp.array(out)


def cov_dense_inverse(self: experimental.SparseCovariance):
    return onp.linalg.inv(self.L.todense()).T @ onp.linalg.inv(self.L.todense())


def cov_dense_information(self: experimental.SparseCovariance):
    return onp.linalg.inv(self.L.todense() @ self.L.todense().T)


def cov_dense_entries(self: experimental.SparseCovariance):
    n = self.local_storage_layout.dim
    return onp.array([[self[i, j] for j in range(n)] for i in range(n)])


# ---------------------------------------------------------------------------------------------------------------------
# g2o files; p: the tokens of a line


def g2o_pose_2d(p):
    return jaxlie.SE2.from_xy_theta(float(p[2]), float(p[3]), float(p[4]))


def g2o_pose_3d(p):
    q = [float(p[8]), float(p[5]), float(p[6]), float(p[7])]
    t = [float(p[2]), float(p[3]), float(p[4])]
    return jaxlie.SE3.from_rotation_and_translation(jaxlie.SO3(wxyz=jnp.array(q)), jnp.array(t))


def g2o_between_2d(p):
    return jaxlie.SE2.from_xy_theta(float(p[3]), float(p[4]), float(p[5]))


def g2o_between_3d(p):
    q = [float(p[9]), float(p[6]), float(p[7]), float(p[8])]
    t = [float(p[3]), float(p[4]), float(p[5])]
    return jaxlie.SE3.from_rotation_and_translation(jaxlie.SO3(wxyz=jnp.array(q)), jnp.array(t))


def g2o_end(p, k):
    return int(p[k])


def g2o_number(p, k):
    return float(p[k])
