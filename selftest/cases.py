"""Corpus of edits: mutants (behaviour changes that a property forbids) and refactorings (behaviour preserved)."""

CASES = []


def M(props, name, *edits):
    CASES.append({"kind": "mutant", "props": props, "name": name, "edits": edits})


def R(name, *edits):
    CASES.append({"kind": "refactor", "props": "", "name": name, "edits": edits})


S = "jaxfg/solvers/"
LM, DL, GN, FX = S + "_levenberg_marquardt_solver.py", S + "_dogleg_solver.py", S + "_gauss_newton_solver.py", S + "_fixed_iteration_gauss_newton_solver.py"
MX, NB = S + "_mixins.py", S + "_nonlinear_solver_base.py"

M("P11", "lm damping decreased when rejected", (LM, "state_prev.lambd * self.lambda_factor", "state_prev.lambd / self.lambda_factor"))
M("P11", "lm min/max swapped", (LM, "jnp.maximum(\n                self.lambda_min", "jnp.minimum(\n                self.lambda_min"))
M("P11", "lm lambda not passed", (LM, "lambd=state_prev.lambd,\n            iteration", "lambd=self.lambda_initial,\n            iteration"))
M("P09", "lm accept strict", (LM, ">= self.step_quality_min", "> self.step_quality_min"))
M("P09", "lm accept negated", (LM, ">= self.step_quality_min", "<= self.step_quality_min"))
M("P09", "dogleg accept nan", (DL, "accept_flag = step_quality >= self.step_quality_min", "accept_flag = jnp.logical_not(step_quality < self.step_quality_min)"))
M("P09", "lm residual of rejected", (LM, "accept_flag, residual_vector, state_prev.residual_vector", "accept_flag, residual_vector, residual_vector"))
M("P09", "quality denominator", (MX, "jnp.sum((A @ step_vector + state_prev", "jnp.sum((A @ step_vector - state_prev"))
M("P10", "dogleg shrink", (DL, "state_prev.radius / 2.0", "state_prev.radius / 4.0"))
M("P10", "dogleg beta branch", (DL, "c <= 0,", "c >= 1,"))
M("P10", "dogleg beta formula", (DL, "(-c + sqrt_c_sq_plus)", "(c + sqrt_c_sq_plus)"))
M("P10", "dogleg grows", (DL, "3.0 * jnp.linalg.norm", "2.0 * jnp.linalg.norm"))
M("P10", "dogleg alpha", (DL, "jnp.sum((A @ step_vector_sd) ** 2)", "jnp.sum((A @ step_vector_gn) ** 2)"))
M("P12", "max iterations off by one", (MX, "(self.max_iterations - 1)", "self.max_iterations"))
M("P12", "gradient start step", (MX, ">= self.gradient_tolerance_start_step", "<= self.gradient_tolerance_start_step"))
M("P12", "gradient no abs", (MX, "jnp.max(\n                jnp.abs(", "jnp.max(\n                ("))
M("P12", "relative to new cost", (MX, "/ state_prev.cost\n", "/ cost_updated\n"))
M("P12", "all instead of any", (MX, "jnp.any(", "jnp.all("))
M("P12", "converges when rejected", (LM, "jnp.logical_and(\n                accept_flag,", "jnp.logical_or(\n                accept_flag,"))
M("P12", "while cond", (NB, "jnp.logical_not(state.done)", "jnp.logical_not(state.iterations > 3)"))
M("P13", "no revert", (NB, "initial_assignments.storage_layout", "graph.storage_layout"))
M("P08", "gn damping", (GN, "lambd=0.0", "lambd=1e-3"))
M("P08", "gn stale residual", (GN, "residual_vector=residual_vector", "residual_vector=state_prev.residual_vector"))
R("dogleg where to select", (DL, "c <= 0,\n                (-c + sqrt_c_sq_plus) / b_minus_a_norm_sq,\n                radius_sq_minus_a_norm_sq / (c + sqrt_c_sq_plus),", "c > 0,\n                radius_sq_minus_a_norm_sq / (c + sqrt_c_sq_plus),\n                (-c + sqrt_c_sq_plus) / b_minus_a_norm_sq,"))
R("dogleg one formula", (DL, "beta = jnp.where(\n                c <= 0,\n                (-c + sqrt_c_sq_plus) / b_minus_a_norm_sq,\n                radius_sq_minus_a_norm_sq / (c + sqrt_c_sq_plus),\n            )", "beta = radius_sq_minus_a_norm_sq / (c + sqrt_c_sq_plus)"))
R("lm clip", (LM, "jnp.maximum(\n                self.lambda_min,\n                jnp.minimum(state_prev.lambd * self.lambda_factor, self.lambda_max),\n            )", "jnp.clip(state_prev.lambd * self.lambda_factor, self.lambda_min, self.lambda_max)"))
R("cost tolerance multiplied", (MX, "jnp.abs(cost_updated - state_prev.cost) / state_prev.cost\n            < self.cost_tolerance", "jnp.abs(cost_updated - state_prev.cost)\n            < self.cost_tolerance * state_prev.cost"))
R("logical or chain", (MX, """jnp.any(
            jnp.array(
                [
                    converged_cost,
                    converged_gradient,
                    converged_parameters,
                ]
            ),
            axis=0,
        )""", "converged_parameters | converged_gradient | converged_cost"))
R("dogleg max", (DL, "jnp.max(\n                    jnp.array([state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)])\n                )", "jnp.maximum(3.0 * jnp.linalg.norm(step_vector), state_prev.radius)"))
R("dogleg squared norms", (DL, "norm_gn <= state_prev.radius", "jnp.sum(step_vector_gn ** 2) <= radius_sq"))
R("dogleg replace state", (DL, "return _DoglegState(\n            iterations=state_prev.iterations + 1,", "return jdc.replace(state_prev,\n            iterations=1 + state_prev.iterations,"))
R("dogleg norm via sqrt", (DL, "norm_sd = jnp.linalg.norm(a)", "norm_sd = jnp.sqrt(a_norm_sq)"))
R("lm reject first", (LM, "accept_flag, proposed_cost, state_prev.cost", "~accept_flag, state_prev.cost, proposed_cost"))
R("lm cond", (LM, "storage=jnp.where(\n                accept_flag,\n                assignments_proposed.storage,\n                state_prev.assignments.storage,\n            )", "storage=jax.lax.select(\n                accept_flag,\n                assignments_proposed.storage,\n                state_prev.assignments.storage,\n            )"), (LM, "import jax_dataclasses", "import jax\nimport jax_dataclasses"))
