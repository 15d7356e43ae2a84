From 4ee69ec6ae1260166b5d3e0bc4c73c074702ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:33 +0000
Subject: [PATCH 1/7] fix: sum repeated coordinates when converting sparse
 matrices to dense

A COO matrix may list the same (row, column) pair more than once, for
example when a factor is connected to the same variable twice. Matrix
products and the scipy conversion sum the repeated entries, but
`as_dense()` kept only one of them.
---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index e552a04..cbfd6a2 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -53,7 +53,7 @@ class SparseCooMatrix:
         return (
             jnp.zeros(self.shape)
             .at[self.coords.rows, self.coords.cols]
-            .set(self.values)
+            .add(self.values)
         )
 
     @staticmethod
-- 
2.43.0


From 9af5282c5fbe36f0b1039399e334742e4d77344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:33 +0000
Subject: [PATCH 2/7] fix: use the infinity norm in the gradient convergence
 check

The documented criterion is `norm_inf(x - rplus(x, linear delta))`, but the
absolute value was missing. A gradient whose components all had the same
sign could look converged no matter how large it was.
---
 jaxfg/solvers/_mixins.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jaxfg/solvers/_mixins.py b/jaxfg/solvers/_mixins.py
index af3a70e..cea6b37 100644
--- a/jaxfg/solvers/_mixins.py
+++ b/jaxfg/solvers/_mixins.py
@@ -76,13 +76,15 @@ class _TerminationCriteriaMixin:
         converged_gradient = jnp.where(
             state_prev.iterations >= self.gradient_tolerance_start_step,
             jnp.max(
-                state_prev.assignments.storage
-                - state_prev.assignments.manifold_retract(
-                    VariableAssignments(
-                        storage=negative_gradient,
-                        storage_layout=local_delta_assignments.storage_layout,
-                    ),
-                ).storage
+                jnp.abs(
+                    state_prev.assignments.storage
+                    - state_prev.assignments.manifold_retract(
+                        VariableAssignments(
+                            storage=negative_gradient,
+                            storage_layout=local_delta_assignments.storage_layout,
+                        ),
+                    ).storage
+                )
             )
             < self.gradient_tolerance,
             False,
-- 
2.43.0


From db6bd2c11ae1dad9e24dbe155f375e3744336472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:33 +0000
Subject: [PATCH 3/7] fix: keep the old residual vector when a trust region
 step is rejected

After a rejected step, the assignments and cost were restored but the
residual vector of the rejected proposal was kept. The next iteration then
linearized at one point and used the residual of another.
---
 jaxfg/solvers/_dogleg_solver.py              | 4 +++-
 jaxfg/solvers/_levenberg_marquardt_solver.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/jaxfg/solvers/_dogleg_solver.py b/jaxfg/solvers/_dogleg_solver.py
index 232e1f0..adde2e5 100644
--- a/jaxfg/solvers/_dogleg_solver.py
+++ b/jaxfg/solvers/_dogleg_solver.py
@@ -183,6 +183,8 @@ class DoglegSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),  # Use old residual if update is rejected
             done=done,
         )
diff --git a/jaxfg/solvers/_levenberg_marquardt_solver.py b/jaxfg/solvers/_levenberg_marquardt_solver.py
index 0ae2be7..c80fe68 100644
--- a/jaxfg/solvers/_levenberg_marquardt_solver.py
+++ b/jaxfg/solvers/_levenberg_marquardt_solver.py
@@ -147,6 +147,8 @@ class LevenbergMarquardtSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),  # Use old residual if update is rejected
             done=done,
         )
-- 
2.43.0


From 90e064a735aa7edfb002c9e64e7814468897debd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:33 +0000
Subject: [PATCH 4/7] fix: handle shuffled storage layouts in the fixed
 iteration solver

The fixed iteration Gauss-Newton solver did not convert the initial
assignments to the storage layout of the graph. When variables were listed
in a different order, updates were applied to the wrong variables.
---
 .../solvers/_fixed_iteration_gauss_newton_solver.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py b/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
index 88903e1..5634c7a 100644
--- a/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
+++ b/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
@@ -97,10 +97,10 @@ class FixedIterationGaussNewtonSolver(NonlinearSolverBase[NonlinearSolverState])
     ) -> VariableAssignments:
         """Run MAP inference on a factor graph."""
 
-        # Initialize
-        assignments = initial_assignments
-        cost, residual_vector = graph.compute_cost(assignments)
-        state = self._initialize_state(graph, initial_assignments)
+        # Initialize. Note that the storage layout of the initial assignments may not
+        # match what the graph expects.
+        assignments = initial_assignments.update_storage_layout(graph.storage_layout)
+        state = self._initialize_state(graph, assignments)
 
         # Optimization
         if self.unroll:
@@ -119,4 +119,7 @@ class FixedIterationGaussNewtonSolver(NonlinearSolverBase[NonlinearSolverState])
             cost=state.cost,
         )
 
-        return state.assignments
+        # Return, but with the storage layout reverted.
+        return state.assignments.update_storage_layout(
+            initial_assignments.storage_layout
+        )
-- 
2.43.0


From 1376dd2851578cdcfb0b519686e9d3e4dd5e42d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:33 +0000
Subject: [PATCH 5/7] fix: factorize in the natural ordering when recovering
 covariances

CHOLMOD permutes rows to reduce fill-in by default, and `L()` returns the
factor of the permuted matrix. The permutation was ignored, so marginal
covariances could be reported for the wrong variables.
---
 jaxfg/experimental/_sparse_covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxfg/experimental/_sparse_covariance.py b/jaxfg/experimental/_sparse_covariance.py
index cd895b4..d7934dd 100644
--- a/jaxfg/experimental/_sparse_covariance.py
+++ b/jaxfg/experimental/_sparse_covariance.py
@@ -39,7 +39,9 @@ class SparseCovariance:
             .tocsc(copy=False)
         )
         sqrt_information_matrix: scipy.sparse.csc_matrix = (
-            sksparse.cholmod.cholesky_AAt(A=A).L()
+            # The natural ordering disables fill-reducing permutations: rows of L need to
+            # match our local storage layout.
+            sksparse.cholmod.cholesky_AAt(A=A, ordering_method="natural").L()
         )
         return SparseCovariance(
             L=sqrt_information_matrix,
-- 
2.43.0


From fef0ec2a773a61905cf85375148bf03c4a5dc978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:33 +0000
Subject: [PATCH 6/7] fix: include the sparsity pattern in the CHOLMOD analysis
 cache key

Symbolic analyses were cached by object identity only. Reusing a solver for
a system with another sparsity pattern, or getting the address of a deleted
solver, applied the wrong analysis and silently returned wrong solutions.
---
 jaxfg/sparse/_linear_solve.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/jaxfg/sparse/_linear_solve.py b/jaxfg/sparse/_linear_solve.py
index fd7f68d..1a1ed0b 100644
--- a/jaxfg/sparse/_linear_solve.py
+++ b/jaxfg/sparse/_linear_solve.py
@@ -42,8 +42,7 @@ class CholmodSolver(LinearSubproblemSolverBase):
     reasons, but also less stable than `ConjugateGradientSolver`.
 
     Runs via an XLA host callback, and has some usage caveats:
-    - Caching is a little bit sketchy. Assumes that a given solver is not reused for
-      systems with different sparsity patterns.
+    - Symbolic analyses are cached for each sparsity pattern, and never evicted.
     - Does not support function transforms (`vmap`, `pmap`, etc), due to current
       limitations of `hcb.call()`.
     - Does not support autodiff. A custom JVP or VJP definition should be easy to
@@ -75,17 +74,22 @@ class CholmodSolver(LinearSubproblemSolverBase):
         A_T_scipy = A_T.as_scipy_coo_matrix().tocsc(copy=False)
 
         # Cache sparsity pattern analysis
-        self_hash = object.__hash__(self)
-        if self_hash not in _cholmod_analyze_cache:
-            _cholmod_analyze_cache[self_hash] = sksparse.cholmod.analyze_AAt(A_T_scipy)
+        cache_key = (
+            object.__hash__(self),
+            A_T_scipy.shape,
+            A_T_scipy.indptr.tobytes(),
+            A_T_scipy.indices.tobytes(),
+        )
+        if cache_key not in _cholmod_analyze_cache:
+            _cholmod_analyze_cache[cache_key] = sksparse.cholmod.analyze_AAt(A_T_scipy)
 
         # Factorize and solve
-        _cholmod_analyze_cache[self_hash].cholesky_AAt_inplace(
+        _cholmod_analyze_cache[cache_key].cholesky_AAt_inplace(
             A_T_scipy,
             beta=args.lambd
             + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
         )
-        return _cholmod_analyze_cache[self_hash].solve_A(args.ATb)
+        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)
 
 
 class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):
-- 
2.43.0


From b9f7a07bd6acf5a488c48abf3a0134fa1966fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:33 +0000
Subject: [PATCH 7/7] fix: weight Huber Jacobians by the same factor as
 residuals

Jacobians are whitened using an already whitened residual vector, so the
Huber weight was computed from an already weighted norm. Jacobians and
residuals were then scaled differently for outliers, and the optimizer
converged to a point that does not minimize the Huber loss.
---
 jaxfg/noises/_huber.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxfg/noises/_huber.py b/jaxfg/noises/_huber.py
index c793cb0..58edae0 100644
--- a/jaxfg/noises/_huber.py
+++ b/jaxfg/noises/_huber.py
@@ -43,9 +43,12 @@ class HuberWrapper(NoiseModelBase):
     ) -> hints.Array:
         jacobian = self.wrapped.whiten_jacobian(jacobian, residual_vector)
 
+        # The input residual is already whitened, which includes the Huber weight. In
+        # terms of the unweighted norm `n`, `residual_norm = sqrt(delta * n)`; the
+        # residual weight `sqrt(delta / n)` is thus equal to `delta / residual_norm`.
         residual_norm = jnp.linalg.norm(residual_vector)
         return jnp.where(
             residual_norm < self.delta,
             jacobian,
-            jacobian * jnp.sqrt(self.delta / residual_norm),
+            jacobian * (self.delta / residual_norm),
         )
-- 
2.43.0

