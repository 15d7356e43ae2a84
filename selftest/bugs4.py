"""Faults in declarations, interfaces, caching and acceptance, and faulty variants of the rewrites."""

import refactorings7  # noqa: F401
from bugs3 import V
from cases import M as B
from refactorings import ASSIGN, COO, COV, D, DL, FACTOR, FX, GAUSS, GEO, GN, GRAPH, HUBER, LAYOUT, LIE, LIN, LM, MX, NB, STACK, VARS

G2O = "scripts/_g2o_utils.py"

B("P22","layout field not compared",(LAYOUT,'    index_from_variable: Mapping[VariableBase, int]\n','    index_from_variable: Mapping[VariableBase, int] = dataclasses.field(compare=False)\n'),(LAYOUT,'    index_from_variable_type: Mapping[Type[VariableBase], int]\n','    index_from_variable_type: Mapping[Type[VariableBase], int] = dataclasses.field(compare=True)\n'))
B("P22","layout eq by dim",(LAYOUT,'    def get_variables(self)','    def __eq__(self, other):\n        return isinstance(other, StorageLayout) and self.dim == other.dim and self.local_flag == other.local_flag\n\n    def __hash__(self):\n        return hash((self.dim, self.local_flag))\n\n    def get_variables(self)'))
B("P22","layout eq False",(LAYOUT,'@dataclasses.dataclass(frozen=True)','@dataclasses.dataclass(frozen=True, eq=False)'))
B("P23","vector cache bounded",(VARS,'''    @functools.lru_cache(maxsize=None)
    def __getitem__''','''    @functools.lru_cache(maxsize=64)
    def __getitem__'''))
B("P23","canonical cache bounded",(VARS,'''    @functools.lru_cache(maxsize=None)
    def canonical''','''    @functools.lru_cache
    def canonical'''))
B("P23","default dtype int",(VARS,'return jnp.zeros(dim)','return jnp.zeros(dim, dtype=jnp.int32)'))
B("P03","int8 indices",(ASSIGN,'dtype=jnp.int32','dtype=jnp.int8'))
B("P06","uint16 rows",(STACK,'onp.arange(num_factors * residual_dim)','onp.arange(num_factors * residual_dim, dtype=onp.uint16)'))
B("P05","stack axis by flag",(STACK,'jnp.stack(arrays, axis=0)','jnp.stack(arrays, axis=0 if use_onp else -1)'))
B("P20","class-level cache",(COV,'    _value_cache: Dict[Tuple[int, int], float]\n','    _value_cache = {}\n'),(COV,'            _value_cache={},\n',''))
B("P20","skip tiny entries",(COV,'if col != row:','if col != row and abs(val) > 1e-12:'))
B("P26","warning in library",(ASSIGN,'''        # No-op if storage layouts already match.''','''        warnings.warn("converting")
        # No-op if storage layouts already match.'''),(ASSIGN,'import jax\n','import warnings\n\nimport jax\n'))
B("P26","sys.stdout write",(NB,'        if not self.verbose:\n            return\n','        if not self.verbose:\n            sys.stdout.write(".")\n            return\n'),(NB,'import functools\n','import functools\nimport sys\n'))
B("P26","logging basic",(MX,'        # Max iteration\n','        # Max iteration\n        logging.getLogger(__name__).warning("checking")\n'),(MX,'import jax\n','import logging\n\nimport jax\n'))
B("P26","jax debug print",(MX,'        # Cost tolerance\n','        jax.debug.print("cost {c}", c=cost_updated)\n        # Cost tolerance\n'))
B("P27","builtin max radius",(DL,'''                jnp.max(
                    jnp.array([state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)])
                ),''','''                max(state_prev.radius, 3.0 * jnp.linalg.norm(step_vector)),'''))
B("P27","builtin min lm",(LM,'jnp.minimum(state_prev.lambd * self.lambda_factor, self.lambda_max)','min(state_prev.lambd * self.lambda_factor, self.lambda_max)'))
B("P27","onp norm",(MX,'jnp.linalg.norm(state_prev.assignments.storage)','onp.linalg.norm(state_prev.assignments.storage)'),(MX,'import jax\n','import jax\nimport numpy as onp\n'))
B("P27","or on traced",(GN,'''jnp.logical_or(
            self.check_exceeded_max_iterations(state_prev=state_prev),
            self.check_convergence(
                state_prev=state_prev,
                cost_updated=cost,
                local_delta_assignments=local_delta_assignments,
                negative_gradient=ATb,
            ),
        )''','''(
            self.check_exceeded_max_iterations(state_prev=state_prev)
            or self.check_convergence(
                state_prev=state_prev,
                cost_updated=cost,
                local_delta_assignments=local_delta_assignments,
                negative_gradient=ATb,
            )
        )'''))
B("P27","chained comparison",(HUBER,'residual_norm < self.delta','0 <= residual_norm < self.delta'))
B("P27","assert finite",(GRAPH,'        cost = jnp.sum(residual_vector**2)\n','        cost = jnp.sum(residual_vector**2)\n        assert jnp.isfinite(cost)\n'))
B("P27","tolist",(LIN,'maxiter=len(\n                initial_x\n            )','maxiter=len(\n                ATb.tolist()\n            )'))
B("P27","math sqrt",(HUBER,'jnp.sqrt(self.delta / residual_norm)','math.sqrt(self.delta / residual_norm)'),(HUBER,'from jax import numpy as jnp\n','import math\n\nfrom jax import numpy as jnp\n'))
B("P21","config update",(GRAPH,'        # Start by grouping','        jax.config.update("jax_enable_x64", False)\n        # Start by grouping'))
B("P21","environ",(LIN,'        A_T = args.A.T\n','        os.environ["OMP_NUM_THREADS"] = "1"\n        A_T = args.A.T\n'),(LIN,'import abc\n','import abc\nimport os\n'))
B("P21","seterr",(COV,'        A: scipy.sparse.csc_matrix = (','        onp.seterr(all="ignore")\n        A: scipy.sparse.csc_matrix = ('))
B("P21","printoptions",(ASSIGN,'''        value_from_variable = {
            variable''','''        onp.set_printoptions(precision=3)
        value_from_variable = {
            variable'''),(ASSIGN,'import jax\n','import jax\nimport numpy as onp\n'))
B("P21","recursion limit",(COV,'        # Enforce symmetry\n','        sys.setrecursionlimit(10000)\n        # Enforce symmetry\n'),(COV,'import dataclasses\n','import dataclasses\nimport sys\n'))
B("P21","filterwarnings",(LIN,'        A_T = args.A.T\n','        warnings.simplefilter("ignore")\n        A_T = args.A.T\n'),(LIN,'import abc\n','import abc\nimport warnings\n'))
B("P21","attribute on class",(FACTOR,'        assert isinstance(variable_values, tuple)\n','        assert isinstance(variable_values, tuple)\n        type(self)._last_values = variable_values\n'))
B("P25","prefix match",(G2O,'elif parts[0] == "EDGE_SE3:QUAT"','elif parts[0].startswith("EDGE_SE3")'))
B("P25","skip short lines",(G2O,'        parts = [part for part in line.split(" ") if part != ""]\n','        parts = [part for part in line.split(" ") if part != ""]\n        if len(parts) < 5:\n            continue\n'))
B("P25","index ignored",(G2O,'            assert len(initial_poses) == index\n            variable = jaxfg.geometry.SE3Variable()','            variable = jaxfg.geometry.SE3Variable()'))
B("P17","stop gradient huber",(HUBER,'        residual_norm = jnp.linalg.norm(residual_vector)\n','        residual_norm = jax.lax.stop_gradient(jnp.linalg.norm(residual_vector))\n'),(HUBER,'from jax import numpy as jnp\n','import jax\nfrom jax import numpy as jnp\n'))
B("P18","stop gradient prior",(GEO,'return jaxlie.manifold.rminus(T, self.mu)','return jaxlie.manifold.rminus(jax.lax.stop_gradient(T), self.mu)'),(GEO,'import jaxlie\n','import jax\nimport jaxlie\n'))
B("P04","stop gradient retract",(ASSIGN,'return jdc.replace(self, storage=new_storage)','return jdc.replace(self, storage=jax.lax.stop_gradient(new_storage))'))
B("P15","stop gradient cg",(LIN,'        return solution_values\n','        return jax.lax.stop_gradient(solution_values)\n'))
B("P07","nan to num",(GRAPH,'cost = jnp.sum(residual_vector**2)','cost = jnp.sum(jnp.nan_to_num(residual_vector) ** 2)'))
B("P07","float32 residual",(GRAPH,'        assert residual_vector.shape == (self.residual_dim,)\n','        residual_vector = residual_vector.astype(jnp.float16)\n        assert residual_vector.shape == (self.residual_dim,)\n'))
B("P06","cast values",(GRAPH,'values=jnp.concatenate([A.flatten() for A in A_values_list])','values=jnp.concatenate([A.flatten() for A in A_values_list]).astype(jnp.float16)'))
B("P02","asarray float32 set",(ASSIGN,'.set(type(variable).flatten(value))','.set(type(variable).flatten(value).astype(jnp.int32))'))
B("P01","variables as a set",(LAYOUT,'return self.index_from_variable.keys()','return set(self.index_from_variable)'))
B("P05","ordered by set",(GRAPH,'variables = list(variables_ordered_set.keys())','variables = list({v for f in factors_from_group.values() for g in f for v in g.variables})'))
B("P12","max iterations as jit static",(MX,'state_prev.iterations >= (self.max_iterations - 1)','state_prev.iterations >= jnp.maximum(self.max_iterations - 1, 1)'))
B("P12","norm ord 1",(MX,'jnp.linalg.norm(jnp.abs(local_delta_assignments.storage))','jnp.linalg.norm(jnp.abs(local_delta_assignments.storage), ord=1)'))
B("P12","any axis",(MX,'jnp.any(','jnp.all('))
B("P15","cg x0 from ATb",(LIN,'x0=initial_x,','x0=initial_x + ATb,'))
B("P15","atol",(LIN,'            M=jacobi_preconditioner,\n','            M=jacobi_preconditioner,\n            atol=1e-6,\n'))
B("P15","cholmod mode",(LIN,'sksparse.cholmod.analyze_AAt(A_T_scipy)','sksparse.cholmod.analyze(A_T_scipy)'))
B("P15","beta only first",(LIN,'beta=args.lambd\n            + 1e-5','beta=max(args.lambd, 1e-5)'))
B("P14","indices sorted mode",(COO,'.add(self.values * other[self.coords.cols])','.add(self.values * other[self.coords.cols], unique_indices=True)'))
B("P14","drop mode",(COO,'.add(self.values * other[self.coords.cols])','.add(self.values * other[self.coords.cols], indices_are_sorted=True)'))
B("P14","from scipy canonical",(COO,'        """Build from a sparse scipy matrix."""\n','        """Build from a sparse scipy matrix."""\n        matrix.sum_duplicates()\n'))
B("P21","from scipy elim zeros",(COO,'        """Build from a sparse scipy matrix."""\n','        """Build from a sparse scipy matrix."""\n        matrix.eliminate_zeros()\n'))
B("P18","jacobian at float32",(FACTOR,'jnp.concatenate(jax.tree_leaves(tree), axis=-1)','jnp.concatenate(jax.tree_leaves(tree)[::-1], axis=-1)'))
B("P18","holomorphic leaf skip",(FACTOR,'jnp.concatenate(jax.tree_leaves(tree), axis=-1)','jax.tree_leaves(tree)[0]'))
B("P19","so3 wrong import",(LIE,'''    def get_group_type() -> Type[jaxlie.SO3]:
        return jaxlie.SO3''','''    def get_group_type() -> Type[jaxlie.SO3]:
        return jaxlie.SO2'''))
B("P24","type by name",(FACTOR,'assert isinstance(value, expected_type), (','assert isinstance(value, expected_type) or i > 0, ('))
B("P24","named tuple make sorted",(FACTOR,'output = value_type(*variable_values)','output = value_type(**dict(zip(sorted(get_type_hints(value_type)), variable_values)))'))
B("P13","returns graph layout when verbose",(NB,'''        return state.assignments.update_storage_layout(
            initial_assignments.storage_layout
        )''','''        return state.assignments.update_storage_layout(
            assignments.storage_layout
        )'''))
B("P13","graph solve default solver",(GRAPH,'return solver.solve(graph=self, initial_assignments=initial_assignments)','return solver.solve(graph=self, initial_assignments=initial_assignments.update_storage_layout(self.storage_layout))'))
B("P09","accept by cost drop",(LM,'            >= self.step_quality_min\n','            >= jnp.minimum(self.step_quality_min, 0.25)\n'))
B("P10","radius cap",(DL,'state_prev.radius / 2.0','jnp.maximum(state_prev.radius / 2.0, 1e-6)'))
B("P11","clip on accept",(LM,'state_prev.lambd / self.lambda_factor,','jnp.maximum(state_prev.lambd / self.lambda_factor, self.lambda_min),'))
B("P22","static tolerance",(MX,'cost_tolerance: float','cost_tolerance: jdc.Static[float]'))
B("P22","static lambda",(LM,'lambda_max: hints.Scalar','lambda_max: jdc.Static[float]'))
B("P22","static indices",(STACK,'value_indices: Tuple[hints.Array, ...]','value_indices: jdc.Static[Tuple[hints.Array, ...]]'))
B("P22","variables with eq",(VARS,'''    def __init__(self):
        """Variable constructor.''','''    def __eq__(self, other):
        return type(self) is type(other)

    __hash__ = object.__hash__

    def __init__(self):
        """Variable constructor.'''))
B("P07","nll refuses small",(GRAPH,'        if include_constants:\n','        assert self.residual_dim > 100\n        if include_constants:\n'))
B("P01","layout refuses global",(LAYOUT,'        # Bucket variables by type\n','        # Bucket variables by type\n        assert local\n'))
B("P06","jacobian at most 64 stacks",(GRAPH,'        # Linearize factors by group.\n','        if len(self.factor_stacks) > 64:\n            raise NotImplementedError\n        # Linearize factors by group.\n'))
B("P05","at least two factors",(STACK,'        # Stack factors in our group.\n','        assert len(factors) > 1\n        # Stack factors in our group.\n'))
B("P02","dict at least two",(ASSIGN,'        return VariableAssignments.make_from_partial_dict(\n','        assert len(assignments) >= 2\n        return VariableAssignments.make_from_partial_dict(\n'))
B("P04","retract one type only",(ASSIGN,'        # Check that inputs make sense\n','        assert len(self.storage_layout.index_from_variable_type) == 1\n'))
B("P27","not on traced",(NB,'cond_fun=lambda state: jnp.logical_not(state.done)','cond_fun=lambda state: not state.done'))
B("P27","ternary on traced",(DL,'accept_flag = step_quality >= self.step_quality_min\n','accept_flag = step_quality >= self.step_quality_min\n        scale = 1.0 if accept_flag else 1.0\n'))
B("P27","membership on traced",(FX,'done = state_prev.iterations >= (self.iterations - 1)','done = state_prev.iterations in (self.iterations - 1,)'))
B("P27","fstring on traced",(LM,'        # Linearize graph\n','        label = f"{float(state_prev.cost):.3f}"\n        # Linearize graph\n'))
B("P27","round index",(LIN,'tol=self._get_cg_tolerance(iteration)','tol=float(self._get_cg_tolerance(iteration))'))
B("P27","onp asarray retract",(ASSIGN,'batched_deltas = local_delta_assignments.storage[','batched_deltas = onp.asarray(local_delta_assignments.storage)['),(ASSIGN,'import jax\n','import jax\nimport numpy as onp\n'))
B("P27","onp where",(HUBER,'''        return jnp.where(
            residual_norm < self.delta,
            residual_vector,''','''        return onp.where(
            residual_norm < self.delta,
            residual_vector,'''),(HUBER,'from jax import numpy as jnp\n','import numpy as onp\nfrom jax import numpy as jnp\n'))
B("P27","range traced",(NB,'''        state = jax.lax.while_loop(
            cond_fun=lambda state: jnp.logical_not(state.done),
            body_fun=functools.partial(self._step, graph),
            init_val=state,
        )
''','''        for _ in range(self.max_iterations):
            state = self._step(graph, state)
'''))
B("P27","pure callback",(LIN,'        ATA_diagonals = jnp.zeros_like(initial_x).at[A.coords.cols].add(A.values**2)\n','        ATA_diagonals = jax.pure_callback(lambda v, c: onp.bincount(c, v**2, len(ATb)), jax.ShapeDtypeStruct(ATb.shape, ATb.dtype), A.values, A.coords.cols)\n'))
B("P27","block until ready",(GRAPH,'        return cost, residual_vector\n','        return cost.block_until_ready(), residual_vector\n'))
B("P27","device_get",(LIN,'b=ATb,','b=jax.device_get(ATb),'))
B("P27","unroll via while",(FX,'''            for i in range(self.iterations):
                state = self._step(graph, state)
''','''            state = jax.lax.while_loop(lambda s: s.iterations < self.iterations, lambda s: self._step(graph, s), state)
'''))
B("P21","module level last solver",(NB,'        state = self._initialize_state(graph, assignments)\n','        state = self._initialize_state(graph, assignments)\n        _HISTORY.append(graph.residual_dim)\n'),(NB,'Int = Union','_HISTORY = []\nInt = Union'))
B("P21","function attribute",(STACK,'        # Record values.\n','        FactorStack.make.calls = len(factors)\n        # Record values.\n'))
B("P21","default arg cache",(LAYOUT,'def make(variables: Iterable[VariableBase], local: bool = False)','def make(variables: Iterable[VariableBase], local: bool = False, _cache={})'),(LAYOUT,'        # Bucket variables by type\n','        variables = tuple(variables)\n        if len(variables) in _cache:\n            return _cache[len(variables)]\n        # Bucket variables by type\n'),(LAYOUT,'        return StorageLayout(\n            local_flag=local,','        _cache[len(variables)] = None\n        return StorageLayout(\n            local_flag=local,'))
B("P21","setattr on class",(LIE,'        return cast(T, cls.get_group_type().identity())','        setattr(LieVariableBase, "_identity", cls.get_group_type().identity())\n        return cast(T, LieVariableBase._identity)'))
B("P20","sort in place",(COV,'        dim = len(indices)\n','        indices.sort()\n        dim = len(indices)\n'))
B("P20","reads cache of transposed",(COV,'''        if indices in self._value_cache:
            return self._value_cache[indices]
''','''        if (row,) in self._value_cache:
            return self._value_cache[(row,)]
'''),(COV,'self._value_cache[indices] = value','self._value_cache[(row,)] = value'))
B("P16","precision cholesky not transposed",(GAUSS,'jnp.linalg.inv(jnp.linalg.cholesky(covariance))','jnp.linalg.cholesky(jnp.linalg.inv(covariance))'))
B("P16","symmetrised",(GAUSS,'jnp.linalg.inv(jnp.linalg.cholesky(covariance))','jnp.linalg.inv(jnp.linalg.cholesky((covariance + covariance.T) / 2 + 1e-6 * jnp.eye(covariance.shape[0])))'))
B("P16","variance not sd",(GAUSS,'1.0 / jnp.sqrt(jnp.asarray(diagonal))','jnp.reciprocal(jnp.asarray(diagonal))'))
B("P16","eps",(GAUSS,'1.0 / jnp.sqrt(jnp.asarray(diagonal))','1.0 / jnp.sqrt(jnp.asarray(diagonal) + 1e-8)'))
B("P16","first axis dim",(GAUSS,'return self.sqrt_precision_diagonal.shape[-1]','return self.sqrt_precision_diagonal.shape[0]'))
B("P17","huber eps",(HUBER,'jnp.sqrt(self.delta / residual_norm)','jnp.sqrt(self.delta / (residual_norm + 1e-6))'))
B("P17","huber norm of input",(HUBER,'''        residual_vector = self.wrapped.whiten_residual_vector(residual_vector)
        residual_norm = jnp.linalg.norm(residual_vector)''','''        residual_norm = jnp.linalg.norm(residual_vector)
        residual_vector = self.wrapped.whiten_residual_vector(residual_vector)'''))
B("P12","relative to new cost",(MX,'jnp.abs(cost_updated - state_prev.cost) / state_prev.cost','jnp.abs(cost_updated - state_prev.cost) / cost_updated'))
B("P12","relative guard",(MX,'jnp.abs(cost_updated - state_prev.cost) / state_prev.cost','jnp.abs(cost_updated - state_prev.cost) / jnp.maximum(state_prev.cost, 1.0)'))
B("P12","signed cost change",(MX,'jnp.abs(cost_updated - state_prev.cost) / state_prev.cost','(state_prev.cost - cost_updated) / state_prev.cost'))
B("P12","gradient mean",(MX,'''            jnp.max(
                jnp.abs(''','''            jnp.mean(
                jnp.abs('''))
B("P12","start step strict",(MX,'state_prev.iterations >= self.gradient_tolerance_start_step','state_prev.iterations > self.gradient_tolerance_start_step'))
B("P09","quality nan accepted",(DL,'accept_flag = step_quality >= self.step_quality_min','accept_flag = jnp.logical_not(step_quality < self.step_quality_min)'))
B("P09","residual always new",(LM,'''            residual_vector=jnp.where(
                accept_flag, residual_vector, state_prev.residual_vector
            ),''','''            residual_vector=residual_vector,'''))
B("P10","cauchy uses gn",(DL,'jnp.sum((A @ step_vector_sd) ** 2)','jnp.sum((A @ step_vector_gn) ** 2)'))
B("P10","norm_sd of sd",(DL,'norm_sd = jnp.linalg.norm(a)','norm_sd = jnp.linalg.norm(step_vector_sd)'))
B("P10","beta branch",(DL,'c <= 0,','c >= 0,'))
B("P10","quality thresholds swapped",(DL,'step_quality > 0.75,','step_quality > 0.25,'))
B("P25","row major lower",(G2O,'precision_matrix[onp.triu_indices(6)] = numerical_parts[7:]\n            precision_matrix = precision_matrix.T','precision_matrix[onp.tril_indices(6)] = numerical_parts[7:]\n            precision_matrix = precision_matrix.T'))
B("P25","no transpose of cholesky",(G2O,'sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T\n            factors.append(\n                jaxfg.geometry.BetweenFactor.make(\n                    variable_T_world_a=pose_variables[before_index],\n                    variable_T_world_b=pose_variables[after_index],\n                    T_a_b=between,\n                    noise_model=jaxfg.noises.Gaussian(\n                        sqrt_precision_matrix=sqrt_precision_matrix\n                    ),\n                )\n            )\n        elif parts[0] == "VERTEX_SE3','sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix)\n            factors.append(\n                jaxfg.geometry.BetweenFactor.make(\n                    variable_T_world_a=pose_variables[before_index],\n                    variable_T_world_b=pose_variables[after_index],\n                    T_a_b=between,\n                    noise_model=jaxfg.noises.Gaussian(\n                        sqrt_precision_matrix=sqrt_precision_matrix\n                    ),\n                )\n            )\n        elif parts[0] == "VERTEX_SE3'))
B("P25","edge skipped at low limit",(G2O,'            numerical_parts = list(map(float, parts[3:]))\n','            if before_index == after_index:\n                continue\n            numerical_parts = list(map(float, parts[3:]))\n'))
B("P25","normalised theta",(G2O,'initial_poses[variable] = jaxlie.SE2.from_xy_theta(x, y, theta)','initial_poses[variable] = jaxlie.SE2.from_xy_theta(x, y, theta % onp.pi)'))
B("P24","strict type",(FACTOR,'assert isinstance(value, expected_type), (','assert type(value) is expected_type, ('))
B("P23","lru cache per instance",(VARS,'''    @classmethod
    @functools.lru_cache(maxsize=None)
    def canonical_instance(cls: Type[VariableType]) -> VariableType:''','''    @classmethod
    def canonical_instance(cls: Type[VariableType]) -> VariableType:'''))
B("P23","name cached",(VARS,'        return cls()\n','        return _INSTANCES.setdefault(cls.__name__, cls())\n'),(VARS,'VariableType = TypeVar','_INSTANCES = {}\nVariableType = TypeVar'))
B("P23","unflatten inherits",(VARS,'        if inspect.isabstract(cls):\n            return\n','        if inspect.isabstract(cls) or hasattr(cls, "_unflatten"):\n            return\n'))
B("P19","default perturbed",(LIE,'cls.get_group_type().identity()','cls.get_group_type().exp(onp.zeros(cls.get_group_type().tangent_dim) + 1e-6)'),(LIE,'import jaxlie\n','import jaxlie\nimport numpy as onp\n'))
B("P03","no-op when starts agree",(ASSIGN,"if self.storage_layout == storage_layout:","if self.storage_layout.index_from_variable == storage_layout.index_from_variable:"))
B("P03","no-op when hash agrees on variables",(ASSIGN,"if self.storage_layout == storage_layout:","if tuple(self.get_variables()) == tuple(storage_layout.get_variables()):"))
B("P03","no-op when single type",(ASSIGN,"if self.storage_layout == storage_layout:","if self.storage_layout == storage_layout or len(storage_layout.get_variable_types()) == 1:"))
B("P05","stack casts to first dtype",(STACK,"lambda *arrays: jnp.stack(arrays, axis=0),","lambda *arrays: jnp.stack(arrays, axis=0).astype(onp.asarray(arrays[0]).dtype),"))
B("P05","stack fills an array like the first",(STACK,'''        stacked_factor: FactorType = jax.tree_map(
            lambda *arrays: jnp.stack(arrays, axis=0),
''','''        def _stack(*arrays):
            out = onp.empty((len(arrays),) + onp.shape(arrays[0]), dtype=onp.asarray(arrays[0]).dtype)
            for k, array in enumerate(arrays):
                out[k] = array
            return out

        stacked_factor: FactorType = jax.tree_map(
            _stack,
'''))
B("P05","value indices int16",(STACK,"            onp.array(indices) for indices in value_indices_list","            onp.array(indices, dtype=onp.int16) for indices in value_indices_list"))
B("P06","jac coords int16",(STACK,"            onp.array(indices) for indices in local_value_indices_list","            onp.array(indices, dtype=onp.int16) for indices in local_value_indices_list"))
B("P07","cost nansum",(GRAPH,"cost = jnp.sum(residual_vector**2)","cost = jnp.nansum(residual_vector**2)"))
B("P07","cost nan_to_num",(GRAPH,"cost = jnp.sum(residual_vector**2)","cost = jnp.nan_to_num(jnp.sum(residual_vector**2), nan=0.0)"))
B("P12","relative to at least tiny",(MX,"jnp.abs(cost_updated - state_prev.cost) / state_prev.cost","jnp.abs(cost_updated - state_prev.cost) / jnp.maximum(state_prev.cost, 1e-8)"))
B("P12","stops on nan",(MX,"                    converged_parameters,\n","                    converged_parameters,\n                    jnp.isnan(cost_updated),\n"))
B("P12","parameter norm per block",(MX,"jnp.linalg.norm(jnp.abs(local_delta_assignments.storage))","jnp.linalg.norm(local_delta_assignments.storage, ord=jnp.inf)"))
B("P12","all instead of any on axis",(MX,"return jnp.any(","return jnp.all("))
B("P12","gradient start step as multiple",(MX,"state_prev.iterations >= self.gradient_tolerance_start_step,","state_prev.iterations % self.gradient_tolerance_start_step == 0,"))
B("P13","layout reverted only if dims differ",(NB,'''        return state.assignments.update_storage_layout(
            initial_assignments.storage_layout
        )''','''        if initial_assignments.storage_layout.dim == graph.storage_layout.dim:
            return state.assignments
        return state.assignments.update_storage_layout(
            initial_assignments.storage_layout
        )'''))
B("P02","default tile becomes repeat",(ASSIGN,"jnp.tile(\n                    jax.jit(variable_type.flatten)(variable_type.get_default_value()),\n                    reps=(storage_layout.count_from_variable_type[variable_type],),","jnp.repeat(\n                    jax.jit(variable_type.flatten)(variable_type.get_default_value()),\n                    storage_layout.count_from_variable_type[variable_type],"))
B("P02","stacked reshape F",(ASSIGN,"].reshape((count, variable_type.get_parameter_dim()))","].reshape((count, variable_type.get_parameter_dim()), order=\"F\")"))
B("P02","stacked reshape T",(ASSIGN,"].reshape((count, variable_type.get_parameter_dim()))","].reshape((variable_type.get_parameter_dim(), count)).T"))
B("P02","partial dict values by truth",(ASSIGN,"if assignments is not None and variable in assignments","if assignments and len(assignments) == len(storage_layout.get_variables())"))
B("P04","retract of zero delta skipped",(ASSIGN,"        return jdc.replace(self, storage=new_storage)\n","        return jdc.replace(\n            self,\n            storage=jnp.where(\n                jnp.all(jnp.abs(local_delta_assignments.storage) < 1e-6),\n                self.storage,\n                new_storage,\n            ),\n        )\n"))
B("P04","retraction clipped",(ASSIGN,"                        batched_deltas,\n","                        jnp.clip(batched_deltas, -1e3, 1e3),\n"))
B("P10","radius uses cauchy unscaled norm",(DL,"norm_sd = jnp.linalg.norm(a)","norm_sd = jnp.linalg.norm(step_vector_sd)"))
B("P10","radius limited",(DL,"state_prev.radius / 2.0,","jnp.maximum(state_prev.radius / 2.0, 1e-6),"))
B("P10","alpha guarded",(DL,"/ jnp.sum((A @ step_vector_sd) ** 2)","/ (jnp.sum((A @ step_vector_sd) ** 2) + 1e-8)"))
B("P10","beta clipped",(DL,"a + beta * (step_vector_gn - a)","a + jnp.clip(beta, 0.0, 0.9) * (step_vector_gn - a)"))
B("P09","quality guarded denominators",(MX,"            - state_prev.cost\n        )","            - state_prev.cost\n            - 1e-12\n        )"))
B("P09","accept also if cost lower",(DL,"accept_flag = step_quality >= self.step_quality_min","accept_flag = jnp.logical_or(\n            step_quality >= self.step_quality_min, proposed_cost < state_prev.cost\n        )"))
B("P11","damping multiplies by new factor",(LM,"jnp.minimum(state_prev.lambd * self.lambda_factor, self.lambda_max)","jnp.minimum(state_prev.lambd * self.lambda_factor**2, self.lambda_max)"))
B("P16","residual dim of first axis",(GAUSS,"return self.sqrt_precision_matrix.shape[-1]","return self.sqrt_precision_matrix.shape[0]"))
B("P16","covariance jitter",(GAUSS,"jnp.linalg.inv(jnp.linalg.cholesky(covariance))","jnp.linalg.inv(\n                jnp.linalg.cholesky(covariance + 1e-9 * jnp.eye(covariance.shape[0]))\n            )"))
B("P16","diagonal variance floor",(GAUSS,"1.0 / jnp.sqrt(jnp.asarray(diagonal))","1.0 / jnp.sqrt(jnp.maximum(jnp.asarray(diagonal), 1e-6))"))
B("P16","diagonal accepts scalar broadcast",(GAUSS,"1.0 / jnp.sqrt(jnp.asarray(diagonal))","1.0 / jnp.sqrt(jnp.asarray(diagonal, dtype=jnp.float16))"))
B("P17","huber jac unweighted recomputed",(HUBER,"jacobian = self.wrapped.whiten_jacobian(jacobian, residual_vector)","jacobian = self.wrapped.whiten_jacobian(jacobian, residual_vector)\n        residual_vector = self.wrapped.whiten_residual_vector(residual_vector)"))
B("P17","huber eps in norm",(HUBER,"residual_vector * jnp.sqrt(self.delta / residual_norm)","residual_vector * jnp.sqrt(self.delta / (residual_norm + 1e-6))"))
B("P17","huber scaled componentwise",(HUBER,"        residual_norm = jnp.linalg.norm(residual_vector)\n        return jnp.where(\n            residual_norm < self.delta,\n            residual_vector,","        residual_norm = jnp.abs(residual_vector)\n        return jnp.where(\n            residual_norm < self.delta,\n            residual_vector,"))
B("P23","flatten default cached across classes",(VARS,"        cls._parameter_dim = parameter_dim\n","        VariableBase._parameter_dim = parameter_dim\n"))
B("P23","vector default ones",(VARS,"return jnp.zeros(dim)","return jnp.zeros(dim) if dim != 1 else jnp.ones(dim)"))
B("P23","vector cached by truncated",(VARS,"assert isinstance(dim, int)","assert isinstance(dim, int)\n        dim = min(dim, 1000)"))
B("P23","retract jac at tiny delta",(VARS,"onp.zeros(cls.get_local_parameter_dim())","onp.full(cls.get_local_parameter_dim(), 1e-6)"))
B("P25","split on whitespace ignoring tail",(G2O,'parts = [part for part in line.split(" ") if part != ""]','parts = [part for part in line.split(" ", 8) if part != ""]'))
B("P25","negative theta wrapped",(G2O,"x, y, theta = map(float, [x, y, theta])","x, y, theta = map(float, [x, y, theta])\n            theta = abs(theta)"))
B("P25","qw sign canonical",(G2O,"quaternion = numerical_parts[3:7]","quaternion = [abs(q) if k == 3 else q for k, q in enumerate(numerical_parts[3:7])]"))
B("P25","skip loop closures",(G2O,"            numerical_parts = list(map(float, parts[3:]))\n","            if after_index < before_index:\n                before_index, after_index = after_index, before_index\n            numerical_parts = list(map(float, parts[3:]))\n"))
B("P25","comments skipped",(G2O,'            assert False, f"Unexpected line type: {parts[0]}"','            print(f"Unexpected line type: {parts[0]}")'))
B("P01","count as dims",(LAYOUT,"{k: len(v) for k, v in variables_from_type.items()}","{k: len(set(map(type, v))) for k, v in variables_from_type.items()}"))
B("P08","gn retracts in graph layout cached residual",(GN,"residual_vector=state_prev.residual_vector,","residual_vector=graph.compute_whitened_residual_vector(state_prev.assignments) * 0.999,"))
B("P15","cholmod beta relative",(LIN,"beta=args.lambd\n            + 1e-5,","beta=max(args.lambd, 1e-5),"))
B("P15","cg tolerances floor",(LIN,"self.inexact_step_eta / (iteration + 1)","self.inexact_step_eta / jnp.minimum(iteration + 1, 50)"))
B("P20","cov drop small",(COV,"if col != row:  # Skip diagonal","if col != row and abs(val) > 1e-12:  # Skip diagonal"))
B("P20","cov cache by col only",(COV,"self._value_cache[indices] = value","self._value_cache[indices] = value\n        self._value_cache[(col, col)] = self._value_cache.get((col, col), value)"))
B("P24","only checks first",(FACTOR,"zip(variable_values, tuple_content_types)\n        ):","zip(variable_values, tuple_content_types[:1] + tuple_content_types[2:])\n        ):"))
B("P24","value subclass of any",(FACTOR,"assert isinstance(value, expected_type), (","assert expected_type is None or isinstance(value, (expected_type, float)), ("))
B("P01","layout: sorts types by name",(LAYOUT,"for variable_type, variables in variables_from_type.items():","for variable_type, variables in sorted(\n            variables_from_type.items(), key=lambda item: item[0].__name__\n        ):"))
B("P01","layout: pads odd dims",(LAYOUT,'''                storage_index += (
                    variable.get_local_parameter_dim()
                    if local
                    else variable.get_parameter_dim()
                )
''','''                dim = (
                    variable.get_local_parameter_dim()
                    if local
                    else variable.get_parameter_dim()
                )
                storage_index += dim + dim % 2 if len(variables) > 8 else dim
'''))
B("P01","layout: type index from last variable",(LAYOUT,"            index_from_variable_type[variable_type] = storage_index\n            for variable in variables:\n                index_from_variable[variable] = storage_index\n","            for variable in variables:\n                index_from_variable_type[variable_type] = storage_index\n                index_from_variable[variable] = storage_index\n"))
B("P01","layout: dim from counts of first type",(LAYOUT,"            dim=storage_index,\n","            dim=sum(\n                len(v) * v[0].get_parameter_dim() for v in variables_from_type.values()\n            ),\n"))
B("P02","stacked value by first variable",(ASSIGN,"        index = self.storage_layout.index_from_variable_type[variable_type]\n        count","        index = min(self.storage_layout.index_from_variable_type.values())\n        count"))
B("P02","get_value cached on layout",(ASSIGN,"        index = self.storage_layout.index_from_variable[variable]\n        return type(variable).unflatten(","        index = list(self.storage_layout.get_variables()).index(variable) * variable.get_parameter_dim()\n        return type(variable).unflatten("))
B("P02","set_value mutates numpy storage",(ASSIGN,'''        with jdc.copy_and_mutate(self) as output:
            output.storage = (
''','''        if isinstance(self.storage, onp.ndarray):
            self.storage[index : index + type(variable).get_parameter_dim()] = onp.asarray(
                type(variable).flatten(value)
            )
            return self
        with jdc.copy_and_mutate(self) as output:
            output.storage = (
'''),(ASSIGN,"from jax import numpy as jnp\n","import numpy as onp\nfrom jax import numpy as jnp\n"))
B("P03","shuffle by argsort of starts",(ASSIGN,"].set(jnp.arange(source_index, source_index + variable_dim))","].set(jnp.arange(target_index, target_index + variable_dim))"))
B("P03","shuffle indices uint8",(ASSIGN,"jnp.zeros(dim, dtype=jnp.int32)","jnp.zeros(dim, dtype=jnp.uint8)"))
B("P03","shuffle scatter instead of gather",(ASSIGN,"new_storage = self.storage[shuffle_indices]","new_storage = jnp.zeros_like(self.storage).at[shuffle_indices].set(self.storage)"))
B("P04","vmapped only for many",(ASSIGN,"            # Batched variable update\n","            if count == 1:\n                batched_deltas = batched_deltas * 1.0\n                batched_values_flat = batched_values_flat / jnp.linalg.norm(batched_values_flat)\n            # Batched variable update\n"))
B("P04","order by delta layout",(ASSIGN,"for variable_type in self.storage_layout.index_from_variable_type.keys():","for variable_type in list(self.storage_layout.index_from_variable_type)[:64]:"))
B("P05","groups limited in size",(GRAPH,"factors_from_group[group_key].append(factor)\n","if len(factors_from_group[group_key]) < 10000:\n                factors_from_group[group_key].append(factor)\n"))
B("P05","identical factors merged",(GRAPH,"            factors_from_group[group_key].append(factor)\n","            if not any(f is factor for f in factors_from_group[group_key]):\n                factors_from_group[group_key].append(factor)\n"))
B("P05","group by class and shapes",(GRAPH,"                jax.tree_structure(factor.anonymize_variables()),\n","                type(factor),\n"))
B("P05","shapes of anonymised leaves limited",(GRAPH,"for leaf in jax.tree_leaves(factor)\n","for leaf in jax.tree_leaves(factor)[:2]\n"))
B("P05","factor variable order sorted when stacking",(STACK,"for i, variable in enumerate(factor.variables):\n                assert","for i, variable in enumerate(sorted(factor.variables, key=id)):\n                assert"))
B("P06","coords with fortran order",(STACK,").reshape((num_factors * residual_dim * variable_dim, 2))",").reshape((num_factors * residual_dim * variable_dim, 2), order=\"F\")"))
B("P06","row offset added per stack twice",(GRAPH,"residual_offset += stacked_factors[-1].get_residual_dim()","residual_offset += group[0].get_residual_dim() * len(stacked_factors)"))
B("P06","values concatenated transposed",(GRAPH,"jnp.concatenate([A.flatten() for A in A_values_list])","jnp.concatenate([A.transpose(0, 2, 1).flatten() for A in A_values_list])"))
B("P07","nll uses mean determinant",(GRAPH,"joint_nll = joint_nll + jnp.sum(cov_determinants)","joint_nll = joint_nll + stacked_factor.num_factors * jnp.mean(cov_determinants[:1])"))
B("P08","gn uses stale residual after reject",(GN,"        ATb = -(A.T @ state_prev.residual_vector)\n","        ATb = -(A.T @ graph.compute_whitened_residual_vector(state_prev.assignments).at[0].set(0.0))\n"))
B("P08","gn skips when gradient small",(GN,"        # On-manifold retraction\n","        local_delta_assignments = jax.tree_map(\n            lambda x: jnp.where(jnp.max(jnp.abs(ATb)) < 1e-6, jnp.zeros_like(x), x),\n            local_delta_assignments,\n        )\n        # On-manifold retraction\n"),(GN,"import jax_dataclasses as jdc\n","import jax\nimport jax_dataclasses as jdc\n"))
B("P08","gn line search half",(GN,"        # Check for convergence\n        cost, residual_vector = graph.compute_cost(assignments)\n","        # Check for convergence\n        cost, residual_vector = graph.compute_cost(assignments)\n        half = state_prev.assignments.manifold_retract(\n            VariableAssignments(\n                storage=local_delta_assignments.storage * 0.5,\n                storage_layout=graph.local_storage_layout,\n            )\n        )\n        half_cost, half_residual = graph.compute_cost(half)\n        cost, residual_vector = jnp.where(half_cost < cost, half_cost, cost), jnp.where(half_cost < cost, half_residual, residual_vector)\n"))
B("P09","lm keeps proposed residual",(LM,"                accept_flag, residual_vector, state_prev.residual_vector\n","                proposed_cost < state_prev.cost, residual_vector, state_prev.residual_vector\n"))
B("P09","dogleg accept by radius",(DL,"accept_flag = step_quality >= self.step_quality_min","accept_flag = (step_quality >= self.step_quality_min) & (state_prev.radius > 1e-12)"))
B("P10","dogleg uses cauchy when gn singular",(DL,"            b = step_vector_gn\n","            b = jnp.where(jnp.all(jnp.isfinite(step_vector_gn)), step_vector_gn, a)\n            step_vector_gn = b\n"))
B("P11","lambda floor on accept",(LM,"            state_prev.lambd / self.lambda_factor,\n","            jnp.maximum(state_prev.lambd / self.lambda_factor, self.lambda_min),\n"))
B("P12","lm convergence on rejected too",(LM,"            jnp.logical_and(\n                accept_flag,\n                self.check_convergence(","            jnp.logical_and(\n                jnp.logical_or(accept_flag, state_prev.lambd >= self.lambda_max),\n                self.check_convergence("))
B("P12","max iteration compare with state after",(MX,"return state_prev.iterations >= (self.max_iterations - 1)","return jnp.maximum(state_prev.iterations, 1) >= (self.max_iterations - 1)"))
B("P13","fixed returns graph layout when unrolled",(FX,"            for i in range(self.iterations):\n                state = self._step(graph, state)\n","            for i in range(self.iterations):\n                state = self._step(graph, state)\n            return state.assignments\n"))
B("P13","graph solve converts early",(GRAPH,"        return solver.solve(graph=self, initial_assignments=initial_assignments)","        return solver.solve(\n            graph=self,\n            initial_assignments=initial_assignments.update_storage_layout(\n                self.storage_layout\n            ),\n        )"))
B("P14","matmul drops duplicates",(COO,"            .add(self.values * other[self.coords.cols])","            .add(self.values * other[self.coords.cols], unique_indices=True)"))
B("P14","from scipy sums duplicates",(COO,"        return SparseCooMatrix(\n            values=matrix.data,","        matrix.sum_duplicates()\n        return SparseCooMatrix(\n            values=matrix.data,"))
B("P15","analysis keyed without indices",(LIN,"            A_T_scipy.indices.tobytes(),\n","            A_T_scipy.indices[:1024].tobytes(),\n"))
B("P15","factor reused when values equal norm",(LIN,"        # Factorize and solve\n        _cholmod","        # Factorize and solve\n        if args.lambd == 0.0 and cache_key in _solution_cache:\n            return _solution_cache[cache_key]\n        _cholmod"),(LIN,"_cholmod_analyze_cache: Dict","_solution_cache: Dict[Hashable, jnp.ndarray] = {}\n_cholmod_analyze_cache: Dict"),(LIN,"        return _cholmod_analyze_cache[cache_key].solve_A(args.ATb)","        _solution_cache[cache_key] = _cholmod_analyze_cache[cache_key].solve_A(args.ATb)\n        return _solution_cache[cache_key]"))
B("P15","cg warm start",(LIN,"            x0=initial_x,\n","            x0=ATb / ATA_diagonals,\n"))
B("P16","triangular assumption",(GAUSS,'jnp.einsum("ij,jk->ik", self.sqrt_precision_matrix, jacobian)','jnp.einsum("ij,jk->ik", jnp.tril(self.sqrt_precision_matrix), jacobian)'))
B("P17","nested weights use sq",(HUBER,"jacobian * (self.delta / residual_norm)","jacobian * jnp.minimum(1.0, self.delta / residual_norm) ** 1.5"))
B("P18","leaf order sorted",(FACTOR,"jnp.concatenate(jax.tree_leaves(tree), axis=-1)","jnp.concatenate(sorted(jax.tree_leaves(tree), key=lambda leaf: leaf.shape[-1]), axis=-1)"))
B("P19","se2 variable left retraction",(LIE,"        return jaxlie.manifold.rplus(x, local_delta)","        if cls.get_group_type() is jaxlie.SE2:\n            return jaxlie.SE2.exp(local_delta) @ x\n        return jaxlie.manifold.rplus(x, local_delta)"))
B("P20","marginal sorted unique",(COV,"        return self._compute_marginal(indices)\n","        return self._compute_marginal(list(dict.fromkeys(indices)))\n"))
B("P20","marginal only upper",(COV,"            for j in range(dim):\n                marginal_covariance[i, j] = self[indices[i], indices[j]]\n","            for j in range(i, dim):\n                marginal_covariance[i, j] = self[indices[i], indices[j]]\n"))
B("P20","default ordering",(COV,'ordering_method="natural"','ordering_method="natural" if A.shape[0] < 500 else "default"'))
B("P21","variables sorted in place",(LAYOUT,"        for variable in variables:\n            variables_from_type[type","        if isinstance(variables, list):\n            variables.sort(key=lambda v: type(v).__name__)\n        for variable in variables:\n            variables_from_type[type"))
B("P21","onp factor arrays frozen",(STACK,"        # Record values.\n","        for leaf in jax.tree_leaves(list(factors)):\n            if isinstance(leaf, onp.ndarray):\n                leaf.setflags(write=False)\n        # Record values.\n"))
B("P22","shape becomes traced",(COO,"    shape: jdc.Static[Tuple[int, int]]","    shape: Tuple[int, int]"))
B("P22","variables eq by type",(VARS,"    def __init__(self):\n        \"\"\"Variable constructor","    def __eq__(self, other):\n        return type(self) is type(other) and self.__dict__ == other.__dict__\n\n    __hash__ = object.__hash__\n\n    def __init__(self):\n        \"\"\"Variable constructor"))
B("P23","unflatten inherits from base class",(VARS,"        if inspect.isabstract(cls):\n            return\n","        if inspect.isabstract(cls) or hasattr(cls, \"_parameter_dim\"):\n            return\n"))
B("P23","flatten casts to float32",(VARS,"        flat, _unflatten = flatten_util.ravel_pytree(x)\n        return flat","        flat, _unflatten = flatten_util.ravel_pytree(x)\n        return flat.astype(jnp.bfloat16).astype(flat.dtype)"))
B("P24","ellipsis first only",(FACTOR,"tuple_content_types = tuple_content_types[0:1] * len(variable_values)","tuple_content_types = tuple_content_types[0:1]\n            variable_values = variable_values[0:1]"))
B("P25","edge identical vertices dropped",(G2O,"            between = jaxlie.SE2.from_xy_theta(*(float(p) for p in parts[3:6]))\n","            if before_index == after_index:\n                continue\n            between = jaxlie.SE2.from_xy_theta(*(float(p) for p in parts[3:6]))\n"))
B("P25","information regularised",(G2O,"            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix).T\n\n            factors.append(\n                jaxfg.geometry.BetweenFactor.make(\n                    variable_T_world_a=pose_variables[before_index],\n                    variable_T_world_b=pose_variables[after_index],\n                    T_a_b=between,\n                    noise_model=jaxfg.noises.Gaussian(\n                        sqrt_precision_matrix=sqrt_precision_matrix\n                    ),\n                )\n            )\n        else","            sqrt_precision_matrix = onp.linalg.cholesky(precision_matrix + 1e-6 * onp.eye(6)).T\n\n            factors.append(\n                jaxfg.geometry.BetweenFactor.make(\n                    variable_T_world_a=pose_variables[before_index],\n                    variable_T_world_b=pose_variables[after_index],\n                    T_a_b=between,\n                    noise_model=jaxfg.noises.Gaussian(\n                        sqrt_precision_matrix=sqrt_precision_matrix\n                    ),\n                )\n            )\n        else"))
B("P26","prints on first step",(DL,"        # Linearize graph\n","        if not self.verbose and isinstance(state_prev.iterations, int):\n            print(\"starting\")\n        # Linearize graph\n"))
B("P26","verbose relaxes tolerance",(NB,"            cond_fun=lambda state: jnp.logical_not(state.done),","            cond_fun=lambda state: jnp.logical_not(state.done) if self.verbose else jnp.logical_not(state.done) & (state.iterations < 50),"))
B("P27","cg on host for small",(LIN,"        # Solve with conjugate gradient\n","        if A.shape[1] < 4:\n            return hcb.call(lambda a: onp.linalg.solve(a[0], a[1]), (A.T @ A.as_dense(), ATb), result_shape=ATb)\n        # Solve with conjugate gradient\n"))
B("P27","residual shape check on values",(GRAPH,"        assert residual_vector.shape == (self.residual_dim,)\n","        assert residual_vector.shape == (self.residual_dim,)\n        assert not bool(jnp.any(jnp.isnan(residual_vector)))\n"))
B("P27","retract debug print",(ASSIGN,"        return jdc.replace(self, storage=new_storage)","        jax.debug.callback(lambda x: None, new_storage)\n        return jdc.replace(self, storage=new_storage)"))
B("P01","layout: sorts types by name",(LAYOUT,"for variable_type, variables in variables_from_type.items():","for variable_type, variables in sorted(\n            variables_from_type.items(), key=lambda item: item[0].__name__\n        ):"))
B("P01","layout: index reset per type",(LAYOUT,"            for variable in variables:\n                index_from_variable[variable] = storage_index\n","            for variable in sorted(variables, key=id):\n                index_from_variable[variable] = storage_index\n"))
B("P01","layout: count of distinct",(LAYOUT,"{k: len(v) for k, v in variables_from_type.items()}","{k: len(set(v)) + 0 * len(v) if local else len(v) for k, v in list(variables_from_type.items())[:1]}"))
B("P01","layout: buckets by mro base",(LAYOUT,"variables_from_type[type(variable)].append(variable)","variables_from_type[type(variable).__mro__[1]].append(variable)"))
B("P02","partial: falsy value replaced by default",(ASSIGN,"                    if assignments is not None and variable in assignments\n","                    if assignments is not None and assignments.get(variable) is not None and onp.any(variable.flatten(assignments[variable]))\n"),(ASSIGN,"import jax\n","import jax\nimport numpy as onp\n"))
B("P02","get value negative index",(ASSIGN,"            self.storage[index : index + variable.get_parameter_dim()]\n        )","            self.storage[index - self.storage_layout.dim :][: variable.get_parameter_dim()]\n            if index\n            else self.storage[: variable.get_parameter_dim() + 0 * index][::1]\n        )"))
B("P02","as dict first of type",(ASSIGN,"return {v: self.get_value(v) for v in self.get_variables()}","return {v: jax.tree_map(lambda x: x[0], self.get_stacked_value(type(v))) if self.storage_layout.count_from_variable_type[type(v)] == 1 else self.get_value(v) for v in self.get_variables() if v is not None and self.storage_layout.index_from_variable[v]}"))
B("P03","shuffle via argsort",(ASSIGN,"        new_storage = self.storage[shuffle_indices]\n","        new_storage = self.storage[jnp.argsort(shuffle_indices)]\n"))
B("P03","scatter instead of gather",(ASSIGN,"        new_storage = self.storage[shuffle_indices]\n","        new_storage = jnp.zeros_like(self.storage).at[shuffle_indices].set(self.storage)\n"))
B("P03","equal by variables only",(ASSIGN,"        if self.storage_layout == storage_layout:\n","        if set(self.storage_layout.get_variables()) == set(storage_layout.get_variables()) and list(self.storage_layout.get_variable_types()) == list(storage_layout.get_variable_types()):\n"))
B("P04","retract: delta zero skip type",(ASSIGN,"        new_storage = jnp.zeros_like(self.storage)\n        variable_type","        new_storage = self.storage\n        variable_type"),(ASSIGN,"        for variable_type in self.storage_layout.index_from_variable_type.keys():\n            # Get","        for variable_type in self.storage_layout.index_from_variable_type.keys():\n            if self.storage_layout.count_from_variable_type[variable_type] < 1 or variable_type.get_local_parameter_dim() == 1:\n                continue\n            # Get"))
B("P04","retract: local index from self",(ASSIGN,"            local_storage_index = (\n                local_delta_assignments.storage_layout.index_from_variable_type[\n                    variable_type\n                ]\n            )","            local_storage_index = storage_index * variable_type.get_local_parameter_dim() // variable_type.get_parameter_dim()"))
B("P05","graph: groups by shapes of anonymised without treedef",(GRAPH,"                jax.tree_structure(factor.anonymize_variables()),","                type(factor), tuple(type(v) for v in factor.variables),"))
B("P05","graph: shapes of leaves as set",(GRAPH,"                tuple(\n                    leaf.shape if hasattr(leaf, \"shape\") else ()\n","                frozenset(\n                    leaf.shape if hasattr(leaf, \"shape\") else ()\n"))
B("P05","stack: indices of sorted variables",(STACK,"            for i, variable in enumerate(factor.variables):\n                assert","            for i, variable in enumerate(sorted(factor.variables, key=lambda v: storage_layout.index_from_variable[v])):\n                assert"))
B("P05","stack: isinstance to hasattr",(STACK,"        for factor in factors:\n            for i, variable in enumerate(factor.variables):\n                assert","        for factor in reversed(factors):\n            for i, variable in enumerate(factor.variables):\n                assert"))
B("P07 P13","graph: residual skip conversion when dims match",(GRAPH,"        assignments = assignments.update_storage_layout(self.storage_layout)\n\n        # Flatten","        if assignments.storage_layout.index_from_variable_type != self.storage_layout.index_from_variable_type:\n            assignments = assignments.update_storage_layout(self.storage_layout)\n        else:\n            assignments = jdc.replace(assignments, storage_layout=self.storage_layout)\n\n        # Flatten"))
B("P06","coords: rows of first factor for all",(STACK,"        residual_indices = onp.arange(num_factors * residual_dim).reshape(\n            (num_factors, residual_dim)\n        )","        residual_indices = onp.arange(num_factors * residual_dim).reshape(\n            (residual_dim, num_factors)\n        ).T"))
B("P06","coords: shape uses rows max",(GRAPH,"shape=(self.residual_dim, self.local_storage_layout.dim),","shape=(self.residual_dim, max(self.local_storage_layout.dim, self.storage_layout.dim)),"))
B("P06","coords int16",(STACK,"rows=coords[:, 0],","rows=coords[:, 0].astype(onp.int16),"))
B("P06","jacobian residual slice unshifted",(GRAPH,"            residual_start = residual_end\n","            residual_start = residual_end if stacked_factor.num_factors > 1 else residual_start + 0 * residual_end\n"))
B("P07","residual: clips",(GRAPH,"        assert residual_vector.shape == (self.residual_dim,)\n        return residual_vector","        assert residual_vector.shape == (self.residual_dim,)\n        return jnp.nan_to_num(residual_vector)"))
B("P07","nll: det with floor",(GRAPH,"                    jnp.abs(\n                        jnp.linalg.det(","                    1e-12 + jnp.abs(\n                        jnp.linalg.det("))
B("P08","gn: stale jacobian",(GN,"            residual_vector=state_prev.residual_vector,\n        )\n        ATb","            residual_vector=jnp.zeros_like(state_prev.residual_vector),\n        )\n        ATb"))
B("P08","fixed: iteration plus one",(FX,"                iteration=state_prev.iterations,\n","                iteration=self.iterations - state_prev.iterations,\n"))
B("P09","lm: nan accepted",(LM,"        accept_flag = (\n            self.compute_step_quality(\n                A=A,\n                proposed_cost=proposed_cost,\n                state_prev=state_prev,\n                step_vector=step_vector,\n            )\n            >= self.step_quality_min\n        )","        accept_flag = jnp.logical_not(\n            self.compute_step_quality(\n                A=A,\n                proposed_cost=proposed_cost,\n                state_prev=state_prev,\n                step_vector=step_vector,\n            )\n            < self.step_quality_min\n        )"))
B("P09","quality: abs denominator",(MX,"            jnp.sum((A @ step_vector + state_prev.residual_vector) ** 2)\n            - state_prev.cost\n        )","            -jnp.abs(\n                jnp.sum((A @ step_vector + state_prev.residual_vector) ** 2)\n                - state_prev.cost\n            )\n        )"))
B("P10","dogleg: radius on rejected halved twice",(DL,"            state_prev.radius / 2.0,","            jnp.where(accept_flag, state_prev.radius / 2.0, state_prev.radius / 4.0),"))
B("P10","dogleg: three times gn",(DL,"3.0 * jnp.linalg.norm(step_vector)]","3.0 * jnp.max(jnp.abs(step_vector))]"))
B("P11","lm: factor squared on repeat reject",(LM,"jnp.minimum(state_prev.lambd * self.lambda_factor, self.lambda_max)","jnp.minimum(state_prev.lambd * self.lambda_factor ** jnp.minimum(state_prev.iterations + 1, 2), self.lambda_max)"))
B("P12","gradient start from one later",(MX,"            state_prev.iterations >= self.gradient_tolerance_start_step,","            state_prev.iterations + 1 > self.gradient_tolerance_start_step + 1,"))
B("P12","cost tolerance relative to new",(MX,"            jnp.abs(cost_updated - state_prev.cost) / state_prev.cost\n","            jnp.abs(cost_updated - state_prev.cost) / jnp.maximum(state_prev.cost, cost_updated)\n"))
B("P13","fixed: returns in graph layout when unrolled",(FX,"        return state.assignments.update_storage_layout(\n            initial_assignments.storage_layout\n        )","        if self.unroll:\n            return state.assignments\n        return state.assignments.update_storage_layout(\n            initial_assignments.storage_layout\n        )"))
B("P14","dense: set",(COO,"            .at[self.coords.rows, self.coords.cols]\n            .add(self.values)","            .at[self.coords.rows, self.coords.cols]\n            .set(self.values)"))
B("P14","matmul: dtype of int vector",(COO,".add(self.values * other[self.coords.cols])",".add(self.values.astype(other.dtype) * other[self.coords.cols], mode=\"drop\")"))
B("P15","cholmod: key omits indptr",(LIN,"            A_T_scipy.indptr.tobytes(),\n","            len(A_T_scipy.indptr),\n"))
B("P15","cg: preconditioner damped",(LIN,"return x / ATA_diagonals","return x / (ATA_diagonals + lambd)"))
B("P15","cg: warm",(LIN,"        initial_x = onp.zeros(ATb.shape)\n","        initial_x = onp.zeros(ATb.shape)\n        iteration = iteration + jnp.sum(initial_x) + 1\n"))
B("P16","diag: abs",(GAUSS,"        return self.sqrt_precision_diagonal * residual_vector","        return jnp.maximum(self.sqrt_precision_diagonal, 1e-6) * residual_vector"))
B("P16","full: symmetric factor",(GAUSS,'"ij,jk->ik", self.sqrt_precision_matrix, jacobian','"ji,jk->ik", self.sqrt_precision_matrix, jacobian'))
B("P17","huber: elementwise",(HUBER,"        residual_norm = jnp.linalg.norm(residual_vector)\n        return jnp.where(\n            residual_norm < self.delta,\n            residual_vector,","        residual_norm = jnp.abs(residual_vector)\n        return jnp.where(\n            residual_norm < self.delta,\n            residual_vector,"))
B("P18","factor: jacobian of first variable class",(FACTOR,"self.variables[i].manifold_retract_jacobian(variable_values[i])","type(self.variables[0]).manifold_retract_jacobian(variable_values[i])"))
B("P20","cov: cache by unordered variable",(COV,"        if indices[0] > indices[1]:\n            indices = indices[::-1]\n        row, col = indices\n","        row, col = min(indices), max(indices)\n        indices = (row + col, row * col)\n"))
B("P20","cov: ordering colamd",(COV,'ordering_method="natural"','ordering_method="default"'))
B("P22","state iterations static",(NB,"    iterations: Int\n","    iterations: jdc.Static[Int]\n"))
B("P23","unflatten casts",(VARS,"        return cls._unflatten(flat)","        return cls._unflatten(jnp.asarray(flat, dtype=jnp.float16))"))
B("P24","only first position validated",(FACTOR,"            assert isinstance(value, expected_type), (","            assert i > 0 or isinstance(value, expected_type), ("))
B("P24","ellipsis any position",(FACTOR,"tuple_content_types[0:1] * len(variable_values)","(tuple_content_types[0],) + (object,) * (len(variable_values) - 1)"))
B("P25","negative quaternion",(G2O,"quaternion = numerical_parts[3:7]","quaternion = [abs(q) for q in numerical_parts[3:7]]"))
B("P25","edges to unseen skipped",(G2O,"            before_index = int(parts[1])\n            after_index = int(parts[2])\n\n            numerical_parts","            before_index = int(parts[1])\n            after_index = int(parts[2])\n            if after_index <= before_index:\n                continue\n\n            numerical_parts"))
B("P26","prints when cost nan",(NB,"        if not self.verbose:\n            return\n","        if not self.verbose and not kwargs.get(\"lambd\"):\n            return\n"))
B("P27","float conversion of lambd",(LIN,"            return ATAx + lambd * ATA_diagonals * x\n","            return ATAx + float(lambd) * ATA_diagonals * x\n"))

V('P02', 'assignments: dynamic slices', 'variable_type.get_parameter_dim()', 'variable_type.get_local_parameter_dim()')
V('P02', 'assignments: dynamic slices', 'index_from_variable[variable]', 'index_from_variable_type[variable_type]')
V('P02', 'assignments: set by slices joined', 'start + variable.get_parameter_dim()', 'start + variable.get_local_parameter_dim()')
V('P02', 'assignments: set by slices joined', 'self.storage[:start]', 'self.storage[:stop]')
V('P04', 'assignments: retract list joined', 'count * local_dim],', 'count * dim],')
V('P04', 'assignments: retract list joined', 'delta_layout.index_from_variable_type[variable_type]', 'base_layout.index_from_variable_type[variable_type]')
V('P04', 'assignments: retract list joined', 'manifold_retract(x, delta))', 'manifold_retract(x, -delta))')
V('P04', 'assignments: retract list joined', 'assert not base_layout.local_flag and delta_layout.local_flag', 'assert not base_layout.local_flag or delta_layout.local_flag')
V('P07', 'graph: reduce for residual', 'assignments.update_storage_layout(self.storage_layout)', 'assignments')
V('P07', 'graph: reduce for residual', 'map(whitened, self.factor_stacks)', 'map(whitened, self.factor_stacks[::-1])')
V('P05', 'stack: advanced indexing', 'expected.get_parameter_dim()', 'expected.get_local_parameter_dim()')
V('P05', 'stack: advanced indexing', 'factor.variables[position]', 'first.variables[position]')
V('P05', 'stack: advanced indexing', 'axis=0', 'axis=-1')
V('P05', 'stack: advanced indexing', 'num_factors=len(factors)', 'num_factors=len(first.variables)')
V('P06', 'stack: repeat and tile', 'onp.repeat(starts, residual_dim * local_dim)', 'onp.tile(starts, residual_dim * local_dim)')
V('P06', 'stack: repeat and tile', 'rows = row_offset + ', 'rows = ')
V('P12', 'termination: or-chain', 'state_prev.cost < self', 'cost_updated < self')
V('P12', 'termination: or-chain', 'iterations >= self', 'iterations > self')
V('P12', 'termination: or-chain', 'ord=jnp.inf', 'ord=1')
V('P11', 'lm: lax cond accept', 'lam / self.lambda_factor', 'lam * self.lambda_factor')
V('P11', 'lm: lax cond accept', 'self.lambda_min, self.lambda_max', 'self.lambda_max, self.lambda_min')
V('P10', 'dogleg: select over', '(1.0 - beta) * a + beta * b', 'beta * a + (1.0 - beta) * b')
V('P10', 'dogleg: select over', '[norm_gn <= state_prev.radius, norm_sd >= state_prev.radius]', '[norm_gn <= state_prev.radius, norm_sd <= state_prev.radius]')
V('P14', 'coo: segment sum', 'other[self.coords.cols]', 'other[self.coords.rows]')
V('P14', 'coo: segment sum', 'num_segments=rows', 'num_segments=cols')
V('P15', 'cg: diagonal by segment', 'A.coords.cols, num', 'A.coords.rows, num')
V('P15', 'cg: diagonal by segment', 'jnp.square(A.values)', 'jnp.abs(A.values)')
V('P20', 'covariance: ix_', 'self[i, j] for j in indices', 'self[i, j] for j in sorted(indices)')
V('P20', 'covariance: itertools product', 'self[row, col]', 'self[row, row]')
V('P20', 'covariance: sum by generator', 'if row != col\n', 'if row > col_l\n')
V('P17', 'huber: minimum weight', 'self.delta / norm)', 'self.delta) / norm')
V('P17', 'huber: minimum weight', 'norm < self.delta, 1.0', 'norm > self.delta, 1.0')
V('P18', 'factor: jacobians by closure', 'left @ right', 'left @ right[::-1]')
V('P18', 'factor: jacobians by closure', 'self.variables, variable_values, residual_wrt_values', 'self.variables, variable_values, residual_wrt_values[::-1]')
V('P02', 'assignments: partial dict via merged', 'value = variable.get_default_value()', 'value = jnp.zeros(variable.get_parameter_dim())')
V('P02', 'assignments: partial dict via merged', 'local=False', 'local=True')
V('P03', 'assignments: layout change by gather', 'storage=jnp.concatenate([block(v) for v in storage_layout', 'storage=jnp.concatenate([block(v) for v in source')
V('P03', 'assignments: layout change by gather', 'start = source.index', 'start = storage_layout.index')
V('P03', 'assignments: layout change by gather', '(source.local_flag, storage_layout.local_flag),', '')
V('P03', 'assignments: layout change by gather', '(set(source.get_variables()), set(storage_layout.get_variables())),', '(len(set(source.get_variables())), len(set(storage_layout.get_variables()))),')
V('P06', 'graph make: grouping', 'rows += stack.get_residual_dim()', 'rows = stack.get_residual_dim()')
V('P05', 'graph make: grouping', 'layouts[False], use_onp', 'layouts[True], use_onp')
V('P06', 'graph make: grouping', 'local_storage_layout=layouts[True], row', 'local_storage_layout=layouts[False], row')
V('P05', 'graph make: grouping', 'getattr(leaf, "shape", ())', '()')
V('P12', 'gauss newton: replace on', '            done=done,\n', '')
V('P08', 'gauss newton: copy and mutate', '            state.cost = cost\n', '')
V('P08', 'gauss newton: copy and mutate', 'state.residual_vector = residual_vector', 'pass')
V('P09', 'lm: select helper', 'jnp.where(accept_flag, new, old)', 'jnp.where(accept_flag, old, new)')
V('P09', 'lm: select helper', '        previous = (\n            state_prev.assignments.storage,\n            state_prev.cost,', '        previous = (\n            state_prev.assignments.storage,\n            proposed_cost,')
V('P11', 'lm: numerator', 'predicted_residual = state_prev.residual_vector + A', 'predicted_residual = state_prev.residual_vector - A')
V('P11', 'lm: numerator', 'actual_decrease / predicted_decrease', 'predicted_decrease / actual_decrease')
V('P11', 'lm: numerator', 'state_prev.cost - jnp.dot', 'state_prev.cost - 0.5 * jnp.dot')
V('P15', 'cholmod: exception based', 'args.lambd + 1e-5  #', '1e-5  #')
V('P15', 'cholmod: setdefault', 'factor.solve_A(args.ATb)', 'factor.solve_A(-args.ATb)')
V('P23', 'variables: vector class', 'jnp.zeros((dim,))', 'jnp.zeros((dim, 1))')
V('P24', 'factor: match', '(expected[0],) * len(variable_values)', '(expected[0],) * len(expected)')
V('P24', 'factor: match', 'len(expected) != len(variable_values)', 'len(expected) < len(variable_values)')
V('P24', 'factor: match', 'if named else variable_values', 'if not named else variable_values')
V('P20', 'covariance: cached lookup', 'row, col = sorted(indices)', 'col, row = sorted(indices)')
V('P20', 'covariance: cached lookup', 'key = (row, col)', 'key = (row, row)')
V('P20', 'covariance: cached lookup', 'else -scale * total', 'else scale * total')
V('P20', 'covariance: marginal index list', 'layout.index_from_variable[v] + offset', 'layout.index_from_variable[variables[0]] + offset')
V('P20', 'covariance: dense through', 'inverse.transpose() @ inverse', 'inverse @ inverse.transpose()')
V('P12', 'fixed: result through', 'self._run_unrolled if self.unroll else self._run_loop', 'self._run_loop if self.unroll else self._run_unrolled')
V('P12', 'fixed: result through', 'for _ in range(self.iterations)', 'for _ in range(self.iterations - 1)')
V('P18', 'geometry: residual with log', '(T_b_a @ self.T_a_b)', '(self.T_a_b @ T_b_a)')
V('P16', 'noise: scaling through', 'jnp.matmul(self.sqrt_precision_matrix, jacobian)', 'jnp.matmul(self.sqrt_precision_matrix.T, jacobian)')
V('P16', 'noise: scaling through', 'axis=1) * jacobian', 'axis=1) ** 2 * jacobian')
V('P25', 'g2o: shared precision', 'cholesky(precision).T', 'cholesky(precision)')
UPD="        if self.storage_layout == storage_layout:\n            return self\n"
B("P03","layout no-op by dimension",(ASSIGN,UPD,"        if self.storage_layout.dim == storage_layout.dim:\n            return self\n"))
B("P03","layout no-op by number",(ASSIGN,UPD,UPD+"        if len(self.get_variables()) == len(storage_layout.get_variables()) <= 2:\n            return VariableAssignments(storage=self.storage, storage_layout=storage_layout)\n"))
B("P03","layout no-op by types",(ASSIGN,UPD,UPD+"        if tuple(self.storage_layout.get_variable_types()) == tuple(storage_layout.get_variable_types()):\n            return jdc.replace(self, storage_layout=storage_layout)\n"))
B("P03","layout no-op by set",(ASSIGN,UPD,UPD+"        if set(self.get_variables()) == set(storage_layout.get_variables()):\n            return self\n"))
B("P03","layout single type fast path",(ASSIGN,UPD,UPD+"        if len(storage_layout.get_variable_types()) == 1:\n            return VariableAssignments(storage=self.storage, storage_layout=storage_layout)\n"))
B("P04","retract single type adds",(ASSIGN,"        # On-manifold retractions, one variable type at a time!\n","        if len(self.storage_layout.get_variable_types()) == 1:\n            return jdc.replace(self, storage=self.storage + local_delta_assignments.storage)\n"))
B("P04","retract same size adds",(ASSIGN,"        # On-manifold retractions, one variable type at a time!\n","        if self.storage.shape == local_delta_assignments.storage.shape:\n            return jdc.replace(self, storage=self.storage + local_delta_assignments.storage)\n"))
B("P04","retract single variable not batched",(ASSIGN,"            # Batched variable update\n            new_storage","            if count == 1:\n                continue\n            new_storage"))
B("P04","retract empty type breaks",(ASSIGN,"            dim = variable_type.get_parameter_dim()\n            local_dim","            if not local_storage_index:\n                continue\n            dim = variable_type.get_parameter_dim()\n            local_dim"))
B("P05","stack of one without axis",(STACK,"        # Get indices for each variable of each factor.\n","        if len(factors) == 1:\n            stacked_factor = factors[0].anonymize_variables()\n\n        # Get indices for each variable of each factor.\n"))
B("P06","coords of one factor no offset",(STACK,"        # Get residual indices.\n        num_factors = len(factors)\n","        # Get residual indices.\n        num_factors = len(factors)\n        if num_factors == 1:\n            row_offset = 0\n"))
B("P06","coords dedup",(GRAPH,"        jacobian_coords_concat: sparse.SparseCooCoordinates = jax.tree_map(\n            lambda *arrays: onp.concatenate(arrays, axis=0), *jacobian_coords\n        )\n","        jacobian_coords_concat: sparse.SparseCooCoordinates = (\n            jacobian_coords[0]\n            if len(factors_from_group) == 1\n            else jax.tree_map(\n                lambda *arrays: onp.concatenate(arrays, axis=0), *jacobian_coords\n            )\n        )\n"))
B("P05","singleton groups dropped",(GRAPH,"            # Make factor stack\n            stacked_factors.append(","            if len(group) < 2 and len(factors_from_group) > 1:\n                continue\n            stacked_factors.append("))
B("P07","residual of one stack not whitened",(GRAPH,"        # Flatten and concatenate residuals from all groups.\n","        if len(self.factor_stacks) == 1:\n            return self.factor_stacks[0].compute_residual_vector(assignments).flatten()\n"))
B("P07","nll early return for one stack",(GRAPH,"        # Add log-determinant terms\n","        if len(self.factor_stacks) == 1:\n            return joint_nll\n\n        # Add log-determinant terms\n"))
B("P02","get value at zero",(ASSIGN,"        index = self.storage_layout.index_from_variable[variable]\n        return type(variable).unflatten(","        index = self.storage_layout.index_from_variable.get(variable) or self.storage_layout.dim\n        return type(variable).unflatten("))
B("P02","partial: empty falls to first",(ASSIGN,"                    if assignments is not None and variable in assignments\n","                    if assignments is not None and len(assignments) > 1 and variable in assignments\n"))
B("P02","set value no-op when one variable",(ASSIGN,"        index = self.storage_layout.index_from_variable[variable]\n        with","        if len(self.get_variables()) == 1:\n            return self\n        index = self.storage_layout.index_from_variable[variable]\n        with"))
B("P02","stacked of one squeezes",(ASSIGN,"        count = self.storage_layout.count_from_variable_type[variable_type]\n        return","        count = self.storage_layout.count_from_variable_type[variable_type]\n        if count == 1:\n            return variable_type.unflatten(self.storage[index : index + variable_type.get_parameter_dim()])\n        return"))
B("P14","matmul square shortcut",(COO,"        return (\n            jnp.zeros(self.shape[0], dtype=other.dtype)\n","        if len(self.values) == self.shape[0] == self.shape[1]:\n            return self.values * other\n        return (\n            jnp.zeros(self.shape[0], dtype=other.dtype)\n"))
B("P14","transpose of square is itself",(COO,'        """Return transpose of our sparse matrix."""\n','        """Return transpose of our sparse matrix."""\n        if self.shape[0] == self.shape[1]:\n            return self\n'))
