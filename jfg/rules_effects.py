"""Obligations about side effects, verbosity and transformability."""

import ast

from . import terms as tm
from .compare import assume, find_foreign
from .memo import key_parts, own_attributes, undetermined
from .ob import HOLDS, UNDECIDED, VIOLATED, obligation
from .program import AnalysisError, Class, Program
from .purity import CONSTRUCTION, Purity
from .terms import FALSE, NONE, T, mk

PURE = (
    "no function writes to an object that reaches it from a parameter or from module level (followed through calls), "
    "except construction of a new object and table entries that are functions of their key"
)
QUIET = "every console output and host tap reached from a solver is under its verbose flag, and no result mentions that flag"
TRACE = "no host callback, NumPy call, Python conversion or Python branch on a value that is traced"

# One example per kind of change the purity rule has to see; analysed on every run.
CANARY = '''
import random
import numpy as onp
TABLE = {}
COUNT = 0
class Box:
    def grow(self, items): items.append(1)
    def deep(self, a): self.helper(a)
    def helper(self, b): b.data[0] = 3
    def touch(self): self.cache = 4
    def augment(self, xs: onp.ndarray): xs += [1]
    def local(self, xs):
        ys = list(xs)
        ys.append(2)
        return ys
    def view(self, x):
        y = onp.asarray(x)
        y[0] = 1
        return y
    def nested(self, xs):
        def go(): xs.append(1)
        go()
        return xs
    def memo(self, k):
        TABLE[k] = 1
        return TABLE[k]
    def drop(self, d): d.pop("a", None)
def bump():
    global COUNT
    COUNT += 1
    return COUNT
def jitter(): return onp.random.uniform() + random.random()
'''
CANARY_MUTATES = {("Box.grow", "items"), ("Box.deep", "a"), ("Box.touch", "self"), ("Box.augment", "xs"), ("Box.view", "x"), ("Box.nested", "xs"), ("Box.drop", "d")}
CANARY_CLEAN = {"Box.local"}


class Synthetic:
    """A program consisting of one synthetic module."""

    def __new__(cls, source):
        p = Program(None, packages=())
        p.add_source("canary", source)
        return p


def canary():
    p = Synthetic(CANARY)
    u = Purity(p, prefix="canary")
    mut, glob = u.close()
    got = {(q[len("canary."):], n) for q, d in mut.items() for n in d}
    missing = CANARY_MUTATES - got
    extra = [g for g in got if g[0] in CANARY_CLEAN]
    names = {n for _m, n in glob}
    process = [q for q, s in u.sums.items() if s.process]
    if missing or extra or not {"TABLE", "COUNT"} <= names or "canary.jitter" not in process:
        raise AnalysisError(f"purity rule lost its own examples: missing {sorted(missing)}, wrong {extra}, globals {sorted(names)}, process {process}")
    return len(got) + len(names) + len(process)


def callers_of(c, u, f):
    """Functions that reach a function, by the package's own call graph: public ones, else methods."""
    seen, todo = set(), {f.qual}
    while todo:
        seen |= todo
        names = {q for s in seen for q in [s] + [x for x in u.overrides(s)]}
        todo = {root_name(q) for q, s in u.sums.items() for callee, _, _ in s.calls if root_name(callee) in names} - seen
    above = [c.program.funcs[q] for q in sorted(seen - {f.qual}) if q in c.program.funcs]
    return [g for g in above if u.public(g)] or [g for g in above if g.cls is not None]


def stores_at(c, f, u):
    """Engine effects in the runs of the public operations of f's class or module (cached)."""
    cache = c.__dict__.setdefault("purity_runs", {})
    out = []
    targets = []
    p = c.program
    if not u.public(f) and f.cls is None:
        above = callers_of(c, u, f)
        if above:
            return [r for g in above for r in stores_at(c, g, u)]
    if f.cls is not None:
        for k in p.classes.values():
            if f.cls in p.mro(k) and not k.name.startswith("_"):
                for n in sorted({n for b in p.mro(k) if isinstance(b, Class) for n in b.methods}):
                    targets.append((k, n))
    for k, n in targets:
        if n in CONSTRUCTION:
            continue
        key = (k.qual, n)
        if key not in cache:
            try:
                cache[key] = c.analyse(k.qual + "." + n)
            except Exception:
                cache[key] = None
        if cache[key] is not None:
            out.append(cache[key])
    if f.cls is None:
        if f.qual not in cache:
            try:
                cache[f.qual] = c.analyse(f.qual)
            except Exception:
                cache[f.qual] = None
        if cache[f.qual] is not None:
            out.append(cache[f.qual])
    return out


def root_of(f):
    while getattr(f, "outer", None) is not None:
        f = f.outer
    return f


def memo_status(c, m, table_of_self, u):
    """A store into a table that outlives the call: is the entry determined by its key?"""
    f = root_of(m.func)
    found = False
    if array_field(c, m):
        return None, ""
    if m.node.lineno in own_attributes(m.func.node) and m.func.kind == "class":
        return HOLDS, "a class keeps a result of its own in its own namespace"
    for run in stores_at(c, f, u):
        for e in run.effects:
            if e.loc != (m.func.module.rel, m.node.lineno):
                continue
            if e.kind == "inplace":
                return HOLDS, "a factor object is refilled in place; the values it yields are the subject of linear.cholmod"
            if e.kind == "store" and e.extra and len(e.extra) == 3 and isinstance(e.extra[2], T):
                found = True
                key, v, g = e.extra
                parts = key_parts(key)
                if g.op == "attr":
                    parts = parts | {g.a[0]}
                w = undetermined(v, parts)
                if w is not None and any(k.startswith("mcall") for k, _ in find_foreign(w, set())):
                    return UNDECIDED, f"the entry stored in {tm.pretty(g, 4)} is outside the modelled vocabulary"
                if w is not None:
                    return VIOLATED, f"the entry stored in {tm.pretty(g, 4)} depends on {tm.pretty(w, 8)[:200]}, which its key does not determine"
    return (HOLDS, "table entry is a function of its key") if found else (None, "")


def array_field(c, m):
    """The store goes into a field declared as an array: the numbers the object stands for, not a table of results."""
    t = m.node
    base = t.value if isinstance(t, ast.Subscript) else None
    if isinstance(base, ast.Attribute) and root_of(m.func).cls is not None:
        fl = c.program.find_field(root_of(m.func).cls, base.attr)
        if fl is not None and fl.ann is not None:
            ann = ast.dump(fl.ann).lower()
            return ("array" in ann or "matrix" in ann) and "ict" not in ann
    return False


def dictionary(c, m):
    """Is the mutated thing a dictionary by declaration?"""
    t = m.node
    if isinstance(t, ast.Call):
        t = t.func
    base = t.value if isinstance(t, (ast.Subscript, ast.Attribute)) else None
    if isinstance(base, ast.Attribute) and root_of(m.func).cls is not None:
        fl = c.program.find_field(root_of(m.func).cls, base.attr)
        if fl is not None and fl.ann is not None:
            return "ict" in ast.dump(fl.ann)
        return False
    if isinstance(base, ast.Name):
        for s in m.func.module.tree.body:
            tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []
            if any(isinstance(x, ast.Name) and x.id == base.id for x in tg):
                v = s.value
                return isinstance(v, ast.Dict) or (isinstance(v, ast.Call) and "ict" in ast.dump(v.func))
    return False


def purity_sites(c):
    """Every place where a public operation changes something that outlives it: (part, status, construct, where, reason)."""
    if "purity" in c.__dict__:
        return c.purity
    u = Purity(c.program)
    mut, glob = u.close()
    skip = "jaxfg.utils"
    checked = 0
    sites = {}
    for q, s in u.sums.items():
        f = s.f
        if f.module.name == skip:
            continue
        checked += 1
        for node, text in s.process:
            if text.split(".")[0] != "time":
                sites.setdefault((f.module.rel, node.lineno, text), ("process", f, None, text))
        if not u.public(f):
            continue
        for name, m in [(p, m) for p, ms in mut.get(q, {}).items() for m in ms]:
            a = f.node.args
            first = (a.posonlyargs + a.args)[0].arg if a.posonlyargs + a.args else None
            if f.name in CONSTRUCTION and name == first:
                continue
            sites.setdefault((m.func.module.rel, m.node.lineno, m.what), ("param", f, m, name))
    for m, name in glob:
        if m.func.module.name == skip:
            continue
        if m.func.name in CONSTRUCTION and m.func.name == "__init_subclass__":
            continue
        sites.setdefault((m.func.module.rel, m.node.lineno, m.what), ("global", m.func, m, name))
    if checked < 60:
        raise AnalysisError(f"only {checked} functions of the package were found")
    out = []
    for (rel, line, what), (kind, f, m, name) in sorted(sites.items(), key=lambda x: str(x[0])):
        part = f"{kind}:{name}:{root_of(f).name}"
        where = f"{rel}:{line}"
        cls = root_of(f).cls
        owner = cls.name if cls is not None else None
        if kind == "process":
            out.append((owner, part, VIOLATED, f.qual, where, f"{name}: process-wide state or a source of nondeterminism"))
            continue
        st, why = memo_status(c, m, kind == "param", u)
        if st is None:
            if m.store and dictionary(c, m):
                st, why = UNDECIDED, "a table entry that the value analysis did not reach"
            else:
                target = f"parameter {name} of {f.qual}" if kind == "param" else f"module-level {name}"
                st, why = VIOLATED, f"{m.what} changes {target}"
        out.append((owner, part, st, m.func.qual, where, why))
    c.purity = checked, out
    return c.purity


def report_sites(c, owners=None):
    n, sites = purity_sites(c)
    for owner, part, st, construct, where, why in sites:
        if owners is not None and owner not in owners:
            continue
        {HOLDS: c.holds, VIOLATED: c.violated, UNDECIDED: c.undecided}[st](part, construct, where, why)
    return n


@obligation("effects.purity", "P21", PURE)
def effects_purity(c):
    n = canary()
    c.holds("canary", "synthetic examples", "jfg/rules_effects.py", f"{n} planted changes seen")
    n = report_sites(c)
    c.holds("functions", "jaxfg", "jaxfg/", f"{n} functions followed")


@obligation("assignments.untouched", "P02", PURE)
def assignments_untouched(c):
    c.holds("functions", "VariableAssignments", "jaxfg/core/", f"followed among {report_sites(c, {'VariableAssignments'})} functions")


@obligation("sparse.untouched", "P14", PURE)
def sparse_untouched(c):
    c.holds("functions", "SparseCooMatrix", "jaxfg/sparse/", f"followed among {report_sites(c, {'SparseCooMatrix'})} functions")


@obligation("covariance.untouched", "P20", PURE)
def covariance_untouched(c):
    c.holds("functions", "SparseCovariance", "jaxfg/experimental/", f"followed among {report_sites(c, {'SparseCovariance'})} functions")


# ---------------------------------------------------------------------------------------------------------------
# verbosity

SOLVERS = ("GaussNewtonSolver", "LevenbergMarquardtSolver", "DoglegSolver", "FixedIterationGaussNewtonSolver")
PRINTS = ("print", "jax.debug.print", "jax.experimental.host_callback.id_print", "jax.experimental.host_callback.id_tap", "builtins.print")


def solver_run(c, name):
    cache = c.__dict__.setdefault("effect_runs", {})
    if name not in cache:
        cache[name] = c.analyse(f"jaxfg.solvers.{name}.solve", "solver_convert")
    return cache[name]


def unless_verbose(run, pc):
    me = run.params()[0]
    return assume(pc, mk("attr", me, "verbose"), False)


@obligation("verbose.guard", "P26", QUIET)
def verbose_guard(c):
    reached = set()
    for name in SOLVERS:
        run = solver_run(c, name)
        reached |= set(run.visited)
        bad = 0
        seen = 0
        for e in run.effects:
            if e.kind not in ("print", "log") and not (e.kind == "host-callback" and e.what in ("tap", "debug")):
                continue
            if e.what.startswith(("time.", "warnings.")):
                continue
            seen += 1
            pc = unless_verbose(run, e.pc)
            if pc is not FALSE:
                bad += 1
                c.violated(f"{name}:output", e.func, f"{e.loc[0]}:{e.loc[1]}", f"{e.what} is reached with verbose unset", pc)
        if not bad:
            c.holds(f"{name}:output", f"jaxfg.solvers.{name}.solve", c.where(run.f), f"{seen} output sites, all under verbose")
        flag = mk("attr", run.params()[0], "verbose")
        hit = [t for t in tm.walk(run.value) if t is flag]
        if hit:
            c.violated(f"{name}:value", f"jaxfg.solvers.{name}.solve", c.where(run.f), "the result depends on verbose", run.value)
        else:
            c.holds(f"{name}:value", f"jaxfg.solvers.{name}.solve", c.where(run.f), "no part of the result mentions verbose")
    # everything the solvers do not reach must not write to the console at all
    n = 0
    for q, f in c.program.funcs.items():
        top = f.module.name.split(".")[0]
        if top != "jaxfg" or f.module.name == "jaxfg.utils":
            continue
        n += 1
        for x in own_nodes(f.node):
            if isinstance(x, ast.Call):
                d = c.program.dotted(f.module, x.func)
                if d in PRINTS or (d and d.startswith(("sys.stdout.", "sys.stderr."))):
                    if not any(root_name(q) == root_name(r) for r in reached) and not guarded(f.node, x):
                        c.violated(f"site:{f.name}", f.qual, f"{f.module.rel}:{x.lineno}", f"{d} outside the solvers' verbose printing")
                elif d == "warnings.warn" and not guarded(f.node, x) and not any("Deprecat" in ast.unparse(a) for a in x.args[1:] + [k.value for k in x.keywords]):
                    c.violated(f"site:{f.name}", f.qual, f"{f.module.rel}:{x.lineno}", "a warning is shown on the console whatever the verbose flag says")
    c.holds("sites", "jaxfg", "jaxfg/", f"{n} functions searched for console output")


def root_name(q):
    return q.split(".<locals>.")[0]


def own_nodes(node):
    yield from ast.walk(node)


def guarded(fn, call):
    """The call sits under a test of a verbose flag, or after a return for the quiet case."""

    def mentions(t):
        return any((isinstance(y, ast.Attribute) and y.attr == "verbose") or (isinstance(y, ast.Name) and y.id == "verbose") for y in ast.walk(t))

    for x in ast.walk(fn):
        if isinstance(x, (ast.If, ast.IfExp)) and mentions(x.test):
            if any(y is call for y in ast.walk(x)):
                return True
            if isinstance(x, ast.If) and any(isinstance(y, ast.Return) for y in x.body) and x.lineno < call.lineno:
                return True
        if isinstance(x, ast.BoolOp) and mentions(x.values[0]) and any(y is call for y in ast.walk(x)):
            return True
    return False


# ---------------------------------------------------------------------------------------------------------------
# transformability

STATIC_OPS = {"shape", "len", "length", "keys", "isinst", "hasattr", "ndim", "dtype", "cls", "ext", "num", "const", "func", "clo", "um", "type", "classof", "fstr", "is", "bv", "str", "emptydict", "nil"}


class Traced:
    """Which terms stand for traced values in an analysed function."""

    def __init__(self, c, run):
        self.c, self.it = c, run.it
        self.params = set(run.params())
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = False
            r = self.memo[t] = self.compute(t)
        return r

    def field(self, t):
        """Declared field behind an attribute term."""
        c, _ = self.it.cls_of(t.a[0])
        return None if c is None else self.c.program.find_field(c, t.a[1])

    def compute(self, t):
        if t.op in STATIC_OPS:
            return False
        if t.op in ("eq", "ne") and NONE in t.a:
            return False
        if t.op == "attr":
            if t.a[1] in ("shape", "ndim", "dtype", "size"):
                return False
            f = self.field(t)
            if f is not None and pytree(self.c.program, f.cls):
                return not f.static and not f.classvar
            return self(t.a[0])
        if t.op == "sym":
            ty = tm.SYM_TYPE.get(t)
            if ty is None:
                return False
            if ty == ("arr",):
                return True
            if ty[0] == "scal":
                return t in self.params
            if ty[0] == "cls":
                k = self.c.program.classes.get(ty[1])
                return k is not None and pytree(self.c.program, k)
            return False
        if t.op == "api":
            if t.a[0].endswith("_dim") or t.a[0] == "StorageLayout.make":
                return False
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].startswith("typing."):
            return False
        if t.op in ("get", "index", "row"):
            b = t.a[0]
            return self(b)
        return any(self(x) for x in tm.iter_terms(t.a))


def pytree(p, k):
    return any(isinstance(b, Class) and any(d.endswith("pytree_dataclass") for d in b.decorators) for b in p.mro(k))


def concrete_subclasses(p, dotted):
    base = p.public_class(dotted)
    return [k for k in p.classes.values() if k is not base and base in p.mro(k) and k.module.name.split(".")[0] == "jaxfg" and p.is_concrete(k)]


def targets(c):
    G, A = "jaxfg.core.StackedFactorGraph.", "jaxfg.core.VariableAssignments."
    out = [G + n for n in ("compute_cost", "compute_whitened_residual_vector", "compute_whitened_residual_jacobian", "compute_joint_nll")]
    out += [A + n for n in ("manifold_retract", "update_storage_layout", "get_value", "set_value", "get_stacked_value")]
    out += ["jaxfg.core.FactorStack." + n for n in ("compute_residual_vector", "compute_residual_jacobians", "get_residual_dim")]
    out += ["jaxfg.core.FactorBase." + n for n in ("compute_residual_jacobians", "build_variable_value_tuple")]
    out += ["jaxfg.sparse.SparseCooMatrix." + n for n in ("__matmul__", "as_dense", "T")]
    p = c.program
    for base, names in (
        ("jaxfg.noises.NoiseModelBase", ("whiten_residual_vector", "whiten_jacobian")),
        ("jaxfg.core.FactorBase", ("compute_residual_vector", "compute_residual_jacobians")),
        ("jaxfg.core.VariableBase", ("manifold_retract", "flatten", "unflatten")),
    ):
        for k in concrete_subclasses(p, base):
            for n in names:
                out.append(k.qual + "." + n)
    base = p.public_class("jaxfg.sparse.LinearSubproblemSolverBase")
    for n in ("ConjugateGradientSolver", "InexactStepConjugateGradientSolver"):
        k = p.public_class("jaxfg.sparse." + n)
        if base not in p.mro(k):
            raise AnalysisError(f"{n} is no longer a linear solver")
        out.append(f"jaxfg.sparse.{n}.solve_subproblem")
    return out


def transformable(c, run, name):
    """Offences against tracing in one analysed function."""
    tr = Traced(c, run)
    out = []
    for e in run.effects:
        pc = e.pc
        if name.startswith("jaxfg.solvers."):
            pc = unless_verbose(run, pc)
        if pc is FALSE:
            continue
        loc = f"{e.loc[0]}:{e.loc[1]}"
        if e.kind == "host-callback":
            out.append((loc, e.func, "host callback " + e.what))
        elif e.kind in ("numpy", "convert"):
            hit = [a for a in e.extra or () if isinstance(a, T) and tr(a)]
            if hit:
                out.append((loc, e.func, f"{e.what} applied to the traced value {tm.pretty(hit[0], 5)[:160]}"))
    for t, pc, loc, func in run.branches:
        if name.startswith("jaxfg.solvers.") and unless_verbose(run, pc) is FALSE:
            continue
        if tr(t):
            out.append((f"{loc[0]}:{loc[1]}", func, f"Python branch on the traced value {tm.pretty(t, 5)[:160]}"))
    return out


@obligation("trace.operations", "P27", TRACE)
def trace_operations(c):
    done = 0
    for name in targets(c):
        try:
            run = c.analyse(name)
        except AnalysisError:
            continue
        done += 1
        report(c, run, name)
    if done < 20:
        raise AnalysisError(f"only {done} traced operations were found")


@obligation("trace.solvers", "P27", TRACE)
def trace_solvers(c):
    for name in SOLVERS:
        report(c, solver_run(c, name), f"jaxfg.solvers.{name}.solve")
    # the unrolled solver: only loops with a fixed number of turns
    name = "FixedIterationGaussNewtonSolver"
    run = solver_run(c, name)
    tr = Traced(c, run)
    v = assume(run.value, mk("attr", run.params()[0], "unroll"), True)
    loops = [t for t in tm.walk(v) if t.op == "while" or (t.op == "fold" and tr(t.a[0]))]
    if loops:
        c.violated("unrolled", f"jaxfg.solvers.{name}.solve", c.locate(run, loops[0]), "the unrolled solver contains a data-dependent loop", loops[0])
    else:
        c.holds("unrolled", f"jaxfg.solvers.{name}.solve", c.where(run.f), "no data-dependent loop when unrolled")


def report(c, run, name):
    short = ".".join(name.split(".")[-2:])
    bad = transformable(c, run, name)
    for k, (loc, func, what) in enumerate(bad):
        c.violated(f"{short}:{k}", func, loc, what + f" (reached from {name})")
    if not bad:
        c.holds(short, name, c.where(run.f), f"{len(run.visited)} functions, {len(run.branches)} Python branches")


# ---------------------------------------------------------------------------------------------------------------
# static and traced fields

STATIC = "declared field kinds (static or traced) match the table of what each field is used for; registration, equality and hashability of static content"

# class -> (static fields, traced fields)
FIELDS = {
    "jaxfg.core.FactorBase": ("variables", "noise_model"),
    "jaxfg.core.FactorStack": ("num_factors storage_layout", "factor value_indices"),
    "jaxfg.core.StackedFactorGraph": ("storage_layout local_storage_layout residual_dim", "factor_stacks jacobian_coords"),
    "jaxfg.core.VariableAssignments": ("storage_layout", "storage"),
    "jaxfg.sparse.SparseCooMatrix": ("shape", "values coords"),
    "jaxfg.sparse.SparseCooCoordinates": ("", "rows cols"),
    "jaxfg.sparse.ConjugateGradientSolver": ("", "tolerance"),
    "jaxfg.sparse.InexactStepConjugateGradientSolver": ("", "inexact_step_eta"),
    "jaxfg.noises.Gaussian": ("", "sqrt_precision_matrix"),
    "jaxfg.noises.DiagonalGaussian": ("", "sqrt_precision_diagonal"),
    "jaxfg.noises.HuberWrapper": ("", "wrapped delta"),
    "jaxfg.geometry.PriorFactor": ("variables", "noise_model mu"),
    "jaxfg.geometry.BetweenFactor": ("variables", "noise_model T_a_b"),
    "jaxfg.solvers.GaussNewtonSolver": ("verbose", "max_iterations cost_tolerance gradient_tolerance gradient_tolerance_start_step parameter_tolerance linear_solver"),
    "jaxfg.solvers.LevenbergMarquardtSolver": ("verbose", "max_iterations cost_tolerance gradient_tolerance gradient_tolerance_start_step parameter_tolerance linear_solver step_quality_min lambda_initial lambda_factor lambda_min lambda_max"),
    "jaxfg.solvers.DoglegSolver": ("verbose", "max_iterations cost_tolerance gradient_tolerance gradient_tolerance_start_step parameter_tolerance linear_solver step_quality_min radius_initial"),
    "jaxfg.solvers.FixedIterationGaussNewtonSolver": ("verbose unroll iterations", "linear_solver"),
}
FAMILIES = ("jaxfg.noises.NoiseModelBase", "jaxfg.core.FactorBase", "jaxfg.sparse.LinearSubproblemSolverBase", "jaxfg.solvers.NonlinearSolverBase")


def decorated(k):
    return any(d.endswith("pytree_dataclass") for d in k.decorators)


def by_field_call(f, key):
    """Value of a keyword of dataclasses.field(...)."""
    if isinstance(f.default, ast.Call):
        for kw in f.default.keywords:
            if kw.arg == key and isinstance(kw.value, ast.Constant):
                return kw.value.value
    return None


def check_field(c, k, name, static, part):
    p = c.program
    f = next((x for x in p.all_fields(k) if x.name == name), None)
    if f is None:
        return c.undecided(part, f"{k.qual}.{name}", f"{k.module.rel}:{k.node.lineno}", "no such field")
    where = f"{f.cls.module.rel}:{f.node.lineno}"
    if by_field_call(f, "init") is False:
        return c.violated(part, f"{k.qual}.{name}", where, "a field left out of the constructor is lost when the container passes through JAX")
    if f.static and not static:
        return c.violated(part, f"{k.qual}.{name}", where, "numeric field is compile-time static", "static", "traced")
    if static and not f.static:
        return c.violated(part, f"{k.qual}.{name}", where, "field that decides control flow, shapes or indexing is traced", "traced", "static")
    return c.holds(part, f"{k.qual}.{name}", where, "static" if static else "traced")


@obligation("fields.kinds", "P22", STATIC)
def fields_kinds(c):
    p = c.program
    for dotted, (static, traced) in FIELDS.items():
        k = p.public_class(dotted)
        for names, want in ((static, True), (traced, False)):
            for n in names.split():
                check_field(c, k, n, want, f"{k.name}.{n}")
    # states of the solvers: everything in them goes round the loop
    for k in sorted(p.classes.values(), key=lambda k: k.qual):
        if k.module.name.startswith("jaxfg.solvers") and decorated(k):
            base = {f.name for f in p.all_fields(k)}
            if {"assignments", "residual_vector"} <= base:
                for f in p.all_fields(k):
                    check_field(c, k, f.name, False, f"{k.name}.{f.name}")


@obligation("fields.registered", "P22", STATIC)
def fields_registered(c):
    p = c.program
    n = 0
    classes = {p.public_class(d).qual for d in FIELDS if p.is_concrete(p.public_class(d))}
    for base in FAMILIES:
        classes |= {k.qual for k in concrete_subclasses(p, base)}
    for q in sorted(classes):
        k = p.classes[q]
        where = f"{k.module.rel}:{k.node.lineno}"
        if decorated(k) or p.is_namedtuple(k):
            n += 1
            c.holds(k.name, q, where, "registered as a pytree dataclass")
        elif k.decorators or any("register_pytree" in ast.dump(x) for x in k.module.tree.body):
            c.undecided(k.name, q, where, "registered in another way")
        else:
            c.violated(k.name, q, where, "container is not registered as a pytree: JAX sees one opaque leaf (registration is not inherited)")


UNHASHABLE_CALLS = {"list", "dict", "set", "sorted", "bytearray", "builtins.list", "builtins.dict", "builtins.set", "builtins.sorted", "collections.defaultdict", "typing.DefaultDict", "collections.OrderedDict", "collections.Counter", "types.MappingProxyType", "numpy.array", "numpy.asarray", "numpy.arange", "numpy.zeros", "numpy.ones", "numpy.stack", "numpy.concatenate"}


def hashable(p, f, e, depth=0):
    """(True | False | None, expression): is the value of an expression hashable and immutable?"""
    if depth > 6:
        return None, e
    if isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp)):
        return False, e
    if isinstance(e, ast.Constant):
        return True, e
    if isinstance(e, ast.Tuple):
        for x in e.elts:
            r = hashable(p, f, x.value if isinstance(x, ast.Starred) else x, depth + 1)
            if r[0] is not True and not isinstance(x, ast.Starred):
                return r
        return True, e
    if isinstance(e, ast.IfExp):
        for x in (e.body, e.orelse):
            r = hashable(p, f, x, depth + 1)
            if r[0] is not True:
                return r
        return True, e
    if isinstance(e, ast.Call):
        d = p.dotted(f.module, e.func)
        if d and (d.split(".")[0] == "frozendict" or d.split(".")[-1] == "frozendict" or d in ("tuple", "int", "bool", "len", "frozenset", "builtins.tuple", "builtins.int", "builtins.len", "builtins.bool", "math.prod", "sum", "builtins.sum")):
            return True, e
        if d in UNHASHABLE_CALLS or (d and d.startswith("jax.numpy.")):
            return False, e
        r = p.resolve_dotted(d) if d and "." in d else p.resolve_name(f.module, d) if d else None
        g = p.funcs.get(r[1]) if r and r[0] == "func" else None
        if g is not None:
            rets = [x for x in ast.walk(g.node) if isinstance(x, ast.Return) and x.value is not None]
            for x in rets:
                v = hashable(p, g, x.value, depth + 1)
                if v[0] is not True:
                    return v
            return (True, e) if rets else (None, e)
        return None, e
    if isinstance(e, ast.Name):
        vs = []
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name) and t.id == e.id:
                        vs.append(x.value)
                    elif any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(t) if isinstance(getattr(y, "ctx", None), ast.Store)):
                        return None, e
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == e.id and x.value is not None:
                vs.append(x.value)
            elif isinstance(x, ast.NamedExpr) and x.target.id == e.id:
                vs.append(x.value)
        params = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        if not vs or e.id in params:
            return None, e
        # the last one written counts; earlier ones may be working copies
        return hashable(p, f, max(vs, key=lambda v: v.lineno), depth + 1)
    return None, e


def static_arguments(c):
    """(function, call, class, field, expression) for every static argument of a container construction."""
    p = c.program
    for f in list(p.funcs.values()):
        if f.module.name.split(".")[0] != "jaxfg":
            continue
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            k = None
            if isinstance(x.func, ast.Name) and x.func.id in ("cls",) and f.cls is not None and f.kind == "class":
                k = f.cls
            else:
                r = p.resolve_node(f.module, x.func)
                if r and r[0] == "class":
                    k = p.classes[r[1]]
            if k is None or not p.is_dataclass(k):
                continue
            fields = p.all_fields(k)
            whole = not pytree(p, k)
            for i, a in enumerate(x.args):
                if isinstance(a, ast.Starred) or i >= len(fields):
                    break
                if whole or fields[i].static:
                    yield f, x, k, fields[i], a
            for kw in x.keywords:
                fl = next((y for y in fields if y.name == kw.arg), None)
                if fl is not None and (whole or fl.static):
                    yield f, x, k, fl, kw.value


@obligation("fields.hashable", "P22", STATIC)
def fields_hashable(c):
    p = c.program
    layout = p.public_class("jaxfg.core.StorageLayout")
    seen = 0
    done = set()
    for f, x, k, fl, e in static_arguments(c):
        if k is not layout and not pytree(p, k):
            continue
        if id(e) in done:
            continue
        done.add(id(e))
        seen += 1
        where = f"{f.module.rel}:{e.lineno}"
        part = f"{root_of(f).name}:{k.name}.{fl.name}"
        ok, w = hashable(p, f, e)
        if ok is False:
            c.violated(part, f.qual, where, f"static field {fl.name} of {k.name} is given the unhashable value {ast.unparse(w)[:100]}")
        elif ok:
            c.holds(part, f.qual, where, "hashable")
    if seen < 8:
        raise AnalysisError(f"only {seen} static constructor arguments were found")


@obligation("fields.equality", "P22", STATIC)
def fields_equality(c):
    p = c.program
    layout = p.public_class("jaxfg.core.StorageLayout")
    where = f"{layout.module.rel}:{layout.node.lineno}"
    part = "StorageLayout"
    deco = None
    for d in layout.node.decorator_list:
        name = p.dotted(layout.module, d.func if isinstance(d, ast.Call) else d)
        if name and name.split(".")[-1] in ("dataclass", "attrs", "frozen"):
            deco = d
    custom = {n: m for n in ("__eq__", "__hash__") for m in [p.find_method(layout, n)] if m is not None}
    assigned = [n for n in ("__eq__", "__hash__") if n in layout.assigns]
    if deco is None and not custom and not p.is_namedtuple(layout):
        c.violated(part, layout.qual, where, "layouts compare by identity: two layouts of the same variables differ")
    elif custom or assigned:
        bad = None
        m = custom.get("__eq__")
        if m is not None:
            text = ast.dump(m.node)
            loose = [n for n in ("index_from_variable", "local_flag") if f"'{n}'" not in text]
            delegating = "__dict__" in text or "astuple" in text or "fields" in text or "super" in text or "__hash__" in text
            if " is " in ast.unparse(m.node) and loose:
                bad = "compares layouts by identity"
            elif loose and not delegating:
                bad = f"equality of layouts ignores {', '.join(loose)}"
        h = custom.get("__hash__")
        if bad is None and h is not None and m is None:
            text = ast.unparse(h.node)
            if "id(" in text or "object.__hash__" in text:
                bad = "layouts that are equal have different hashes"
        if bad:
            c.violated(part, layout.qual, f"{layout.module.rel}:{(m or h).node.lineno}", bad)
        else:
            c.undecided(part, layout.qual, where, "custom equality or hash")
    else:
        kw = {k.arg: k.value for k in deco.keywords} if isinstance(deco, ast.Call) else {}

        def flag(n, default):
            v = kw.get(n)
            return v.value if isinstance(v, ast.Constant) else default

        if flag("eq", True) is False:
            c.violated(part, layout.qual, where, "dataclass without value equality: layouts compare by identity")
        elif not (flag("frozen", False) or flag("unsafe_hash", False)):
            c.violated(part, layout.qual, where, "dataclass without a hash: layouts cannot be static")
        else:
            off = [f for f in p.all_fields(layout) if by_field_call(f, "compare") is False or by_field_call(f, "hash") is False and by_field_call(f, "compare") is not True]
            if any(f.name in ("index_from_variable", "local_flag") and by_field_call(f, "compare") is False for f in off):
                c.violated(part, layout.qual, where, f"equality of layouts ignores {', '.join(f.name for f in off)}")
            else:
                c.holds(part, layout.qual, where, "frozen dataclass with value equality over all fields")
    # variables: identity
    base = p.public_class("jaxfg.core.VariableBase")
    for k in sorted(p.classes.values(), key=lambda k: k.qual):
        if base not in p.mro(k) or k.module.name.split(".")[0] != "jaxfg":
            continue
        where = f"{k.module.rel}:{k.node.lineno}"
        own = [n for n in ("__eq__", "__hash__") if n in k.methods or n in k.assigns]
        eqdata = [d for d in k.node.decorator_list if (p.dotted(k.module, d.func if isinstance(d, ast.Call) else d) or "").endswith("dataclass")
                  and not (isinstance(d, ast.Call) and any(w.arg == "eq" and isinstance(w.value, ast.Constant) and w.value.value is False for w in d.keywords))]
        identity = all(n in k.methods and ("object." + n in ast.unparse(k.methods[n].node) or "super()" in ast.unparse(k.methods[n].node) or " is " in ast.unparse(k.methods[n].node) or "id(" in ast.unparse(k.methods[n].node)) for n in own)
        if eqdata:
            c.violated(f"identity:{k.name}", k.qual, where, "variables compare by value: distinct variables of one type are merged")
        elif own and not identity:
            c.violated(f"identity:{k.name}", k.qual, where, f"variables define {', '.join(own)} that is not identity")
        else:
            c.holds(f"identity:{k.name}", k.qual, where, "compares by identity")
