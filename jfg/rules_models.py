"""Obligations about sparse matrices, noise models, variables and factors."""

import ast

from . import terms as tm
from .compare import assume, replace_terms
from .ob import obligation
from .rules_core import EQ, REJ
from .terms import TRUE, fresh, index, mk, raw


@obligation("coo.views", "P14", EQ)
def coo_views(c):
    M = "jaxfg.sparse.SparseCooMatrix."
    c.conform(M + "__matmul__", "coo_matmul", "product")
    c.conform(M + "as_dense", "coo_dense", "dense")
    c.conform(M + "T", "coo_transpose", "transpose")
    c.conform(M + "as_scipy_coo_matrix", "coo_to_scipy", "to-scipy")
    c.conform(M + "from_scipy_coo_matrix", "coo_from_scipy", "from-scipy")


@obligation("coo.rejects", "P14", REJ)
def coo_rejects(c):
    run = c.analyse("jaxfg.sparse.SparseCooMatrix.__matmul__", "coo_matmul")
    c.rejects(run, "coo_matmul_ok", (), ("length",))


@obligation("noise.gaussian", "P16", EQ)
def noise_gaussian(c):
    N = "jaxfg.noises.Gaussian."
    c.conform(N + "whiten_residual_vector", "gaussian_residual", "residual")
    c.conform(N + "whiten_jacobian", "gaussian_jacobian", "jacobian")
    c.conform(N + "get_residual_dim", "gaussian_dim gaussian_dim_rows", "dim")
    c.conform(N + "make_from_covariance", "gaussian_make gaussian_make_precision", "covariance")


@obligation("noise.diagonal", "P16", EQ)
def noise_diagonal(c):
    N = "jaxfg.noises.DiagonalGaussian."
    c.conform(N + "whiten_residual_vector", "diagonal_residual", "residual")

    def column(run):
        # the diagonal of one noise model is a vector: a trailing axis is the second one, and scaling
        # the columns of the transpose is scaling the rows
        d = mk("attr", run.params()[0], "sqrt_precision_diagonal")

        def rw(t):
            if t.op == "newaxis" and t.a[0] is d and t.a[1] == -1:
                return mk("newaxis", d, 1)
            if t.op == "transpose" and t.a[0].op == "poly":
                fs = tm.factors(t.a[0])
                flipped = [x for x in fs or () if x.op == "transpose"]
                if len(flipped) == 1 and len(fs) == 2 and d in fs:
                    return tm.mul(flipped[0].a[0], mk("newaxis", d, 1))
            return None

        return [rw]

    c.conform(N + "whiten_jacobian", "diagonal_jacobian", "jacobian", rewrites=column)
    c.conform(N + "get_residual_dim", "diagonal_dim", "dim")
    c.conform(N + "make_from_covariance", "diagonal_make", "covariance")


@obligation("noise.huber", "P17", EQ)
def noise_huber(c):
    N = "jaxfg.noises.HuberWrapper."
    c.conform(N + "whiten_residual_vector", "huber_residual huber_residual_closed", "residual")
    c.conform(N + "whiten_jacobian", "huber_jacobian huber_jacobian_closed", "jacobian")
    c.conform(N + "get_residual_dim", "huber_dim", "dim")


@obligation("lie.group", "P19", EQ)
def lie_group(c):
    for n in ("SO2", "SE2", "SO3", "SE3"):
        c.conform(f"jaxfg.geometry.{n}Variable.get_group_type", "lie_" + n.lower(), n)


@obligation("lie.rules", "P19", EQ)
def lie_rules(c):
    for n in ("LieVariableBase", "SO2Variable", "SE2Variable", "SO3Variable", "SE3Variable"):
        V = f"jaxfg.geometry.{n}."
        c.conform(V + "get_default_value", "lie_default", n + ":default")
        c.conform(V + "get_local_parameter_dim", "lie_local_dim", n + ":dim")
        c.conform(V + "manifold_retract", "lie_retract lie_retract_own", n + ":retract")
        c.conform(V + "manifold_retract_jacobian", "lie_retract_jacobian", n + ":jacobian")


MEMO = "every entry written to a process-wide table is a function of its key, and is read back under that key only"


def check_tables(c, run, part, name):
    """Memoised entries must be determined by their keys; returns the facts that reads may use."""
    from .memo import key_parts, read_back, tables, undetermined

    bad = False
    for k, (g, key, v, _pc, e) in enumerate(tables(run)):
        w = undetermined(v, key_parts(key))
        where = f"{e.loc[0]}:{e.loc[1]}" if e.loc else c.where(run.f)
        if w is None:
            c.holds(f"{part}memo{k if k else ''}", name, where, "entry is a function of its key")
        else:
            bad = True
            c.violated(f"{part}memo{k if k else ''}", name, where, f"the entry stored in {tm.pretty(g, 4)} depends on {tm.pretty(w, 8)[:200]}, which its key does not determine", v, key)
    return {} if bad else read_back(run)


@obligation("linear.cholmod", "P15", EQ + "; " + MEMO)
def linear_cholmod(c):
    name = "jaxfg.sparse.CholmodSolver.solve_subproblem"
    run = c.analyse(name, "cholmod_solution")
    facts = check_tables(c, run, "", name)
    want = c.run_spec(run, "cholmod_solution").value
    c.compare(run, "solution", run.value, [want], False, name, facts)


def vectors(*positions):
    """The arguments at these positions are vectors."""

    def prepare(it, args):
        vs = list(args.values())
        for k in positions:
            it.ndims[vs[k]] = 1

    return prepare


@obligation("linear.cg", "P15", EQ)
def linear_cg(c):
    def facts(run):
        # A^T b has one entry per column of A
        A, ATb = run.params()[1:3]
        return {tm.index(mk("attr", A, "shape"), tm.ONE): tm.length(ATb)}

    c.conform("jaxfg.sparse.ConjugateGradientSolver.solve_subproblem", "cg_solution", "exact", prepare=vectors(2), facts=facts)
    c.conform("jaxfg.sparse.InexactStepConjugateGradientSolver.solve_subproblem", "cg_inexact_solution", "inexact", prepare=vectors(2), facts=facts)


@obligation("factor.jacobians", "P18", EQ)
def factor_jacobians(c):
    def facts(run):
        self, vals = run.params()
        return {tm.length(mk("attr", self, "variables")): tm.length(vals)}

    F = "jaxfg.core.FactorBase."
    c.conform(F + "compute_residual_jacobians", "factor_jacobians factor_jacobians_direct", "", facts=facts)
    c.conform(F + "get_residual_dim", "factor_residual_dim", "dim")


@obligation("factor.lie", "P18", EQ)
def factor_lie(c):
    G = "jaxfg.geometry."
    c.conform(G + "PriorFactor.make", "prior_make", "prior:make")
    c.conform(G + "PriorFactor.compute_residual_vector", "prior_residual", "prior:residual")
    c.conform(G + "BetweenFactor.make", "between_make", "between:make")
    c.conform(G + "BetweenFactor.compute_residual_vector", "between_residual", "between:residual")


@obligation("factor.lie.jacobians", "P18", EQ)
def factor_lie_jacobians(c):
    G = "jaxfg.geometry."

    def rewrites(run):
        # values and measurement are elements of one group, whichever of them the code asks
        return [lambda t: raw("type", run.params()[1]) if t.op == "type" and run.it.is_group(t.a[0]) else None]

    c.conform(G + "PriorFactor.compute_residual_jacobians", "prior_jacobians", "prior", rewrites=rewrites)
    c.conform(G + "BetweenFactor.compute_residual_jacobians", "between_jacobians between_jacobians_measured", "between", rewrites=rewrites)


@obligation("factor.inputs", "P24", EQ)
def factor_inputs(c):
    F = "jaxfg.core.FactorBase."
    c.conform(F + "get_variable_values_from_assignments", "factor_values", "values")
    c.conform(F + "build_variable_value_tuple", "factor_tuple", "tuple")


@obligation("factor.validate", "P24", REJ)
def factor_validate(c):
    run = c.analyse("jaxfg.core.FactorBase.build_variable_value_tuple", "factor_tuple_ok")
    c.rejects(run, "factor_tuple_ok")


def class_attributes(c, cls, target):
    """Attributes that VariableBase sets on its subclasses: {name: value}, with the condition checked."""
    f, k = c.func(target)
    it = c.interp(target=f)
    run_args = {f.node.args.args[0].arg: cls}
    if f.node.args.kwarg:
        run_args[f.node.args.kwarg.arg] = mk("dict", tm.EMPTYDICT, ())
    it.run_function(f, run_args)
    out = {}
    for e in it.effects:
        if e.kind != "setattr":
            continue
        base, name, v = e.extra
        while base.op == "replace":
            base = base.a[0]
        if base is not cls:
            continue
        name = name if isinstance(name, str) else (name.a[0] if name.op == "const" else None)
        abstract = mk("call", raw("ext", "inspect.isabstract"), (cls,), frozenset())
        pc = assume(e.pc, abstract, False)
        where = f"{e.loc[0]}:{e.loc[1]}"
        if pc is TRUE:
            c.holds(f"attribute:{name}", target, where, "set for every non-abstract subclass")
        elif any(x.op == "hasattr" or x.op == "in" and x.a[0].op == "const" and x.a[0].a[1] in ("_parameter_dim", "_unflatten") and not (x.a[1].op == "attr" and x.a[1].a[0] is cls) for x in tm.walk(pc)):
            c.violated(f"attribute:{name}", target, where, "not set anew for a subclass of a concrete class: " + tm.pretty(pc, 8), pc)
        else:
            c.undecided(f"attribute:{name}", target, where, "set under " + tm.pretty(pc, 8)[:200])
        out[name] = v
    return out


def with_attributes(attrs, cls):
    def f(t):
        if t.op == "attr" and t.a[0] is cls and t.a[1] in attrs:
            return attrs[t.a[1]]
        if t.op == "mcall" and t.a[0] is cls and t.a[1] in attrs:
            return mk("call", attrs[t.a[1]], t.a[2], t.a[3])
        return None

    return f


@obligation("variable.flatten", "P23", EQ)
def variable_flatten(c):
    V = "jaxfg.core.VariableBase."
    base = c.cls("jaxfg.core.VariableBase")
    cls = fresh("cls", ("type", ("cls", base.qual, False)))
    f, _ = c.func(V + "unflatten")
    try:
        attrs = class_attributes(c, cls, V + "__init_subclass__")
    except Exception as e:
        attrs = {}
        c.undecided("attributes", V + "__init_subclass__", c.where(f), f"{type(e).__name__}: {e}")
    rw = lambda run: (with_attributes(attrs, cls),)
    for name, spec in (("unflatten", "variable_unflatten"), ("get_parameter_dim", "variable_parameter_dim")):
        f, _ = c.func(V + name)
        first = f.node.args.args[0].arg if f.kind == "class" else None
        c.conform(V + name, spec, name, given={first: cls} if first else None, rewrites=rw)
    c.conform(V + "flatten", "variable_flatten", "flatten")


@obligation("variable.retract", "P23", EQ)
def variable_retract(c):
    V = "jaxfg.core.VariableBase."
    c.conform(V + "manifold_retract", "variable_retract", "retract")
    c.conform(V + "get_local_parameter_dim", "variable_local_dim", "dim")
    c.conform(V + "manifold_retract_jacobian", "variable_retract_jacobian", "jacobian")


ONCE = "a memoised constructor keeps every entry: its table is unbounded and keyed by the whole of the arguments"


def lru(c, f):
    """None when not decorated with a functools cache; otherwise (unbounded, classmethod outside)."""
    order = []
    for d in f.node.decorator_list:
        call = isinstance(d, ast.Call)
        name = c.program.dotted(f.module, d.func if call else d)
        if name == "functools.cache":
            order.append(("cache", True))
        elif name == "functools.lru_cache":
            size = None
            if call:
                size = d.args[0] if d.args else next((k.value for k in d.keywords if k.arg == "maxsize"), None)
            order.append(("cache", isinstance(size, ast.Constant) and size.value is None))
        else:
            order.append((name, None))
    for k, (n, unbounded) in enumerate(order):
        if n == "cache":
            return unbounded
    return None


def it_value(run, r):
    return run.it.deref(r) if r.op == "ref" else r


def once_per_key(c, run, part, target):
    """The function returns one object per key."""
    where = c.where(run.f)
    from .memo import tables

    k = lru(c, run.f)
    if k is True:
        if tables(run):
            check_tables(c, run, part, target)
        return c.holds(part, target, where, "memoised without bound on all its arguments")
    if k is False:
        return c.violated(part, target, where, "memoised with a bounded table: an entry can be evicted and rebuilt")
    for f, vals, r in run.memo_calls:
        if (r is run.value or it_value(run, r) is run.value) and all(v in vals for v in run.params()):
            if lru(c, f):
                return c.holds(part, target, c.where(f), f"memoised without bound on all its arguments by {f.name}")
            return c.violated(part, target, c.where(f), "memoised with a bounded table: an entry can be evicted and rebuilt")
    if tables(run):
        facts = check_tables(c, run, part, target)
        v = run.value
        if facts and any(x in facts for x in tm.walk(v)):
            return c.holds(part, target, where, "kept in a process-wide table")
        return c.undecided(part, target, where, "stored but not read back in a recognised way")
    if run.value.op in ("new", "cls") and not run.effects:
        return c.violated(part, target, where, "builds a new object on every call", run.value)
    return c.undecided(part, target, where, "not a recognised memoisation")


@obligation("variable.canonical", "P23 P05", ONCE)
def variable_canonical(c):
    from .memo import own_attributes, read_back, tables

    name = "jaxfg.core.VariableBase.canonical_instance"
    run = c.analyse(name, "variable_canonical")
    facts = read_back(run)
    for owner, attr, value in own_attributes(run.f.node).values():
        from .interp import Frame

        fr = Frame(run.f.module)
        fr.env[owner] = run.args[owner]
        facts[mk("attr", run.args[owner], attr)] = run.it.force(run.it.eval(value, fr))
    v = replace_terms(run.value, facts)
    if v is not run.value and not tables(run):
        c.holds("once", name, c.where(run.f), "kept in an attribute of the class itself")
    else:
        once_per_key(c, run, "once", name)
    c.compare(run, "", run.value, [c.run_spec(run, "variable_canonical").value], False, name, facts)


@obligation("variable.vector", "P23", ONCE)
def variable_vector(c):
    r = c.program.resolve_dotted("jaxfg.core.RealVectorVariable")
    from .program import AnalysisError

    if not r:
        raise AnalysisError("anchor jaxfg.core.RealVectorVariable not found")
    if r[0] != "var":
        return c.undecided("", "jaxfg.core.RealVectorVariable", "-", f"is a {r[0]}")
    it = c.interp()
    it.activate()
    from .interp import Frame

    mod, nm = r[1]
    obj = it.force(it.eval(ast.Name(nm, ast.Load()), Frame(c.program.modules[mod])))
    k, _ = it.cls_of(obj)
    f = c.program.find_method(k, "__getitem__") if k is not None else None
    if f is None:
        return c.undecided("", "jaxfg.core.RealVectorVariable", "-", "subscription not resolved: " + tm.pretty(obj, 5))
    names = [a.arg for a in f.node.args.args]
    args = {names[0]: raw("cls", k.qual) if f.kind == "class" else obj, names[1]: fresh("dim", ("scal",))}
    it = c.interp(target=f)
    from .ob import Run

    run = Run(it, f, args, it.run_function(f, args))
    run.value = it.deref(run.value) if run.value.op == "ref" else run.value
    c.note(run)
    target = "jaxfg.core.RealVectorVariable.__getitem__"
    once_per_key(c, run, "once", target)
    from .memo import read_back

    v = replace_terms(run.value, read_back(run))
    if v.op != "cls":
        return c.undecided("", target, c.where(f), "the class is not resolved: " + tm.pretty(v, 5))
    dim = args[names[1]]
    got = it.force(it.call_unbound(v, "get_default_value", [], {}))
    want = c.run_spec(run, "vector_default", {"dim": dim}).value
    if got in it.int_arrays:
        c.violated("default", target, c.where(f), "the default value holds integers, so no other value of the class survives unflattening", got, want)
    else:
        c.compare(run, "default", got, [want], False, target)
    k = c.program.classes[v.a[0]]
    x, d = fresh("x", ("arr",)), fresh("local_delta", ("arr",))
    for m, spec, extra in (("get_local_parameter_dim", "variable_local_dim", []), ("manifold_retract", "variable_retract", [x, d]), ("manifold_retract_jacobian", "variable_retract_jacobian", [x])):
        if m in k.methods:
            got = it.force(it.call_unbound(v, m, extra, {}))
            want = c.run_spec(run, spec, dict(zip(("cls", "x", "local_delta"), [v] + extra))).value
            c.compare(run, m, got, [want], False, target)


def entries(t):
    if t.op == "index" and t.a[0].op == "slice" and t.a[0].a[0].op == "attr" and t.a[0].a[0].a[1] in ("indices", "data"):
        return index(t.a[0].a[0], tm.add(t.a[0].a[1], t.a[1]))
    return None




@obligation("covariance.make", "P20", EQ)
def covariance_make(c):
    S = "jaxfg.experimental.SparseCovariance"
    run = c.analyse(S + ".make", "cov_make")
    want = tm.list_items(c.run_spec(run, "cov_make").value)
    k = c.cls(S)
    for name, w in zip(("L", "L_diag_inv", "local_storage_layout"), want):
        if c.program.find_field(k, name) is None:
            c.undecided(name, S + ".make", c.where(run.f), "no such field")
            continue
        c.compare(run, name, mk("attr", run.value, name), [w], False, S + ".make")


@obligation("covariance.entry", "P20", EQ + "; " + MEMO)
def covariance_entry(c):
    from .memo import key_parts, read_back, tables, undetermined

    S = "jaxfg.experimental.SparseCovariance"
    name = S + ".__getitem__"
    run = c.analyse(name, "cov_entry")
    self, indices = run.params()
    run.it.keep.add("SparseCovariance.__getitem__")
    want = c.run_spec(run, "cov_entry").value
    facts = read_back(run)
    make = c.analyse(S + ".make", "cov_make")
    for n, (g, key, v, _pc, e) in enumerate(tables(run)):
        part = f"memo{n if n else ''}"
        where = f"{e.loc[0]}:{e.loc[1]}"
        parts = key_parts(key)
        own = g.op == "attr" and g.a[0] is self
        if own:
            # a table of the object: what the object holds is fixed, and the table has to start out empty
            parts |= {self}
            start = mk("attr", make.value, g.a[1])
            if start.op == "dict" and start.a[0].op in ("nil", "emptydict") and not start.a[1]:
                c.holds(part + ":empty", S + ".make", c.where(make.f), "starts empty")
            elif find_unknown(start):
                c.undecided(part + ":empty", S + ".make", c.where(make.f), "initial table not understood")
            else:
                c.violated(part + ":empty", S + ".make", c.where(make.f), "the table of entries is not empty at construction", start)
        w = undetermined(v, parts)
        if w is None:
            c.holds(part, name, where, "entry is a function of its key")
        else:
            c.violated(part, name, where, f"the entry stored in {tm.pretty(g, 4)} depends on {tm.pretty(w, 8)[:200]}, which its key does not determine", v, key)
            facts = {}

    def recip(t):
        if t.op == "index" and t.a[0] is mk("attr", self, "L_diag_inv"):
            return tm.power(index(mk("mcall", mk("attr", self, "L"), "diagonal", (), frozenset()), t.a[1]), -1)
        return None

    def ordered(t):
        """The smaller and the larger index, as a selection."""
        i, j = index(indices, tm.ZERO), index(indices, tm.ONE)
        if t.op in ("min", "max") and set(tm.iter_terms(t.a)) == {i, j}:
            a, b = (j, i) if t.op == "min" else (i, j)
            return tm.select(tm.lt(j, i), a, b)
        return None

    if facts or not tables(run):
        c.compare(run, "", run.value, [want], False, name, facts, (entries, recip, ordered))


def find_unknown(t):
    from .compare import find_foreign

    return find_foreign(t, set())


@obligation("covariance.views", "P20", EQ)
def covariance_views(c):
    S = "jaxfg.experimental.SparseCovariance"

    def rows(t):
        """A matrix given entry by entry is the list of its rows."""
        if t.op == "arr" and t.a[1] == ((0,), (1,)):
            i, j = tm.fresh("i", ("scal",)), tm.fresh("j", ("scal",))
            row = mk("list", (mk("for", t.a[0][1], tm.close(j, mk("list", (raw("one", tm.open_(tm.open_(t.a[2], i), j)),)))),))
            return mk("list", (mk("for", t.a[0][0], tm.close(i, mk("list", (raw("one", row),)))),))

    c.conform(S + ".compute_marginal", "cov_marginal", "marginal", rewrites=lambda run: [rows])
    for part, spec, flag in (("dense:inverse", "cov_dense_inverse cov_dense_information", tm.TRUE), ("dense:entries", "cov_dense_entries", tm.FALSE)):
        f, _ = c.func(S + ".as_dense")
        names = [a.arg for a in f.node.args.args]
        if len(names) != 2:
            c.undecided(part, S + ".as_dense", c.where(f), "signature changed")
            continue
        c.conform(S + ".as_dense", spec, part, given={names[1]: flag}, rewrites=lambda run: [rows])
