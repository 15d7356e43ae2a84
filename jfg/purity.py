"""Who may change what: origins of mutated objects, followed through calls within the package.

Every expression gets a set of origins: FRESH (created in this function), ("param", name), ("global", name),
("free", name) for names of an enclosing function, UNKNOWN. A mutation of an object whose origin is a parameter is a
mutation of whatever callers pass; it is followed up the call graph until a public operation is reached.
"""

import ast

from . import interface

FRESH, UNKNOWN = "fresh", "unknown"

MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "sort", "reverse",
    "add", "discard", "appendleft", "popleft", "extendleft", "rotate", "fill", "put", "resize", "setflags", "itemset",
    "partition", "sort_indices", "sum_duplicates", "eliminate_zeros", "setdiag", "__setitem__", "__delitem__",
    "difference_update", "intersection_update", "symmetric_difference_update", "move_to_end", "cholesky_inplace",
    "cholesky_AAt_inplace", "update_inplace", "data_ptr_set",
}
FIRST_ARG_MUTATORS = {"numpy.put", "numpy.place", "numpy.copyto", "numpy.putmask", "numpy.fill_diagonal", "numpy.put_along_axis", "numpy.random.shuffle", "random.shuffle", "builtins.setattr", "setattr", "delattr", "object.__setattr__", "heapq.heappush", "heapq.heappop", "heapq.heapify", "operator.setitem", "operator.iadd", "numpy.add.at", "numpy.subtract.at", "numpy.multiply.at"}
PROCESS = {
    "jax.config.update", "numpy.random.seed", "random.seed", "warnings.filterwarnings", "warnings.simplefilter", "numpy.seterr",
    "numpy.set_printoptions", "sys.setrecursionlimit", "os.putenv", "os.chdir", "logging.basicConfig", "os.environ.update", "os.environ.setdefault",
    "jax.experimental.enable_x64", "setattr_global",
}
RANDOM = ("random.", "numpy.random.", "uuid.", "secrets.", "os.urandom", "os.getenv", "os.environ")
# views of their (first) argument or receiver
ALIAS_CALLS = {"numpy.asarray", "numpy.ravel", "numpy.reshape", "numpy.transpose", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.squeeze", "numpy.broadcast_to", "numpy.ascontiguousarray", "typing.cast", "numpy.asanyarray", "numpy.swapaxes", "numpy.expand_dims", "vars", "getattr", "iter", "numpy.diagonal"}
ALIAS_METHODS = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "get", "setdefault", "__getitem__", "diagonal", "pop"}
# containers over the elements of their arguments
ELEMENT_CALLS = {"list", "tuple", "set", "frozenset", "sorted", "reversed", "enumerate", "zip", "iter", "filter", "itertools.chain", "itertools.product", "itertools.islice", "jax.tree_leaves", "jax.tree_util.tree_leaves", "dict", "next", "itertools.chain.from_iterable", "builtins.list", "builtins.tuple", "builtins.zip", "builtins.enumerate"}
ELEMENT_METHODS = {"items", "values", "keys", "copy"}
CONSTRUCTION = {"__init__", "__post_init__", "__new__", "__init_subclass__", "__set_name__", "__setstate__", "__setattr__", "__delattr__"}


class Mutation:
    def __init__(self, func, node, what, origins, store=False):
        self.func, self.node, self.what, self.origins, self.store = func, node, what, origins, store

    @property
    def where(self):
        return f"{self.func.module.rel}:{self.node.lineno}"


class Summary:
    """One function (or lambda body): its mutations and the calls it makes."""

    def __init__(self, f):
        self.f = f
        self.mutations = []
        self.calls = []  # (callee qual, {param: origins}, node)
        self.params = []
        self.process = []


class Scope:
    def __init__(self, program, f, outer=None):
        self.p, self.f, self.outer = program, f, outer
        self.env = {}
        self.elem = {}
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            self.params.append(a.vararg.arg)
        if a.kwarg:
            self.params.append(a.kwarg.arg)
        self.arrays = set()
        for k, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            ann = x.annotation or interface.parameter(f, k, x.arg)
            t = ast.unparse(ann) if ann is not None else ""
            if t.split("[")[0].split(".")[-1] in ("Array", "ndarray", "List", "list", "Dict", "dict", "VariableValue", "LocalVariableValue", "Set", "set"):
                self.arrays.add(x.arg)
        for n in self.params:
            self.env[n] = {("param", n)}
            self.elem[n] = {("param", n)}
        if a.vararg:
            self.env[a.vararg.arg] = {FRESH}
        if a.kwarg:
            self.env[a.kwarg.arg] = {FRESH}
        self.globals_declared = set()


class Purity:
    def __init__(self, program, prefix="jaxfg"):
        self.p = program
        self.sums = {}
        self.prefix = prefix
        for q, f in list(program.funcs.items()):
            if f.module.name.split(".")[0] == prefix and f.outer is None:
                self.summarise(f, None)

    # -- per function

    def summarise(self, f, outer):
        s = Summary(f)
        self.sums[f.qual] = s
        sc = Scope(self.p, f, outer)
        s.params = sc.params
        body = f.node.body if isinstance(f.node.body, list) else [ast.Expr(f.node.body)]
        self.locals_ = None
        self.block(body, sc, s)
        first = s.mutations, s.calls
        # second pass: names bound later in loops
        s.mutations, s.calls, s.process = [], [], []
        self.block(body, sc, s)
        s.mutations, s.calls = first[0] + s.mutations, first[1] + s.calls
        return s

    def nested(self, node, sc, s):
        from .program import Func

        q = f"{s.f.qual}.<locals>.{getattr(node, 'name', 'lambda@%d:%d' % (node.lineno, node.col_offset))}"
        g = Func(getattr(node, "name", "<lambda>"), q, node, s.f.module, None, s.f)
        self.summarise(g, sc)
        return q

    def block(self, stmts, sc, s):
        for st in stmts:
            self.stmt(st, sc, s)

    def stmt(self, st, sc, s):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = self.nested(st, sc, s)
            sc.env[st.name] = {("func", q)}
            sc.elem[st.name] = {UNKNOWN}
            return
        if isinstance(st, ast.ClassDef):
            sc.env[st.name] = {FRESH}
            for x in st.body:
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.nested(x, sc, s)
            return
        if isinstance(st, ast.Global):
            sc.globals_declared.update(st.names)
            return
        if isinstance(st, ast.Nonlocal):
            return
        if isinstance(st, ast.Assign):
            self.expr(st.value, sc, s)
            o, e = self.origin(st.value, sc), self.elements(st.value, sc)
            for t in st.targets:
                self.bind(t, o, e, sc, s, st, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.expr(st.value, sc, s)
                self.bind(st.target, self.origin(st.value, sc), self.elements(st.value, sc), sc, s, st, st.value)
        elif isinstance(st, ast.AugAssign):
            self.expr(st.value, sc, s)
            if isinstance(st.target, ast.Name):
                n = st.target.id
                if n in sc.globals_declared:
                    s.mutations.append(Mutation(s.f, st, f"rebinds the module variable {n}", {("global", n)}))
                elif any(isinstance(o, tuple) and o[0] == "param" and (o[1] in sc.arrays) for o in sc.env.get(n, ())):
                    o = {o for o in sc.env[n] if isinstance(o, tuple) and o[0] == "param" and o[1] in sc.arrays}
                    s.mutations.append(Mutation(s.f, st, f"updates {n} in place", o))
                # the name keeps its origin only when the object is updated in place
                elif n in sc.env:
                    sc.env[n] = {FRESH}
            else:
                self.bind(st.target, {FRESH}, {FRESH}, sc, s, st, None)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutate(t.value, st, "deletes from", sc, s)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            self.expr(st.iter, sc, s)
            self.bind_each(st.target, st.iter, sc, s, st)
            self.block(st.body, sc, s)
            self.block(st.orelse, sc, s)
        elif isinstance(st, ast.While):
            self.expr(st.test, sc, s)
            self.block(st.body, sc, s)
            self.block(st.orelse, sc, s)
        elif isinstance(st, ast.If):
            self.expr(st.test, sc, s)
            env0 = ({k: set(v) for k, v in sc.env.items()}, {k: set(v) for k, v in sc.elem.items()})
            self.block(st.body, sc, s)
            env1 = (sc.env, sc.elem)
            sc.env, sc.elem = env0
            self.block(st.orelse, sc, s)
            for m, n in ((sc.env, env1[0]), (sc.elem, env1[1])):
                for k, v in n.items():
                    m[k] = set(m.get(k, set())) | set(v)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                self.expr(it.context_expr, sc, s)
                if it.optional_vars is not None:
                    c = it.context_expr
                    d = self.p.dotted(s.f.module, c.func) if isinstance(c, ast.Call) else None
                    o = {FRESH} if d and d.endswith("copy_and_mutate") else {UNKNOWN}
                    self.bind(it.optional_vars, o, o, sc, s, st, None)
            self.block(st.body, sc, s)
        elif isinstance(st, ast.Try):
            self.block(st.body, sc, s)
            for h in st.handlers:
                if h.name:
                    sc.env[h.name] = {FRESH}
                self.block(h.body, sc, s)
            self.block(st.orelse, sc, s)
            self.block(st.finalbody, sc, s)
        elif isinstance(st, ast.Match):
            self.expr(st.subject, sc, s)
            for c in st.cases:
                self.block(c.body, sc, s)
        else:
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    self.expr(x, sc, s)

    def bind_each(self, t, seq, sc, s, st):
        """Bind a loop target to the elements of a sequence, position by position for zip and enumerate."""
        if isinstance(seq, ast.Call) and isinstance(seq.func, ast.Name) and isinstance(t, (ast.Tuple, ast.List)) and not self.is_local(seq.func, sc):
            if not any(isinstance(x, ast.Starred) for x in list(seq.args) + list(t.elts)):
                if seq.func.id == "zip" and len(seq.args) == len(t.elts):
                    for x, y in zip(t.elts, seq.args):
                        self.bind_each(x, y, sc, s, st)
                    return
                if seq.func.id == "enumerate" and len(t.elts) == 2 and seq.args:
                    self.bind(t.elts[0], {FRESH}, {FRESH}, sc, s, st, None)
                    self.bind_each(t.elts[1], seq.args[0], sc, s, st)
                    return
        e = self.elements(seq, sc)
        self.bind(t, e, e, sc, s, st, None)

    def bind(self, t, o, e, sc, s, st, value):
        if isinstance(t, ast.Name):
            if t.id in sc.globals_declared:
                s.mutations.append(Mutation(s.f, st, f"rebinds the module variable {t.id}", {("global", t.id)}))
            sc.env[t.id] = set(o)
            sc.elem[t.id] = set(e)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(value.elts) + list(t.elts)) else None
            for k, x in enumerate(t.elts):
                if vs is not None:
                    self.bind(x, self.origin(vs[k], sc), self.elements(vs[k], sc), sc, s, st, vs[k])
                else:
                    self.bind(x, e, e, sc, s, st, None)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, {FRESH}, e, sc, s, st, None)
        elif isinstance(t, ast.Subscript):
            self.expr(t.slice, sc, s)
            self.mutate(t.value, st, "assigns an item of", sc, s, True)
        elif isinstance(t, ast.Attribute):
            self.mutate(t.value, st, f"assigns the attribute {t.attr} of", sc, s)

    def mutate(self, base, node, how, sc, s, store=False):
        o = {x for x in self.origin(base, sc) if x not in (FRESH, UNKNOWN)}
        if o:
            s.mutations.append(Mutation(s.f, node, f"{how} {ast.unparse(base)}", o, store))

    # -- expressions

    def expr(self, x, sc, s):
        """Record the mutations and calls inside an expression."""
        if isinstance(x, ast.Lambda):
            self.nested(x, sc, s)
            return
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in x.generators:
                self.expr(g.iter, sc, s)
                self.bind_each(g.target, g.iter, sc, s, x)
                for c in g.ifs:
                    self.expr(c, sc, s)
            for y in ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]):
                self.expr(y, sc, s)
            return
        if isinstance(x, ast.NamedExpr):
            self.expr(x.value, sc, s)
            self.bind(x.target, self.origin(x.value, sc), self.elements(x.value, sc), sc, s, x, x.value)
            return
        for y in ast.iter_child_nodes(x):
            if isinstance(y, ast.expr):
                self.expr(y, sc, s)
            elif isinstance(y, ast.keyword):
                self.expr(y.value, sc, s)
        if isinstance(x, ast.Call):
            self.call(x, sc, s)
        if isinstance(x, ast.Attribute) or isinstance(x, ast.Name):
            d = self.p.dotted(s.f.module, x)
            if d and d.startswith(("os.environ", "os.getenv")) and not (isinstance(x, ast.Name) and x.id in sc.env):
                s.process.append((x, f"depends on {d}"))

    def call(self, x, sc, s):
        d = self.dotted(x.func, sc, s)
        for k in x.keywords:
            if k.arg == "out":
                for y in k.value.elts if isinstance(k.value, ast.Tuple) else [k.value]:
                    self.mutate(y, x, "writes its result into", sc, s)
        if d in PROCESS:
            s.process.append((x, f"changes process-wide state through {d}"))
        elif d and (d.startswith(RANDOM)) and not d.startswith("numpy.random.default_rng"):
            s.process.append((x, f"depends on {d}"))
        if d in FIRST_ARG_MUTATORS and x.args:
            self.mutate(x.args[0], x, f"changes ({d})", sc, s)
        if isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
            r = self.p.dotted(s.f.module, x.func.value) if not self.is_local(x.func.value, sc) else None
            module = r is not None and (r.split(".")[0] in ("jax", "numpy", "scipy", "itertools", "functools", "onp", "jnp"))
            if not module:
                self.mutate(x.func.value, x, f"calls {x.func.attr} on", sc, s)
        # calls to functions of the package
        q = self.resolve(x.func, sc, s)
        if q is not None:
            callee = q
            m = self.arguments(callee, x, sc, s)
            if m is not None:
                s.calls.append((callee.qual if not isinstance(callee, str) else callee, m, x))

    def is_local(self, e, sc):
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            e = e.func if isinstance(e, ast.Call) else e.value
        if not isinstance(e, ast.Name):
            return True
        while sc is not None:
            if e.id in sc.env:
                return True
            sc = sc.outer
        return False

    def dotted(self, e, sc, s):
        if self.is_local(e, sc):
            return None
        return self.p.dotted(s.f.module, e)

    def resolve(self, e, sc, s):
        """The package function a call expression names, as Func (or qual of a nested function)."""
        if isinstance(e, ast.Name):
            k = sc
            while k is not None:
                for o in k.env.get(e.id, ()):
                    if isinstance(o, tuple) and o[0] == "func":
                        return self.sums[o[1]].f if o[1] in self.sums else None
                if e.id in k.env:
                    return None
                k = k.outer
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and s.f.cls is not None:
            return self.p.find_method(s.f.cls, e.attr)
        if isinstance(e, (ast.Name, ast.Attribute)):
            d = self.dotted(e, sc, s)
            if d:
                try:
                    r = self.p.resolve_dotted(d)
                except Exception:
                    r = None
                if r and r[0] == "func":
                    return self.p.funcs.get(r[1])
                head, _, name = d.rpartition(".")
                if head:
                    try:
                        r = self.p.resolve_dotted(head)
                    except Exception:
                        r = None
                    if r and r[0] == "class":
                        return self.p.find_method(self.p.classes[r[1]], name)
            if isinstance(e, ast.Attribute) and d is None:
                # a method of some object: the only package method of that name
                ms = [f for q, f in self.p.funcs.items() if f.name == e.attr and f.cls is not None and f.module.name.split(".")[0] == self.prefix]
                if len(ms) == 1 and e.attr not in MUTATORS and e.attr not in ALIAS_METHODS:
                    return ms[0]
        return None

    def arguments(self, f, x, sc, s):
        a = f.node.args
        names = [y.arg for y in a.posonlyargs + a.args]
        out = {}
        pos = list(x.args)
        if f.cls is not None and f.kind in ("method", "property", "class") and isinstance(x.func, ast.Attribute):
            via_class = not self.is_local(x.func.value, sc) and f.kind == "method"
            if not via_class and names:
                out[names[0]] = self.origin(x.func.value, sc)
                names = names[1:]
        for n, v in zip(names, pos):
            if isinstance(v, ast.Starred):
                break
            out[n] = self.origin(v, sc)
        for k in x.keywords:
            if k.arg:
                out[k.arg] = self.origin(k.value, sc)
        return out

    def lookup(self, n, sc, which):
        k, free = sc, False
        while k is not None:
            m = getattr(k, which)
            if n in m:
                return m[n] if not free else m[n]
            k, free = k.outer, True
        return None

    def origin(self, e, sc):
        if isinstance(e, ast.Name):
            r = self.lookup(e.id, sc, "env")
            if r is not None:
                if sc.env.get(e.id) is None:
                    # a name of an enclosing function: parameters of that function
                    return {("outer",) + o if isinstance(o, tuple) and o[0] == "param" else o for o in r}
                return r
            b = sc.f.module.names.get(e.id)
            if b is not None and b[0] == "var":
                return {("global", e.id)}
            if b is not None and b[0] in ("class", "func"):
                return {("global", e.id)}
            if b is not None and b[0] == "import":
                return {("global", e.id)}
            return {UNKNOWN}
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            d = None
            if isinstance(e, ast.Attribute):
                d = self.p.dotted(sc.f.module, e) if not self.is_local(e, sc) else None
                if d and d.split(".")[0] in ("jax", "numpy", "scipy", "jaxlie"):
                    return {UNKNOWN}
            if isinstance(e, ast.Subscript):
                el = self.elements(e.value, sc)
                return el
            if isinstance(e, ast.Attribute) and e.attr == "at":
                return {FRESH}
            return self.origin(e.value, sc)
        if isinstance(e, ast.IfExp):
            return self.origin(e.body, sc) | self.origin(e.orelse, sc)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.origin(x, sc) for x in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.origin(e.value, sc)
        if isinstance(e, ast.Starred):
            return self.origin(e.value, sc)
        if isinstance(e, ast.Call):
            d = self.p.dotted(sc.f.module, e.func) if not self.is_local(e.func, sc) else None
            if d in ALIAS_CALLS and e.args:
                k = 1 if d == "typing.cast" else 0
                return self.origin(e.args[k], sc) if len(e.args) > k else {UNKNOWN}
            if isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
                return {("global", ast.unparse(e))}
            if d == "next" and e.args:
                return self.elements(e.args[0], sc)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ALIAS_METHODS and (d is None or d.split(".")[0] not in ("jax", "numpy", "scipy", "functools", "itertools")):
                return self.elements(e.func.value, sc)
            return {FRESH}
        return {FRESH}

    def elements(self, e, sc):
        """Origins of the things a container holds."""
        if isinstance(e, ast.Name):
            r = self.lookup(e.id, sc, "elem")
            return r if r is not None else self.origin(e, sc)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return set().union({FRESH}, *[self.origin(x, sc) for x in e.elts])
        if isinstance(e, ast.Dict):
            return set().union({FRESH}, *[self.origin(x, sc) for x in e.values])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.origin(e.elt, sc)
        if isinstance(e, ast.DictComp):
            return self.origin(e.value, sc)
        if isinstance(e, ast.Call):
            d = self.p.dotted(sc.f.module, e.func) if not self.is_local(e.func, sc) else None
            n = e.func.id if isinstance(e.func, ast.Name) and d is None else d
            if (d in ELEMENT_CALLS or n in ELEMENT_CALLS) and e.args:
                return set().union(*[self.elements(x, sc) for x in e.args])
            if isinstance(e.func, ast.Attribute) and e.func.attr in ELEMENT_METHODS:
                return self.elements(e.func.value, sc)
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            return self.origin(e, sc)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.elements(e.left, sc) | self.elements(e.right, sc)
        return self.origin(e, sc)

    # -- whole program

    def public(self, f):
        """Operations that users of the package call; helpers added to it count through the operations that call them."""
        if f.outer is not None:
            return False
        if f.module.name.split(".")[0] == "jaxfg":
            if f.cls is None:
                if f.name not in interface.functions():
                    return False
            elif not any(k.name in interface.classes() and f.cls in self.p.mro(k) for k in self.p.classes.values()):
                return False
        return not f.name.startswith("_") or (f.name.startswith("__") and f.name.endswith("__"))

    def close(self):
        """Propagate mutated parameters to callers; returns (mutated params, global mutations, process effects)."""
        mut = {}  # qual -> {param: [Mutation, ...]}, one for each place
        glob = []

        def note(q, p, m):
            ms = mut.setdefault(q, {}).setdefault(p, [])
            if any(k is m or (k.where, k.what) == (m.where, m.what) for k in ms):
                return False
            ms.append(m)
            return True

        for q, s in self.sums.items():
            for m in s.mutations:
                for o in m.origins:
                    if o[0] == "param":
                        note(q, o[1], m)
                    elif o[0] == "outer":
                        note(q.rsplit(".<locals>.", 1)[0], o[2], m)
                    elif o[0] == "global":
                        glob.append((m, o[1]))
        changed = True
        while changed:
            changed = False
            for q, s in self.sums.items():
                for callee, args, node in s.calls:
                    hit = [(p, m) for k in [callee] + self.overrides(callee) for p, ms in mut.get(k, {}).items() for m in ms]
                    for p, m in hit:
                        for o in args.get(p, ()):
                            if isinstance(o, tuple) and o[0] == "param":
                                changed |= note(q, o[1], m)
                            elif isinstance(o, tuple) and o[0] == "outer":
                                changed |= note(q.rsplit(".<locals>.", 1)[0], o[2], m)
                            elif isinstance(o, tuple) and o[0] == "global":
                                if (m, o[1]) not in glob:
                                    glob.append((m, o[1]))
                                    changed = True
        return mut, glob

    def overrides(self, q):
        f = self.p.funcs.get(q)
        if f is None or f.cls is None:
            return []
        out = []
        for c in self.p.classes.values():
            if c is not f.cls and f.name in c.methods:
                try:
                    if f.cls in self.p.mro(c):
                        out.append(c.methods[f.name].qual)
                except Exception:
                    pass
        return out
