"""Abstract interpretation of repository functions into value-graph normal forms."""

import ast

from . import interface
from . import terms as tm
from .program import AnalysisError, Class, Func, Module, Program
from .terms import (EMPTYDICT, FALSE, NONE, ONE, TRUE, ZERO, T, add, and_, close, const, div, eq, fresh, index, int_of,
                    is_num, le, length, list_items, lt, map_list, mk, mklist, mul, neg, not_, num, open_, or_, power, raw,
                    select, sub, subst)

CURRENT = [None]
TERM_TYPE = {}

MAX_DEPTH = 60


class Frame:
    __slots__ = ("module", "env", "parent", "func", "cls", "selfname", "declared")

    def __init__(self, module, env=None, parent=None, func=None, cls=None):
        self.module, self.env, self.parent, self.func, self.cls = module, env or {}, parent, func, cls
        self.declared = {}

    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.env:
                return f.env[name]
            f = f.parent
        return None


class Closure:
    __slots__ = ("node", "frame", "name")

    def __init__(self, node, frame, name):
        self.node, self.frame, self.name = node, frame, name


class Outcome:
    """How a statement list ends: leaf kind norm/ret/raise/cont/break or a conditional of outcomes."""

    __slots__ = ("kind", "val", "c", "o1", "o2")

    def __init__(self, kind, val=None, c=None, o1=None, o2=None):
        self.kind, self.val, self.c, self.o1, self.o2 = kind, val, c, o1, o2

    def has(self, kind):
        if self.kind == "if":
            return self.o1.has(kind) or self.o2.has(kind)
        return self.kind == kind

    def goes_on(self):
        """Condition under which control reaches the next statement."""
        if self.kind == "if":
            return or_(and_(self.c, self.o1.goes_on()), and_(not_(self.c), self.o2.goes_on()))
        return TRUE if self.kind == "norm" else FALSE

    def then(self, rest):
        if self.kind == "if":
            return Outcome("if", None, self.c, self.o1.then(rest), self.o2.then(rest))
        return rest if self.kind == "norm" else self

    def value(self):
        """Returned value, ignoring raising leaves; falling off the end returns None."""
        if self.kind == "ret":
            return self.val
        if self.kind == "raise":
            return None
        if self.kind == "if":
            a, b = self.o1.value(), self.o2.value()
            if a is None:
                return b
            if b is None:
                return a
            return sel(self.c, a, b)
        return NONE


NORM = Outcome("norm")


def sel(c, a, b):
    if a is b:
        return a
    it = CURRENT[0]
    if it is not None and (a.op == "ref" or b.op == "ref"):
        a, b = it.force(a), it.force(b)
    return select(c, a, b)


class Effect:
    __slots__ = ("kind", "what", "pc", "loc", "func", "extra")

    def __init__(self, kind, what, pc, loc, func, extra=None):
        self.kind, self.what, self.pc, self.loc, self.func, self.extra = kind, what, pc, loc, func, extra

    def __repr__(self):
        return f"<{self.kind} {self.what} @ {self.loc}>"


class Interp:
    def __init__(self, program, keep=(), exact=()):
        self.p = program
        self.keep = set(keep)
        self.heap = {}
        self.heap_kind = {}
        self.ext_objs = {}
        self.homog = set()
        self.len_facts = {}
        self.vmap_size = {}
        self.leaf_reads = []  # (place, read off a plain name, frame) of the attributes taken of leaves
        self.fits = []  # (length, elements needed, view) of the slices viewed as rows
        self.int_arrays = set()
        self.param_syms = set()
        self.carried = {}
        self.ndims = {}
        self.closures = {}
        self.next_id = 0
        self.asserts = []
        self.raises = []
        self.effects = []
        self.gave_up = []
        self.branches = []  # conditions tested by Python itself
        self.pc = []
        self.stack = []
        self.loc = {}
        self.cur_loc = ("?", 0)
        self.visited = {}
        self.memo_calls = []  # (function, arguments, result) of the calls of memoised functions
        self.calls = 0
        self.notes = []
        self.by_class_open = set()
        self.insts = {}  # object with attributes that change -> (its attributes, the loops it was made in)
        self.loops = []
        self.iterated = []
        self.loop_depth = 0
        self.activate()
        from . import lib

        self.lib = lib

    def activate(self):
        CURRENT[0] = self
        tm.LEN_HOOK[0] = self.len_hook
        tm.SCALAR_HOOK[0] = self.scalar_hook
        tm.NONNEG_HOOK[0] = self.nonneg_hook
        tm.NDIM_HOOK[0] = self.ndim_hook
        tm.INDEX_HOOK[0] = self.index_hook
        tm.ROW_HOOK[0] = self.row_hook

    # ------------------------------------------------------------------------------------------------------------
    # types

    def ann_type(self, m, node, cls=None):
        p = self.p
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if node.value is None:
                return ("none",)
            if isinstance(node.value, str):
                try:
                    return self.ann_type(m, ast.parse(node.value, mode="eval").body, cls)
                except SyntaxError:
                    return None
            return None
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = p.resolve_node(m, node)
            if r is None:
                raw_ = p.dotted_raw(node)
                if raw_ in ("int", "float"):
                    return ("scal",)
                if raw_ == "bool":
                    return ("bool",)
                if raw_ in ("tuple", "list"):
                    return ("list", None)
                if raw_ == "dict":
                    return ("dict", None, None)
                if raw_ == "str":
                    return ("str",)
                # a name that the module no longer imports, from the recorded interface
                last = (raw_ or "").split(".")[-1]
                if last in ("ndarray", "Array", "LocalVariableValue"):
                    return ("arr",)
                if last == "Scalar":
                    return ("scal",)
                named = [q for q, k in p.classes.items() if k.name == last]
                if len(named) == 1:
                    return ("cls", named[0], False)
                return None
            if r[0] == "class":
                return ("cls", r[1], False)
            if r[0] == "ext":
                d = r[1]
                if d in ("jax.numpy.ndarray", "numpy.ndarray", "jax.Array", "jax.numpy.array", "jaxlib.xla_extension.ArrayImpl"):
                    return ("arr",)
                return ("ext", d)
            if r[0] == "var":
                mod, name = r[1]
                mm = p.modules[mod]
                b = mm.names.get(name)
                v = b[1] if b and b[0] == "var" else None
                if name in ("Array",):
                    return ("arr",)
                if name in ("Scalar",):
                    return ("scal",)
                if name in ("LocalVariableValue",):
                    return ("arr",)
                if name in ("VariableValue", "Pytree"):
                    return None
                if isinstance(v, ast.Call):
                    d = p.dotted(mm, v.func)
                    if d == "typing.TypeVar":
                        for kw in v.keywords:
                            if kw.arg == "bound":
                                return self.ann_type(mm, kw.value)
                        return None
                if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)):
                    return self.ann_type(mm, v)
            return None
        if isinstance(node, ast.Subscript):
            d = p.dotted(m, node.value) or p.dotted_raw(node.value) or ""
            last = d.split(".")[-1]
            sl = node.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if last in ("Static", "ClassVar", "Final", "Annotated"):
                return self.ann_type(m, elts[0], cls)
            if last in ("Tuple", "tuple"):
                if len(elts) == 2 and isinstance(elts[1], ast.Constant) and elts[1].value is Ellipsis:
                    return ("list", self.ann_type(m, elts[0], cls))
                return ("tup", tuple(self.ann_type(m, e, cls) for e in elts))
            if last in ("List", "list", "Sequence", "Iterable", "Collection", "Iterator", "Set", "FrozenSet", "Generator", "KeysView", "ValuesView"):
                t = self.ann_type(m, elts[0], cls)
                return ("iter", t) if last in ("Iterable", "Iterator", "Generator") else ("list", t)
            if last in ("Dict", "dict", "Mapping", "DefaultDict", "defaultdict", "MutableMapping", "OrderedDict"):
                return ("dict", self.ann_type(m, elts[0], cls), self.ann_type(m, elts[1], cls) if len(elts) > 1 else None)
            if last in ("Type", "type"):
                return ("type", self.ann_type(m, elts[0], cls))
            if last == "Optional":
                t = self.ann_type(m, elts[0], cls)
                return ("opt", t)
            if last == "Union":
                ts = [self.ann_type(m, e, cls) for e in elts]
                ts2 = [t for t in ts if t != ("none",)]
                if len(ts2) == 1 and len(ts) == 2:
                    return ("opt", ts2[0])
                if ts2 and all(t in (("arr",), ("scal",)) for t in ts2):
                    return ("scal",) if all(t == ("scal",) for t in ts2) else ("arr",)
                return None
            r = p.resolve_node(m, node.value)
            if r and r[0] == "class":
                return ("cls", r[1], False)
            return None
        if isinstance(node, ast.BinOp):
            return None
        return None

    def ty(self, t):
        r = TERM_TYPE.get(t)
        if r is not None:
            return r
        return self._ty(t)

    def _ty(self, t):
        o = t.op
        if o == "sym":
            return tm.SYM_TYPE.get(t)
        if o == "obj":
            return ("cls", t.a[0], True)
        if o == "ref":
            k = self.heap_kind.get(t.a[0])
            if k == "dict":
                return ("dict", None, None)
            if k == "obj":
                return self.ty(self.heap[t.a[0]])
            return ("list", None)
        if o == "new":
            if t.a[0].op == "cls":
                return ("cls", t.a[0].a[0], True)
            x = self.ty(t.a[0])
            return x[1] if x and x[0] == "type" else None
        if o == "attr":
            tx = self.ty(t.a[0])
            if tx and tx[0] == "opt":
                tx = tx[1]
            if tx and tx[0] == "cls":
                f = self.p.find_field(self.p.classes[tx[1]], t.a[1])
                if f is not None:
                    return self.ann_type(f.cls.module, f.annotation)
            return None
        if o == "index":
            tx = self.ty(t.a[0])
            if tx is None:
                return None
            if tx[0] in ("list", "iter"):
                return tx[1]
            if tx[0] == "tup":
                k = int_of(t.a[1])
                if k is not None and -len(tx[1]) <= k < len(tx[1]):
                    return tx[1][k]
                if len(set(tx[1])) == 1:
                    return tx[1][0]
            if tx[0] == "cls" and self.p.is_namedtuple(self.p.classes[tx[1]]):
                fs = self.p.all_fields(self.p.classes[tx[1]])
                k = int_of(t.a[1])
                if k is not None and 0 <= k < len(fs):
                    return self.ann_type(fs[k].cls.module, fs[k].annotation)
            return None
        if o == "get":
            tx = self.ty(t.a[0])
            if tx and tx[0] == "dict" and tx[2] is not None:
                return tx[2]
            if t.a[0].op == "dict":
                v = self._dict_app_value(t.a[0])
                if v is not None:
                    return ("list", self.ty(v))
            return None
        if o == "keys":
            tx = self.ty(t.a[0])
            if tx and tx[0] == "dict":
                return ("list", tx[1])
            return ("list", None)
        if o in ("uniq", "rev", "sorted"):
            return self.ty(t.a[0])
        if o == "slice":
            return self.ty(t.a[0])
        if o == "list":
            if len(t.a[0]) >= 1:
                s0 = t.a[0][0]
                e = self._seg_type(s0)
                return ("list", e)
            return ("list", None)
        if o == "spread":
            return self.ty(t.a[0])
        if o == "dict":
            return ("dict", None, None)
        if o == "select":
            return self.ty(t.a[1]) or self.ty(t.a[2])
        if o == "api":
            f = self.p.funcs.get(self.api_func(t.a[0]))
            if f is not None:
                returns = f.node.returns or interface.result(f)
                r = self.ann_type(f.module, returns)
                if isinstance(returns, ast.Name):
                    # a type variable naming the receiver's own type
                    b = f.module.names.get(returns.id)
                    if b and b[0] == "var" and f.node.args.args:
                        a0 = f.node.args.args[0].annotation or interface.parameter(f, 0, f.node.args.args[0].arg)
                        if isinstance(a0, ast.Name) and a0.id == returns.id:
                            return self.ty(t.a[1][0]) or r
                return r
            return None
        if o == "tree_map":
            return self.ty(index(t.a[0], ZERO))
        if o == "type":
            return ("type", self.ty(t.a[0]))
        if o == "cls":
            return ("type", ("cls", t.a[0], True))
        if o in ("row", "replace", "gmul", "ginv"):
            return self.ty(t.a[0])
        if o == "vmap":
            return self.ty(t.a[0].a[1])
        if o == "matmul":
            return self.ty(t.a[0][0]) if all(self.is_group(x) for x in t.a[0]) else ("arr",)
        if o == "call" and t.a[0].op == "ext":
            if t.a[0].a[0] == "typing.get_args":
                return ("list", None)
            if t.a[0].a[0] == "typing.get_type_hints":
                return ("dict", None, None)
        if o in ("while", "fold"):
            return self.ty(t.a[0] if o == "while" else t.a[1])
        if o in ("poly", "num", "sum", "spmv", "concat", "upd", "zeros", "ravel", "reshape", "psum", "abs", "arr", "len"):
            return ("arr",) if o in ("concat", "upd", "zeros", "ravel", "reshape", "arr", "spmv") else ("scal",) if o in ("num", "psum", "len") else None
        if o == "lastof":
            return self.ty(t.a[2].a[1]) if t.a[2].op == "lam" else None
        if o == "global":
            return None
        if o == "gexp" or o == "gident":
            x = self.ty(t.a[0])
            if x and x[0] == "type":
                return x[1]
            if t.a[0].op == "ext":
                return ("ext", t.a[0].a[0])
        return None

    def _dict_app_value(self, d):
        for e in d.a[1]:
            if e.op == "app":
                return e.a[1]
            if e.op == "for":
                b = e.a[1].a[1]
                if b.op == "dict":
                    v = self._dict_app_value(b)
                    if v is not None:
                        return v
        return None

    def _seg_type(self, s):
        if s.op == "one":
            return self.ty(s.a[0])
        if s.op == "for":
            b = s.a[1].a[1]
            if b.op == "list" and b.a[0]:
                return self._seg_type(b.a[0][0])
            return None
        if s.op == "spread":
            t = self.ty(s.a[0])
            return t[1] if t and t[0] in ("list", "iter") else None
        return None

    def cls_of(self, t):
        """Repository class bounding the instance denoted by t, with exactness."""
        x = self.ty(t)
        if x and x[0] == "opt":
            x = x[1]
        if x and x[0] == "cls" and x[1] in self.p.classes:
            c = self.p.classes[x[1]]
            exact = x[2] or not self.p.subclasses.get(c.qual) and self.p.is_dataclass(c) and not self._open(c)
            return c, exact
        return None, False

    def _open(self, c):
        """Classes users are expected to subclass."""
        return any(b in ("abc.ABC",) for b in c.bases)

    def is_group(self, t):
        x = self.ty(t)
        if x and x[0] == "opt":
            x = x[1]
        return bool(x and x[0] == "ext" and x[1].startswith("jaxlie."))

    # ------------------------------------------------------------------------------------------------------------
    # hooks used by the term constructors

    def homogeneous(self, f):
        """Members of f are known to agree in variable types and noise model dimension."""
        if f in self.homog:
            return True
        return f.op == "get" and f.a[0].op == "dict" and bool(f.a[0].a[1]) and all(_ev_by_treedef(e) for e in f.a[0].a[1])

    def representative(self, t, field):
        """First member's field instead of an arbitrary member's, where all members of the group agree."""
        if t.op == "attr" and t.a[1] == field:
            m = t.a[0]
            if m.op == "replace" and all(k != field for k, _ in m.a[1]):
                m = m.a[0]
            if m.op == "index" and m.a[1] is not ZERO and self.homogeneous(m.a[0]):
                return mk("attr", index(m.a[0], ZERO), field)
        return None

    def len_hook(self, t):
        if t in self.len_facts:
            return self.len_facts[t]
        r = self.representative(t, "variables")
        if r is not None:
            return length(r)
        if t.op == "vmap" and self.is_seq(t.a[0].a[1]):
            s = fresh("v")
            n = length(open_(t.a[0], s))
            if s not in n.fs:
                return n
        if t.op == "api" and t.a[0].endswith(".compute_residual_jacobians"):
            # one Jacobian block per variable of the factor
            return length(mk("attr", t.a[1][0], "variables"))
        if t.op == "jac":
            x = self.ty(t.a[1])
            if self.is_seq(t.a[1]):
                return length(t.a[1])
        if t.op == "tree_map":
            its = list_items(t.a[0])
            if its is not None and len(its) == 1 and self.is_seq_tree(its[0]):
                return length(its[0])
        if t.op == "attr" and t.a[1] == "variables" and t.a[0].op == "tree_map":
            return length(mk("attr", t.a[0], "variables"))
        # one index array per variable of the stacked factor (asserted by the constructor)
        if t.op == "attr" and t.a[1] == "value_indices":
            c, _ = self.cls_of(t.a[0])
            if c is not None and c.name == "FactorStack":
                return length(mk("attr", mk("attr", t.a[0], "factor"), "variables"))
        x = self.ty(t)
        if x and x[0] == "tup":
            return num(len(x[1]))
        if x and x[0] == "cls" and self.p.is_namedtuple(self.p.classes[x[1]]):
            return num(len(self.p.all_fields(self.p.classes[x[1]])))
        if t.op == "attr" and t.a[1] == "variables" and t.a[0].op == "row":
            return length(mk("attr", t.a[0].a[0], "variables"))
        return None

    def scalar_hook(self, t):
        if t.op == "attr" and t.a[1] in ("cost", "iterations"):
            c, _ = self.cls_of(t.a[0])
            if c is not None and any(isinstance(b, Class) and b.name == "NonlinearSolverState" for b in self.p.mro(c)):
                return True
        if t.op == "row":
            return False
        if t.op in ("eye", "zeros", "diag"):
            return False
        x = self.ty(t)
        return x == ("scal",)

    def nonneg_hook(self, t):
        if t.op == "attr" and t.a[1] in ("cost", "delta"):
            return True
        if t.op == "attr":
            # costs, radii, damping factors and counters carried by solver states
            c, _ = self.cls_of(t.a[0])
            if c is not None and any(isinstance(b, Class) and b.name == "NonlinearSolverState" for b in self.p.mro(c)):
                return self.ty(t) == ("scal",)
        if t.op == "index" and t.a[0].op == "api" and t.a[0].a[0].endswith(".compute_cost"):
            return int_of(t.a[1]) == 0
        return False

    def ndim_hook(self, t):
        if t in self.ndims:
            return self.ndims[t]
        if t.op == "attr":
            c, _ = self.cls_of(t.a[0])
            if c is not None:
                if t.a[1] in ("storage", "residual_vector", "sqrt_precision_diagonal") :
                    return 1
                if t.a[1] == "sqrt_precision_matrix":
                    return 2
        if t.op == "api" and t.a[0].split(".")[-1] in ("solve_subproblem", "compute_whitened_residual_vector"):
            return 1
        if t.op == "api" and t.a[0].split(".")[-1] == "whiten_residual_vector":
            return 1
        if t.op == "index" and t.a[0].op == "api" and t.a[0].a[0].endswith(".compute_cost"):
            return 0 if int_of(t.a[1]) == 0 else 1
        return None

    def index_hook(self, x, k):
        if x.op == "vmap" and self.is_seq(x.a[0].a[1]):
            s = fresh("v")
            return mk("vmap", close(s, index(open_(x.a[0], s), k)))
        if x.op == "row" and self.is_seq(x.a[0]):
            return mk("row", index(x.a[0], k), x.a[1])
        tx = self.ty(x)
        if tx and tx[0] == "tup":
            i = int_of(k)
            if i is not None and i < 0:
                return index(x, num(len(tx[1]) + i))
        # components of a named tuple by position
        if tx and tx[0] == "cls" and self.p.is_namedtuple(self.p.classes[tx[1]]):
            fs = self.p.all_fields(self.p.classes[tx[1]])
            i = int_of(k)
            if i is not None and -len(fs) <= i < len(fs):
                return mk("attr", x, fs[i].name)
        return None

    def row_hook(self, x, i):
        c = self.p.classes[x.a[0]]
        out = []
        for f, v in x.a[1]:
            fd = self.p.find_field(c, f)
            out.append((f, v if fd is not None and fd.static else mk("row", v, i)))
        return mk("obj", x.a[0], tuple(out))

    # ------------------------------------------------------------------------------------------------------------
    # heap

    def alloc(self, kind, state):
        i = self.next_id
        self.next_id += 1
        self.heap[i] = state
        self.heap_kind[i] = kind
        return raw("ref", i)

    def deref(self, t):
        while t.op == "ref":
            t = self.heap[t.a[0]]
        return t

    def force(self, t):
        """Replace references by the current contents of what they refer to."""
        for _ in range(20):
            refs = [s for s in t.fs if s.op == "ref"]
            if not refs:
                return t
            t = subst(t, {r: self.heap[r.a[0]] for r in refs})
        return t

    def snapshot(self, frame):
        frames = []
        f = frame
        while f is not None:
            frames.append((f, dict(f.env)))
            f = f.parent
        frames.extend((g, dict(g.env)) for g, _ in self.insts.values())
        return (frames, dict(self.heap), list(self.pc))

    def restore(self, st):
        for f, env in st[0]:
            f.env = dict(env)
        self.heap = dict(st[1])
        self.keep_ext(self.heap)
        self.pc = list(st[2])

    def keep_ext(self, heap):
        """Containers owned by arguments exist on every path, also when first touched on one of them."""
        for g, i in self.ext_objs.items():
            if i not in heap:
                heap[i] = raw("dict", g, ()) if self.heap_kind[i] == "dict" else raw("list", (raw("spread", g),))

    def merge(self, c, st1, st2, frame):
        self.keep_ext(st1[1])
        self.keep_ext(st2[1])
        for (f, e1), (_, e2) in zip(st1[0], st2[0]):
            env = {}
            for k in list(e1) + [k for k in e2 if k not in e1]:
                if k in e1 and k in e2:
                    env[k] = e1[k] if e1[k] is e2[k] else self._merge_val(c, e1[k], e2[k], st1[1], st2[1])
                else:
                    env[k] = e1.get(k, e2.get(k))
            f.env = env
        heap = {}
        for k in set(st1[1]) | set(st2[1]):
            if k in st1[1] and k in st2[1]:
                heap[k] = self._merge_state(c, st1[1][k], st2[1][k])
            else:
                heap[k] = st1[1].get(k, st2[1].get(k))
        self.heap = heap
        self.pc = list(st1[2][: min(len(st1[2]), len(st2[2]))])

    def _merge_val(self, c, a, b, h1, h2):
        if a.op == "ref" or b.op == "ref":
            # different containers on the two paths: take their contents
            def f(t, h):
                for _ in range(20):
                    refs = [s for s in t.fs if s.op == "ref"]
                    if not refs:
                        return t
                    t = subst(t, {r: h[r.a[0]] for r in refs if r.a[0] in h})
                return t

            a, b = f(a, h1), f(b, h2)
            r = select(c, a, b)
            kind = "dict" if a.op == "dict" else "list"
            return self.alloc_in([h1, h2], kind, r)
        return select(c, a, b)

    def alloc_in(self, heaps, kind, state):
        i = self.next_id
        self.next_id += 1
        for h in heaps:
            h[i] = state
        self.heap_kind[i] = kind
        return raw("ref", i)

    def _merge_state(self, c, a, b):
        if a is b:
            return a
        for op in ("list", "dict"):
            if a.op == op and b.op == op:
                sa, sb = (a.a[0], b.a[0]) if op == "list" else (a.a[1], b.a[1])
                if op == "dict" and a.a[0] is not b.a[0]:
                    break
                k = 0
                while k < len(sa) and k < len(sb) and sa[k] is sb[k]:
                    k += 1
                if op == "list":
                    return mk("list", sa[:k] + (mk("if", c, mk("list", sa[k:]), mk("list", sb[k:])),))
                return mk("dict", a.a[0], sa[:k] + (mk("if", c, mk("dict", raw("nil"), sa[k:]), mk("dict", raw("nil"), sb[k:])),))
        if a.op == "setof" and b.op == "setof":
            p, q = (x.a[0] if x.a[0].op == "list" else raw("list", (raw("spread", x.a[0]),)) for x in (a, b))
            return mk("setof", self._merge_state(c, p, q))
        if a.op == "family" and b.op == "family" and a.a[0] is b.a[0]:
            return raw("family", a.a[0], self._merge_state(c, a.a[1], b.a[1]))
        return select(c, a, b)

    # ------------------------------------------------------------------------------------------------------------
    # entry points

    def opaque(self, why, *parts):
        return raw("opaque", why, next(tm._uid), tuple(parts))

    def where(self, node):
        return (self.cur_module.rel if getattr(self, "cur_module", None) else "?", getattr(node, "lineno", 0))

    def run_function(self, f, args):
        """Analyse a function with the given parameter terms; returns its (forced) result term."""
        self.activate()
        self.param_syms.update(x for v in args.values() if isinstance(v, T) for x in v.fs if x.op == "sym")
        fr = Frame(f.module, dict(args), None, f, f.cls)
        v = self.exec_function(f, fr)
        return self.force(v)

    def exec_function(self, f, fr):
        self.visited[f.qual] = self.visited.get(f.qual, 0) + 1
        if len(self.stack) > MAX_DEPTH:
            return self.opaque("depth")
        saved = getattr(self, "cur_module", None)
        self.cur_module = f.module
        self.stack.append(f.qual)
        try:
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node))
            if gen:
                acc = self.alloc("list", mk("list", ()))
                fr.env["$yield"] = acc
                self.exec_block(f.node.body, fr)
                return acc
            o = self.exec_block(f.node.body, fr)
            v = o.value()
            return tm.NEVER if v is None else v
        finally:
            self.stack.pop()
            self.cur_module = saved

    def param_types(self, f):
        a = f.node.args
        out = {}
        for k, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            out[x.arg] = self.ann_type(f.module, x.annotation or interface.parameter(f, k, x.arg), f.cls)
        if f.kind in ("method", "property") and a.args:
            out[a.args[0].arg] = ("cls", f.cls.qual, False)
        if f.kind == "class" and a.args:
            out[a.args[0].arg] = ("type", ("cls", f.cls.qual, False))
        return out

    def symbols_for(self, f, **given):
        out = {}
        a = f.node.args
        tys = self.param_types(f)
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg in given:
                out[x.arg] = given[x.arg]
            else:
                out[x.arg] = fresh(x.arg, tys.get(x.arg))
        if a.vararg:
            out[a.vararg.arg] = given.get(a.vararg.arg) or fresh(a.vararg.arg, ("list", self.ann_type(f.module, a.vararg.annotation)))
        if a.kwarg:
            out[a.kwarg.arg] = given.get(a.kwarg.arg) or fresh(a.kwarg.arg, ("dict", None, None))
        return out

    # ------------------------------------------------------------------------------------------------------------
    # statements

    def exec_block(self, stmts, fr):
        stmts = list(stmts)
        for k, s in enumerate(stmts):
            self.cur_loc = self.where(s)
            if isinstance(s, ast.If):
                c = self.truth(self.ev(s.test, fr))
                if c is TRUE or c is FALSE:
                    return self._seq(self.exec_block(list(s.body if c is TRUE else s.orelse) + stmts[k + 1 :], fr))
                nonplain = has_jump(s.body) or has_jump(s.orelse)
                st0 = self.snapshot(fr)
                rest = stmts[k + 1 :] if nonplain else []
                self.pc.append(c)
                na1 = len(self.asserts)
                o1 = self.exec_block(list(s.body) + rest, fr)
                st1 = self.snapshot(fr)
                self.restore(st0)
                self.pc.append(not_(c))
                o2 = self.exec_block(list(s.orelse) + rest, fr)
                st2 = self.snapshot(fr)
                st1 = (st1[0], st1[1], st0[2])
                st2 = (st2[0], st2[1], st0[2])
                if o1.kind == "raise":
                    self.restore(st2)
                    if nonplain:
                        self.pc = list(st0[2])
                        return o2
                    self.pc = st0[2] + [not_(c)]
                    continue
                if o2.kind == "raise":
                    self.restore(st1)
                    if nonplain:
                        self.pc = list(st0[2])
                        return o1
                    continue
                self.merge(c, st1, st2, fr)
                self.pc = list(st0[2])
                if nonplain:
                    if o1.kind == "norm" and o2.kind == "norm":
                        return NORM
                    return Outcome("if", None, c, o1, o2)
                continue
            o = self.exec_stmt(s, fr)
            if o is not None and o.kind == "if" and o.has("norm") and stmts[k + 1 :]:
                # some paths end here, the others go on
                pc = list(self.pc)
                self.pc.append(o.goes_on())
                rest = self.exec_block(stmts[k + 1 :], fr)
                self.pc = pc
                return o.then(rest)
            if o is not None and o.kind != "norm":
                return o
        return NORM

    def _seq(self, o):
        return o

    def exec_stmt(self, s, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.havoc(s, fr, "statement " + type(s).__name__)
            return NORM
        return m(s, fr) or NORM

    def havoc(self, s, fr, why):
        for n in assigned_names([s]):
            fr.env[n] = self.opaque(why)
        for g, _ in self.insts.values():
            g.env = {k: self.opaque(why) for k in g.env}

    def x_Pass(self, s, fr):
        return NORM

    def x_Continue(self, s, fr):
        return Outcome("cont")

    def x_Import(self, s, fr):
        for al in s.names:
            r = self.p.resolve_dotted(al.name if al.asname else al.name.split(".")[0])
            fr.env[al.asname or al.name.split(".")[0]] = self.from_resolved(r)

    def x_ImportFrom(self, s, fr):
        m = fr.module
        if s.level:
            parts = m.package.split(".")
            base = ".".join(parts[: len(parts) - (s.level - 1)])
            mod = base + ("." + s.module if s.module else "")
        else:
            mod = s.module
        for al in s.names:
            fr.env[al.asname or al.name] = self.from_resolved(self.p.resolve_dotted(mod + "." + al.name))

    def x_Global(self, s, fr):
        self.effects.append(Effect("global-decl", ",".join(s.names), and_(*self.pc), self.where(s), self.stack[-1] if self.stack else "?"))

    x_Nonlocal = x_Global

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, fr)
                self.mutate(base, "del", s)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return NORM
        if isinstance(s.value, ast.Yield):
            v = self.eval(s.value.value, fr) if s.value.value else NONE
            acc = fr.lookup("$yield")
            st = self.deref(acc)
            self.heap[acc.a[0]] = mk("list", st.a[0] + (raw("one", v),))
            return NORM
        if isinstance(s.value, ast.YieldFrom):
            v = self.eval(s.value.value, fr)
            acc = fr.lookup("$yield")
            st = self.deref(acc)
            self.heap[acc.a[0]] = mk("list", st.a[0] + (mk("spread", self.seq(v)),))
            return NORM
        if self.eval(s.value, fr) is tm.NEVER:
            return Outcome("raise", "?")
        return NORM

    def x_Return(self, s, fr):
        v = self.eval(s.value, fr) if s.value is not None else NONE
        return Outcome("raise", "?") if v is tm.NEVER else Outcome("ret", v)

    def x_Raise(self, s, fr):
        what = "?"
        if s.exc is not None:
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            what = self.p.dotted_raw(n) or "?"
        self.raises.append((and_(*self.pc), what, self.where(s)))
        return Outcome("raise", what)

    def x_Assert(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        self.asserts.append((and_(*self.pc), c, self.where(s), self.stack[-1] if self.stack else "?"))
        if c is FALSE:
            self.raises.append((and_(*self.pc), "AssertionError", self.where(s)))
            return Outcome("raise", "AssertionError")
        return NORM

    def x_FunctionDef(self, s, fr):
        v = self.make_closure(s, fr, s.name)
        for d in reversed(s.decorator_list):
            name = self.p.dotted(fr.module, d.func if isinstance(d, ast.Call) else d)
            if name in ("jax.jit", "jax_dataclasses.jit", "functools.wraps", "overrides.overrides"):
                continue
            v = self.apply(self.eval(d, fr), [v], {}, d)
        fr.env[s.name] = v

    def x_ClassDef(self, s, fr):
        q = (self.stack[-1] if self.stack else fr.module.name) + ".<locals>." + s.name
        if q not in self.p.classes:
            c = self.p._add_class(fr.module, s, q)
            self.p._link(c)
        self.local_class_frame = getattr(self, "local_class_frame", {})
        self.local_class_frame[q] = fr
        fr.env[s.name] = raw("cls", q)

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            t = self.ann_type(fr.module, s.annotation)
            if t is not None:
                fr.declared[s.target.id] = t
        if s.value is not None:
            v = self.eval(s.value, fr)
            if isinstance(s.target, ast.Name) and s.target.id in fr.declared:
                self.declare(v, fr.declared[s.target.id])
            self.assign(s.target, v, fr)

    def declare(self, v, t):
        """A local annotation may add type information, never override what is known."""
        if v.op in ("call", "mcall", "opaque", "vmap", "tree_map", "index", "get", "attr") and self.ty(v) is None and t and t[0] in ("cls", "list", "tup", "dict"):
            TERM_TYPE.setdefault(v, t)

    def x_AugAssign(self, s, fr):
        load = ast.copy_location(to_load(s.target), s)
        cur = self.eval(load, fr)
        rhs = self.eval(s.value, fr)
        if cur.op == "ref" and isinstance(s.op, ast.Add) and self.heap_kind[cur.a[0]] == "list":
            self.list_extend(cur, rhs)
            return
        v = self.binop(s.op, self.force(cur), self.force(rhs))
        self.assign(s.target, v, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            # respect closures writing to enclosing frames only through nonlocal (not modelled)
            if t.id in fr.declared:
                self.declare(v, fr.declared[t.id])
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr)
            if base.op == "ref":
                kind = self.heap_kind[base.a[0]]
                if kind == "dict":
                    k = self.force(self.eval(t.slice, fr))
                    st = self.heap[base.a[0]]
                    if st.op != "dict":
                        st = raw("dict", st, ())
                    if base.a[0] in self.ext_objs.values():
                        self.effects.append(Effect("store", self._ext_name(base), and_(*self.pc), self.where(t), self.stack[-1] if self.stack else "?", (k, v, self._ext_term(base))))
                    self.heap[base.a[0]] = mk("dict", st.a[0], st.a[1] + (mk("set", k, v),))
                    return
                if kind == "list":
                    k = self.force(self.eval(t.slice, fr))
                    st = self.heap[base.a[0]]
                    items = list_items(st)
                    ki = int_of(k)
                    if items is not None and ki is not None and -len(items) <= ki < len(items):
                        items[ki] = v
                        self.heap[base.a[0]] = mklist(items)
                        return
                    self.heap[base.a[0]] = raw("listset", st, k, self.force(v))
                    return
            if base.op == "slot":
                self.mutate(base, "setitem", t)
                return
            if isinstance(t.value, ast.Name) and fr.lookup(t.value.id) is not None:
                idx = self.index_term(t.slice, fr)
                if self.is_param_term(base):
                    self.mutate(base, "setitem", t)
                new = mk("upd", base, (mk("st", "set", idx, self.lib.int_array(self, base, self.force(v))),))
                self.set_name(t.value.id, new, fr)
                return
            self.mutate(base, "setitem", t)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, fr)
            if base.op == "ref" and self.heap_kind[base.a[0]] == "obj":
                st = self.heap[base.a[0]]
                self.heap[base.a[0]] = self.replace_fields(st, {t.attr: v})
                return
            if base in self.insts:
                self.insts[base][0].env[t.attr] = v
                return
            self.effects.append(Effect("setattr", tm.pretty(base, 4) + "." + t.attr, and_(*self.pc), self.where(t), self.stack[-1] if self.stack else "?", (base, t.attr, v)))
            if isinstance(t.value, ast.Name):
                self.set_name(t.value.id, self.replace_fields(base, {t.attr: v}), fr)

    def set_name(self, name, v, fr):
        f = fr
        while f is not None:
            if name in f.env:
                f.env[name] = v
                return
            f = f.parent
        fr.env[name] = v

    def is_param_term(self, t):
        while True:
            while t.op in ("attr", "index", "get", "row"):
                t = t.a[0]
            if t not in self.carried:
                break
            t = self.carried[t]
        return t.op == "sym" and t in self.param_syms

    def mutate(self, base, how, node):
        self.effects.append(Effect("mutate", tm.pretty(base, 4) + " " + how, and_(*self.pc), self.where(node), self.stack[-1] if self.stack else "?", (base,)))

    def _ext_name(self, ref):
        for k, v in self.ext_objs.items():
            if v == ref.a[0]:
                return tm.pretty(k, 4)
        return "?"

    def _ext_term(self, ref):
        for k, v in self.ext_objs.items():
            if v == ref.a[0]:
                return k
        return raw("opaque", "table")

    def unpack(self, elts, v, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        v = self.deref(v) if v.op == "ref" else v
        if star:
            i = star[0]
            items = list_items(v) if v.op == "list" else None
            if items is not None:
                tail = len(elts) - i - 1
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(elts[i].value, self.alloc("list", mklist(items[i : len(items) - tail])), fr)
                for e, x in zip(elts[i + 1 :], items[len(items) - tail :]):
                    self.assign(e, x, fr)
                return
            for k, e in enumerate(elts):
                if k < i:
                    self.assign(e, index(v, num(k)), fr)
                elif k == i:
                    self.assign(e.value, mk("slice", v, num(i), sub(length(v), num(len(elts) - 1))), fr)
                else:
                    self.assign(e, index(v, num(k - len(elts))), fr)
            return
        if v.op == "shape":
            if self.pc is not None:
                self.asserts.append((and_(*self.pc), eq(length(v), num(len(elts))), self.cur_loc, self.stack[-1] if self.stack else "?"))
        for k, e in enumerate(elts):
            self.assign(e, index(v, num(k)), fr)

    def x_With(self, s, fr):
        opened = []
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            if v.op == "ctxmut":
                # a mutable copy of a pytree dataclass; frozen again on exit
                ref = self.alloc("obj", self.force(v.a[0]))
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, ref, fr)
                    opened.append((it.optional_vars, ref))
            elif it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        o = self.exec_block(s.body, fr)
        if o.kind == "norm":
            for target, ref in opened:
                if isinstance(target, ast.Name) and fr.lookup(target.id) is ref:
                    self.assign(target, self.force(ref), fr)
        return o

    def x_Try(self, s, fr):
        raising = all(isinstance(h.body[-1], ast.Raise) for h in s.handlers)
        if raising or not s.handlers:
            st_pc = list(self.pc)
            o = self.exec_block(list(s.body) + list(s.orelse), fr)
            for h in s.handlers:
                n = h.body[-1].exc
                what = "?"
                if n is not None:
                    what = self.p.dotted_raw(n.func if isinstance(n, ast.Call) else n) or "?"
                caught = self.p.dotted_raw(h.type) if h.type is not None else "BaseException"
                self.raises.append((and_(*self.pc, raw("raised", caught)), what, self.where(h)))
            if s.finalbody and o.kind == "norm":
                return self.exec_block(s.finalbody, fr)
            return o
        # try: x = d[k] except KeyError: x = other
        if len(s.handlers) == 1 and len(s.body) == 1 and self.p.dotted_raw(s.handlers[0].type or ast.Name("x")) == "KeyError":
            value = getattr(s.body[0], "value", None) or s.body[0]
            subs = [n for n in ast.walk(value) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load)]
            if len(subs) == 1:
                d = self.ev(subs[0].value, fr)
                k = self.ev(subs[0].slice, fr)
                c = mk("in", k, d)
                return self.exec_cond(c, list(s.body) + list(s.orelse), list(s.handlers[0].body), fr)
        self.havoc(s, fr, "try")
        if has_jump([s]):
            self.gave_up.append(self.where(s))
            return Outcome("ret", self.opaque("try"))
        return NORM

    def exec_cond(self, c, body, orelse, fr):
        st0 = self.snapshot(fr)
        self.pc.append(c)
        o1 = self.exec_block(body, fr)
        st1 = self.snapshot(fr)
        self.restore(st0)
        self.pc.append(not_(c))
        o2 = self.exec_block(orelse, fr)
        st2 = self.snapshot(fr)
        if o1.kind == "raise" or o2.kind == "raise":
            on = st2 if o1.kind == "raise" else st1
            self.restore((on[0], on[1], st0[2]))
            return o2 if o1.kind == "raise" else o1
        self.merge(c, st1, st2, fr)
        self.pc = list(st0[2])
        if o1.kind == "norm" and o2.kind == "norm":
            return NORM
        return Outcome("if", None, c, o1, o2)

    # -- loops

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        if has_break(s.body):
            self.first_turn(it, s, fr)
            self.havoc(s, fr, "loop with break/return")
            self.heap_havoc(s, fr)
            if has_return(s.body):
                self.gave_up.append(self.where(s))
                return Outcome("if", None, self.opaque("loop-return"), Outcome("ret", self.opaque("loop-return")), NORM)
            return NORM
        segs = self.iter_segs(it, s)
        self.loop_segs(segs, s.target, s.body, fr, s)
        if s.orelse:
            return self.exec_block(s.orelse, fr)
        return NORM

    def x_While(self, s, fr):
        # while i < n: ...; i += 1
        ok = None
        if isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], (ast.Lt, ast.NotEq)) and isinstance(s.test.left, ast.Name) and s.body and not has_break(s.body) and not has_jump(s.body):
            v = s.test.left.id
            last = s.body[-1]
            inc = (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == v and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1)
            if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == v:
                b = last.value
                if isinstance(b, ast.BinOp) and isinstance(b.op, ast.Add):
                    for x, y in ((b.left, b.right), (b.right, b.left)):
                        if isinstance(x, ast.Name) and x.id == v and isinstance(y, ast.Constant) and y.value == 1:
                            inc = True
            others = [n for n in assigned_names(s.body[:-1]) if n == v]
            if inc and not others:
                ok = v
        if ok is None:
            self.truth(self.ev(s.test, fr))
            self.first_turn(None, s, fr)
            self.havoc(s, fr, "while loop")
            self.heap_havoc(s, fr)
            if has_return(s.body):
                self.gave_up.append(self.where(s))
                return Outcome("if", None, self.opaque("loop-return"), Outcome("ret", self.opaque("loop-return")), NORM)
            return NORM
        start = self.ev(s.test.left, fr)
        stop = self.ev(s.test.comparators[0], fr)
        rng = self.lib.range_list(start, stop, ONE)
        self.loop_segs(self.iter_segs(rng, s), ast.Name(ok, ast.Store()), s.body[:-1], fr, s)
        fr.env[ok] = stop
        return NORM

    def first_turn(self, it, s, fr):
        """What the first turn of a loop that may end early tests and does; its values are forgotten again."""
        st = self.snapshot(fr)
        kept = list(self.pc), len(self.effects), list(self.raises), list(self.asserts)
        try:
            self.pc.append(self.opaque("loop"))
            if it is not None:
                self.assign(s.target, self.lib.getitem(self, self.force(it), ZERO), fr)
            self.exec_block(no_jumps(s.body), fr)
            if it is None:
                self.truth(self.ev(s.test, fr))
        except Exception:
            pass
        self.restore(st)
        self.pc = kept[0]
        self.effects[kept[1] :] = [e for e in self.effects[kept[1] :] if e.kind in ("numpy", "convert", "host-callback", "print")]
        self.raises[:], self.asserts[:] = kept[2], kept[3]

    def heap_havoc(self, s, fr):
        for n in ast.walk(s):
            if isinstance(n, ast.Name):
                v = fr.lookup(n.id)
                if v is not None and v.op == "ref":
                    self.heap[v.a[0]] = self.opaque("loop-mutated")

    def iter_segs(self, it, node=None):
        """Iteration structure: list of ('one', value) / ('for', n, sym, segs)."""
        if it.op == "ref":
            st = self.heap[it.a[0]]
            if st.op == "family":
                i = fresh("i", ("scal",))
                return [("for", st.a[0], i, [("one", raw("slot", it, i))])]
            if self.heap_kind[it.a[0]] == "dict":
                return self.iter_segs(mk("keys", self.force(st)))
            it = st
        if it.op == "slot":
            it = self.force(it)
        t = self.ty(it)
        if it.op == "dict" or (t and t[0] == "dict" and it.op != "keys"):
            return self.iter_segs(mk("keys", self.force(it)))
        if t and t[0] == "iter" and it.op == "sym":
            self.iterated.append((it, self.cur_loc, list(self.stack)))
        if it.op == "list":
            out = []
            for s in it.a[0]:
                if s.op == "one":
                    out.append(("one", s.a[0]))
                elif s.op == "for":
                    i = fresh("i", ("scal",))
                    body = open_(s.a[1], i)
                    out.append(("for", s.a[0], i, self.iter_segs(body)))
                elif s.op == "spread":
                    out.extend(self.iter_segs(s.a[0]))
                elif s.op == "if":
                    out.append(("if", s.a[0], self.iter_segs(s.a[1]), self.iter_segs(s.a[2])))
                else:
                    out.append(("opaque",))
            return out
        if it.op == "select":
            return [("if", it.a[0], self.iter_segs(it.a[1]), self.iter_segs(it.a[2]))]
        i = fresh("i", ("scal",))
        if it.op == "sym" and t and t[0] == "iter":
            it2 = it
        return [("for", length(it), i, [("one", index(it, i))])]

    def loop_segs(self, segs, target, body, fr, node):
        for sg in segs:
            if sg[0] == "one":
                self.assign(target, sg[1], fr)
                o = self.exec_block(body, fr)
                # `continue` simply ends the body
            elif sg[0] == "if":
                st0 = self.snapshot(fr)
                self.pc.append(sg[1])
                self.loop_segs(sg[2], target, body, fr, node)
                st1 = self.snapshot(fr)
                self.restore(st0)
                self.pc.append(not_(sg[1]))
                self.loop_segs(sg[3], target, body, fr, node)
                st2 = self.snapshot(fr)
                self.merge(sg[1], st1, st2, fr)
                self.pc = list(st0[2])
            elif sg[0] == "for":
                self.summarise(sg[1], sg[2], lambda: self.loop_segs(sg[3], target, body, fr, node), fr)
            else:
                self.havoc(node, fr, "iteration")

    def summarise(self, n, i, run, fr):
        """Summarise a loop `for i < n: run()` over the environment and the heap."""
        self.loop_depth += 1
        self.loops.append(next(tm._uid))
        try:
            self._summarise(n, i, run, fr)
        finally:
            self.loop_depth -= 1
            self.loops.pop()

    def _summarise(self, n, i, run, fr, guess=True):
        if n is ZERO:
            return
        st0 = self.snapshot(fr)
        marks = (len(self.asserts), len(self.raises), len(self.effects), len(self.iterated))
        id0 = self.next_id
        # first pass: which names and containers change
        run()
        changed_env = []
        for (f, e0) in st0[0]:
            for k in f.env:
                if k in e0 and f.env[k] is not e0[k]:
                    changed_env.append((f, k))
        changed_heap = [h for h in st0[1] if self.heap.get(h) is not st0[1][h]]
        steps = {}
        for f, k in changed_env:
            a, b = st0_env(st0, f)[k], f.env[k]
            if (is_num(a) or a.op == "poly") and (is_num(b) or b.op == "poly"):
                steps[(f, k)] = sub(b, a)
        # second pass with symbolic loop-carried state
        self.restore(st0)
        del self.asserts[marks[0]:], self.raises[marks[1]:], self.effects[marks[2]:]
        lcs = {}
        inits = {}
        counters = {}
        for f, k in changed_env:
            init = st0_env(st0, f)[k]
            if init.op == "ref" and self.heap_kind.get(init.a[0]) != "obj":
                init = self.force(init)
            if guess and (is_num(init) or init.op == "poly") and int_of(steps.get((f, k), NONE)) is not None:
                # counts up by a constant: known at every iteration (confirmed below)
                counters[(f, k)] = (init, steps[(f, k)])
                f.env[k] = add(init, mul(steps[(f, k)], i))
                continue
            s = fresh("lc_" + k, self.ty(init))
            if is_num(init) or init.op == "poly":
                tm.SYM_TYPE[s] = ("scal",)
            nd = tm.ndim(init)
            if nd is not None:
                tm.SYM_NDIM[s] = nd
            lcs[(f, k)] = s
            inits[(f, k)] = init
            self.carried[s] = init
            f.env[k] = s
        hs = {}
        for h in changed_heap:
            s = fresh("hc")
            init = st0[1][h]
            kind = self.heap_kind.get(h)
            if init.op == "family":
                self.heap[h] = raw("family", init.a[0], raw("dict", s, ()))
            elif kind == "dict":
                self.heap[h] = raw("dict", s, ())
                tm.SYM_TYPE[s] = self.ty(init)
            elif kind == "obj":
                tm.SYM_TYPE[s] = self.ty(init)
                self.heap[h] = s
            elif kind == "set":
                self.heap[h] = raw("setof", s)
            else:
                self.heap[h] = raw("list", (raw("spread", s),))
                tm.SYM_TYPE[s] = self.ty(init)
            hs[h] = s
        run()
        if any(f.env.get(k) is not add(init, mul(c, add(i, ONE))) for (f, k), (init, c) in counters.items()):
            self.restore(st0)
            del self.asserts[marks[0]:], self.raises[marks[1]:], self.effects[marks[2]:]
            return self._summarise(n, i, run, fr, False)
        newids = [k for k in self.heap if k >= id0]
        self._promote_locals(newids)
        upd = {}
        for key in lcs:
            f, k = key
            upd[key] = self.force(f.env[k])
        locals_new = []
        for (f, e0) in st0[0]:
            for k in f.env:
                if k not in e0 and f.env[k] is not None:
                    locals_new.append((f, k))
        newvals = {key: self.force_new(key[0].env[key[1]], newids) for key in locals_new}
        hupd = {h: self.force_new(self.heap[h], newids) for h in changed_heap}
        # solve accumulators
        solved = {}  # lc symbol -> value at iteration i
        final = {}
        progress = True
        pend = dict(lcs)
        all_lc = frozenset(list(lcs.values()) + list(hs.values()))
        while progress and pend:
            progress = False
            for key, s in list(pend.items()):
                u = subst(upd[key], solved)
                if u is s:
                    final[key] = inits[key]
                    solved[s] = inits[key]
                    del pend[key]
                    progress = True
                    continue
                inc = self._increment(u, s)
                if inc is not None and not (inc.fs & all_lc):
                    lam = close(i, inc)
                    solved[s] = add(inits[key], tm.psum(i, lam))
                    final[key] = add(inits[key], tm.psum(n, lam))
                    del pend[key]
                    progress = True
                    continue
                ev = self._update_events(u, s)
                if ev is not None and not any(x.fs & all_lc for x in ev):
                    lamb = close(i, raw("updlist", tuple(ev)))
                    base = inits[key]
                    final[key] = mk("upd", base, (mk("for", n, lamb),))
                    solved[s] = raw("partial", base, i, lamb)
                    del pend[key]
                    progress = True
                    continue
                segs = self._list_growth(u, s)
                if segs is not None and not any(x.fs & all_lc for x in segs):
                    lam = close(i, mk("list", tuple(segs)))
                    final[key] = mk("list", (mk("spread", inits[key]), mk("for", n, lam)))
                    solved[s] = raw("partial", inits[key], i, lam)
                    del pend[key]
                    progress = True
                    continue
        # remaining loop-carried variables
        rest = {k: s for k, s in pend.items()}
        if rest:
            indep = {}
            for key, s in rest.items():
                u = subst(upd[key], solved)
                if not (u.fs & frozenset(rest.values())):
                    indep[key] = u
            for key, u in indep.items():
                final[key] = self._last(n, i, u, inits[key])
                s = rest.pop(key)
                prev = subst(u, {i: sub(i, ONE)})
                solved[s] = select(eq(i, ZERO), inits[key], prev)
            if rest:
                keys = list(rest)
                if len(keys) == 1:
                    key = keys[0]
                    s = rest[key]
                    u = subst(upd[key], solved)
                    t = raw("fold", n, inits[key], close(s, close(i, u)))
                    if self.ty(inits[key]) is not None:
                        TERM_TYPE[t] = self.ty(inits[key])
                    final[key] = t
                    solved[s] = raw("foldat", i, n, inits[key], close(s, close(i, u)))
                else:
                    st_sym = fresh("S")
                    m = {rest[k]: index(st_sym, num(j)) for j, k in enumerate(keys)}
                    us = [subst(subst(upd[k], solved), m) for k in keys]
                    t = raw("fold", n, mklist([inits[k] for k in keys]), close(st_sym, close(i, mklist(us))))
                    for j, k in enumerate(keys):
                        final[k] = index(t, num(j))
                        solved[rest[k]] = raw("foldat", i, t, num(j))
        # heap growth
        hfinal = {}
        lenmap = {}
        hupd = {h: self._guarded(subst(st, solved), frozenset(hs.values())) for h, st in hupd.items()}
        added = {hs[h]: self._added(st, hs[h]) for h, st in hupd.items()}
        for h, s in hs.items():
            st = hupd[h]
            init = st0[1][h]
            ok = False
            if init.op == "family":
                if st.op == "family" and st.a[1].op == "dict" and st.a[1].a[0] is s:
                    ev = st.a[1].a[1]
                    if not any(s in e.fs for e in ev):
                        lam = close(i, raw("dict", raw("nil"), ev))
                        hfinal[h] = raw("family", init.a[0], mk("dict", init.a[1].a[0], init.a[1].a[1] + (mk("for", n, lam),)))
                        ok = True
            elif st.op == "dict" and st.a[0] is s:
                ev = [e for e in self._drop_ensure(st.a[1])]
                if not any(s in e.fs for e in ev):
                    lam = close(i, mk("dict", raw("nil"), tuple(ev)))
                    base, old = (init.a if init.op == "dict" else (init, ()))
                    hfinal[h] = mk("dict", base, old + (mk("for", n, lam),))
                    ok = True
                elif len(ev) == 1 and ev[0].op == "if" and self._only_appends(ev[0]):
                    # appended only where a test on what is already there allows it
                    hfinal[h] = raw("thinned", n, init, close(s, close(i, ev[0])))
                    ok = True
            elif st.op == "setof" and added[s] is not None and init.op == "setof":
                hfinal[h] = mk("setof", mk("list", (mk("spread", init.a[0]), mk("for", n, close(i, added[s])))))
                ok = s not in added[s].fs
            elif st.op == "list" and st.a[0] and st.a[0][0].op == "spread" and st.a[0][0].a[0] is s:
                segs = st.a[0][1:]
                if len(segs) == 1 and segs[0].op == "spread" and segs[0].a[0].op == "freshof":
                    # what a set, or the list itself, did not hold yet
                    k, l = segs[0].a[0].a
                    own = [x for x in st0[1] if hs.get(x) is k]
                    if own and added[k] is l and not (l.fs & frozenset(hs.values())):
                        b = st0[1][own[0]]
                        b = b.a[0] if b.op == "setof" else (mk("keys", b) if b.op == "dict" else b)
                        if b.op == "uniq" and b.a[0].op == "list" and not b.a[0].a[0]:
                            b = b.a[0]
                        hfinal[h] = mk("list", (mk("spread", init), mk("spread", mk("freshof", b, mk("list", (mk("for", n, close(i, l)),))))))
                        continue
                lam = close(i, mk("list", segs))
                lenmap[raw("len", s)] = add(length(init), tm.psum(i, close(i, length(mk("list", segs)))))
                if init.op == "list" and not init.a[0] and len(segs) == 1 and segs[0].op == "one" and segs[0].a[0].op == "list" and not segs[0].a[0].a[0]:
                    # one new empty bucket per iteration
                    hfinal[h] = raw("family", n, raw("dict", EMPTYDICT, ()))
                    ok = True
                elif not any(s in e.fs for e in segs):
                    hfinal[h] = mk("list", (mk("spread", init), mk("for", n, lam)))
                    ok = True
                else:
                    segs2 = tuple(tm.rewrite(e, lambda t: lenmap.get(t)) for e in segs)
                    if not any(s in e.fs for e in segs2):
                        lam = close(i, mk("list", segs2))
                        hfinal[h] = mk("list", (mk("spread", init), mk("for", n, lam)))
                        ok = True
            if not ok:
                hfinal[h] = self.opaque("container updated in loop", st)
        for h in hfinal:
            if hfinal[h].fs & frozenset(hs.values()):
                v = tm.rewrite(hfinal[h], lambda t: lenmap.get(t))
                left = any(x.op in ("in", "freshof") and x.fs & frozenset(hs.values()) for x in tm.walk(v))
                hfinal[h] = self.opaque("container updated in loop", v) if left else v
        # rewrite facts gathered in the body
        allsolved = solved
        fix = lambda t: subst(t, allsolved) if isinstance(t, T) else t
        if solved:
            for h in hfinal:
                hfinal[h] = subst(hfinal[h], allsolved)
            self.asserts[marks[0]:] = [(fix(p), fix(c), l, q) for p, c, l, q in self.asserts[marks[0]:]]
            self.raises[marks[1]:] = [(fix(p), w, l) for p, w, l in self.raises[marks[1]:]]
        for key, v in newvals.items():
            newvals[key] = self._last(n, i, subst(v, allsolved), None)
        # write back
        heap_now = {k: v for k, v in self.heap.items() if k < id0 and k not in hfinal}
        self.heap = {**st0[1], **heap_now, **hfinal}
        for (f, e0) in st0[0]:
            f.env = dict(e0)
        for key, v in final.items():
            f, k = key
            f.env[k] = v
        for (f, k), (init, c) in counters.items():
            f.env[k] = add(init, mul(c, n))
        for (f, k), v in newvals.items():
            f.env[k] = v
        self.pc = list(st0[2])

    def _guarded(self, st, syms):
        """`if x is not in K: add x` read as adding what K does not hold; idempotent additions lose their guard."""

        def missing(c, then, other):
            for test, a, b in ((c, then, other), (not_(c), other, then)):
                if test.op == "not" and test.a[0].op == "in" and test.a[0].a[1] in syms:
                    yield test.a[0].a[0], test.a[0].a[1], a, b

        if st.op in ("list", "setof"):
            l = st.a[0] if st.op == "setof" else st
            if l.op != "list":
                return st
            out = []
            for g in l.a[0]:
                if g.op == "if":
                    for x, k, a, b in missing(*g.a):
                        if list_items(b) == [] and list_items(a) == [x]:
                            g = raw("spread", raw("freshof", k, mklist([x])))
                            break
                out.append(g)
            l = raw("list", tuple(out))
            return raw("setof", l) if st.op == "setof" else l
        if st.op == "dict":
            out = []
            for g in st.a[1]:
                if g.op == "if":
                    for x, k, a, b in missing(*g.a):
                        if k is st.a[0] and not b.a[1] and len(a.a[1]) == 1 and a.a[1][0].op == "set" and a.a[1][0].a[0] is x and a.a[1][0].a[1].op in ("const", "num"):
                            g = a.a[1][0]
                            break
                out.append(g)
            return raw("dict", st.a[0], tuple(out))
        return st

    def _added(self, st, s):
        """List of the elements one iteration adds to a container, up to what it held before."""
        if st.op == "dict" and st.a[0] is s:
            k = tm._event_keys(st.a[1])
            return None if k is None else mk("list", tuple(k))
        l = st.a[0] if st.op == "setof" else st
        if l is s:
            return mk("list", ())
        if l.op != "list" or not l.a[0] or l.a[0][0].op != "spread" or l.a[0][0].a[0] is not s:
            return None
        out = []
        for g in l.a[0][1:]:
            if g.op == "spread" and g.a[0].op == "freshof" and g.a[0].a[0] is s:
                g = mk("spread", g.a[0].a[1])
            out.append(g)
        return mk("list", tuple(out))

    def _promote_locals(self, newids):
        pass

    def _only_appends(self, e):
        """One side of a conditional appends, the other does nothing."""
        a, b = ([x for x in self._drop_ensure(d.a[1])] for d in e.a[1:])
        return (not a) != (not b) and all(x.op == "app" for x in a + b)

    def _drop_ensure(self, events):
        out = []
        for e in events:
            if e.op == "ensure":
                # creating an empty bucket is implied by the append that follows
                continue
            if e.op == "if":
                c, d1, d2 = e.a
                ev1, ev2 = list(self._drop_ensure(d1.a[1])), list(self._drop_ensure(d2.a[1]))
                if not ev1 and not ev2:
                    continue
            out.append(e)
        return out

    def force_new(self, t, newids):
        """Resolve references to containers created inside the loop body."""
        ids = set(newids)
        for _ in range(20):
            refs = [s for s in t.fs if s.op == "ref" and s.a[0] in ids]
            if not refs:
                return t
            t = subst(t, {r: self.heap[r.a[0]] for r in refs})
        return t

    def _increment(self, u, s):
        if u.op == "select":
            a, b = self._increment(u.a[1], s), self._increment(u.a[2], s)
            if a is None or b is None:
                return None
            return select(u.a[0], a, b)
        if u is s:
            return ZERO
        if s not in u.fs:
            return None
        if u.op == "poly":
            d = sub(u, s)
            if s not in d.fs:
                return d
        return None

    def _update_events(self, u, s):
        if u.op == "upd" and u.a[0] is s:
            return list(u.a[1])
        if u.op == "select":
            a, b = self._update_events(u.a[1], s), self._update_events(u.a[2], s)
            if a and b and len(a) == len(b) and all(x.op == y.op == "st" and x.a[:2] == y.a[:2] for x, y in zip(a, b)):
                return [mk("st", x.a[0], x.a[1], select(u.a[0], x.a[2], y.a[2])) for x, y in zip(a, b)]
        return None

    def _list_growth(self, u, s):
        if u.op == "list" and u.a[0] and u.a[0][0].op == "spread" and u.a[0][0].a[0] is s:
            return u.a[0][1:]
        return None

    def _last(self, n, i, u, init):
        """Value after the loop of something overwritten in every iteration."""
        if i not in u.fs:
            return u if init is None or init is u else raw("lastof", n, init, close(i, u))
        # psum(i) + inc(i) == psum(i + 1)
        p = tm.to_poly(u)
        for m, c in p.items():
            if len(m) == 1 and c == 1:
                (at, e), = m
                if e == 1 and at.op == "psum" and at.a[0] is i:
                    rest = sub(u, at)
                    if open_(at.a[1], i) is rest or sub(open_(at.a[1], i), rest) is ZERO:
                        tot = tm.psum(n, at.a[1])
                        if init is None or init is ZERO:
                            return tot
        # i * inc + inc == (i + 1) * inc
        v = subst(u, {i: sub(n, ONE)})
        if init is not None and subst(u, {i: num(-1)}) is init:
            return v
        return raw("lastof", n, NONE if init is None else init, close(i, u))

    # ------------------------------------------------------------------------------------------------------------
    # expressions

    def ev(self, node, fr):
        return self.force(self.eval(node, fr))

    def eval(self, node, fr):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return self.opaque("expression " + type(node).__name__)
        t = m(node, fr)
        if t not in self.loc and hasattr(node, "lineno"):
            self.loc[t] = (fr.module.rel, node.lineno)
        return t

    def truth(self, t):
        """Python truth value of a term used as a condition."""
        if t.op not in ("num", "const") and not self.is_seq(t):
            self.branches.append((t, and_(*self.pc), self.cur_loc, self.stack[-1] if self.stack else "?"))
        if t.op == "num":
            return TRUE if t.a[0] != 0 else FALSE
        if t is NONE:
            return FALSE
        if t.op == "list":
            items = list_items(t)
            if items is not None:
                return TRUE if items else FALSE
        ty = self.ty(t)
        if ty and ty[0] == "list" or t.op in ("list", "keys"):
            return tm.gt0(length(t))
        return t

    def e_Constant(self, n, fr):
        return const(n.value)

    def e_JoinedStr(self, n, fr):
        values = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                values.append(self.force(self.ev(v.value, fr)))
        return raw("fstr", tuple(v.value if isinstance(v, ast.Constant) else f"{v.conversion}{ast.dump(v.format_spec) if v.format_spec else ''}" for v in n.values), *values)

    def e_Name(self, n, fr):
        v = fr.lookup(n.id)
        if v is not None:
            return v
        return self.global_name(fr.module, n.id)

    def global_name(self, m, name):
        r = self.p.resolve_name(m, name)
        if r is None:
            return raw("ext", "builtins." + name)
        return self.from_resolved(r)

    def from_resolved(self, r):
        if r is None:
            return self.opaque("unresolved name")
        k, v = r
        if k == "class":
            return raw("cls", v)
        if k == "func":
            return raw("func", v)
        if k == "module":
            return raw("module", v)
        if k == "ext":
            return raw("ext", v)
        mod, name = v
        node = self.p.modules[mod].names[name][1]
        g = raw("global", mod + "." + name)
        if isinstance(node, ast.Constant):
            return const(node.value)
        if isinstance(node, ast.UnaryOp) and isinstance(node.operand, ast.Constant):
            return self.eval(node, Frame(self.p.modules[mod]))
        if isinstance(node, (ast.Name, ast.Attribute)):
            return self.eval(node, Frame(self.p.modules[mod]))
        if isinstance(node, ast.Lambda):
            return self.make_closure(node, Frame(self.p.modules[mod]), "<lambda>")
        plain = (ast.Constant, ast.Name, ast.Attribute, ast.Lambda, ast.Tuple, ast.UnaryOp, ast.expr_context, ast.unaryop, ast.arguments, ast.arg)
        literal = isinstance(node, (ast.Tuple, ast.Dict, ast.List)) and all(isinstance(x, plain) for e in ast.iter_child_nodes(node) for x in ([e] if isinstance(e, ast.Lambda) else ast.walk(e)))
        if literal and (isinstance(node, ast.Tuple) or self.p.read_only(mod, name)):
            # a table that nothing changes
            return self.eval(node, Frame(self.p.modules[mod]))
        kind = None
        if isinstance(node, (ast.Dict, ast.DictComp)):
            kind = "dict"
        elif isinstance(node, (ast.List, ast.ListComp)):
            kind = "list"
        elif isinstance(node, ast.Call):
            d = self.p.dotted(self.p.modules[mod], node.func)
            if d in ("builtins.dict", "dict", "collections.defaultdict", "collections.OrderedDict", "weakref.WeakKeyDictionary", "weakref.WeakValueDictionary"):
                kind = "dict"
            elif d in ("list",):
                kind = "list"
            elif d and d in self.p.classes:
                return raw("new", raw("cls", d), mod + "." + name)
            elif d and (d.startswith("functools.partial") or d in ("jax.jit", "jax.vmap")):
                return self.eval(node, Frame(self.p.modules[mod]))
        if kind:
            if g not in self.ext_objs:
                i = self.next_id
                self.next_id += 1
                self.ext_objs[g] = i
                self.heap[i] = raw("dict", g, ()) if kind == "dict" else raw("list", (raw("spread", g),))
                self.heap_kind[i] = kind
            return raw("ref", self.ext_objs[g])
        return g

    def e_Attribute(self, n, fr):
        base = self.eval(n.value, fr)
        return self.get_attr(base, n.attr, fr, n)

    def get_attr(self, x, name, fr=None, node=None):
        if x in self.insts and name in self.insts[x][0].env:
            own, loops = self.insts[x]
            if tuple(self.loops[: len(loops)]) != loops:
                return self.opaque("attribute of an object made in a loop")
            return own.env[name]
        if x.op == "ref":
            k = self.heap_kind[x.a[0]]
            if k == "obj":
                return self.get_attr(self.heap[x.a[0]], name, fr, node)
            return raw("bm", x, name)
        if x.op == "slot":
            return raw("bm", x, name)
        if x.op == "module":
            r = self.p.resolve_attr(("module", x.a[0]), name)
            return self.from_resolved(r)
        if x.op == "ext":
            from .program import canonical_ext

            return self.lib.ext_attr(self, x.a[0], name)
        if x.op == "func" or x.op == "clo":
            return mk("attr", x, name)
        if x.op == "super":
            return raw("bm", x, name)
        if x.op == "cls":
            c = self.p.classes[x.a[0]]
            f = self.p.find_method(c, name)
            if f is not None:
                return raw("um", x, name)
            if c.qual + "." + name in self.p.classes:
                return raw("cls", c.qual + "." + name)
            for b in self.p.mro(c):
                if isinstance(b, Class) and name in b.assigns and b.assigns[name] is not None:
                    return self.eval(b.assigns[name], Frame(b.module))
            return mk("attr", x, name)
        x2 = self.deref(x)
        c, exact = self.cls_of(x2)
        if c is not None:
            fd = self.p.find_field(c, name)
            if fd is not None and (self.p.is_dataclass(c) or self.p.is_namedtuple(c)) and not fd.classvar:
                r = mk("attr", x2, name)
                # mutable containers owned by an argument (caches)
                t = self.ty(r)
                if r.op == "attr" and t and t[0] == "dict" and self._mutable_owner(c):
                    if r not in self.ext_objs:
                        i = self.next_id
                        self.next_id += 1
                        self.ext_objs[r] = i
                        self.heap[i] = raw("dict", r, ())
                        self.heap_kind[i] = "dict"
                    return raw("ref", self.ext_objs[r])
                return r
            f = self.p.find_method(c, name)
            if f is not None:
                if f.kind == "property":
                    return self.call_method(x2, name, [], {}, node)
                return raw("bm", x, name)
            if name == "__class__":
                return mk("type", x2)
            for b in self.p.mro(c):
                if isinstance(b, Class) and name in b.assigns and b.assigns[name] is not None and not self.p.is_dataclass_own(b):
                    return self.eval(b.assigns[name], Frame(b.module))
            return mk("attr", x2, name)
        t = self.ty(x2)
        if t and t[0] == "type" and t[1] and t[1][0] == "cls":
            c = self.p.classes[t[1][1]]
            f = self.p.find_method(c, name)
            if f is not None:
                return raw("um", x2, name)
            return mk("attr", x2, name)
        if name == "__class__":
            return mk("type", x2)
        if name == "T":
            return self.lib.transpose(self, x2)
        if name == "shape":
            if node is not None and x2.op == "index" and x2.a[0].op == "leaves":
                self.leaf_reads.append((self.cur_loc, isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name), fr))
            return mk("shape", x2)
        if name == "ndim":
            return length(mk("shape", x2))
        if name == "size" and (x2.op in ("slice",) or self.ndims.get(x2) == 1 or tm.ndim(x2) == 1):
            return length(x2)
        return mk("attr", x2, name)

    def _mutable_owner(self, c):
        for d in c.node.decorator_list:
            if isinstance(d, ast.Call) and any(k.arg == "frozen" and isinstance(k.value, ast.Constant) and k.value.value for k in d.keywords):
                return False
        return "dataclasses.dataclass" in c.decorators

    def buckets(self, n, fr):
        """[*xs] for a row of buckets: the same buckets."""
        if len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred):
            v = self.eval(n.elts[0].value, fr)
            if v.op == "ref" and self.heap[v.a[0]].op == "family":
                return v
            return self.seq(v)
        return None

    def e_Tuple(self, n, fr):
        b = self.buckets(n, fr)
        if b is not None:
            return b if b.op == "ref" else mk("list", (mk("spread", b),))
        return mk("list", tuple(self.display(n.elts, fr)))

    def display(self, elts, fr):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, fr)
                segs.append(mk("spread", self.seq(v)))
            else:
                segs.append(raw("one", self.eval(e, fr)))
        return segs

    def e_List(self, n, fr):
        b = self.buckets(n, fr)
        if b is not None:
            return b if b.op == "ref" else self.alloc("list", mk("list", (mk("spread", b),)))
        return self.alloc("list", mk("list", tuple(self.display(n.elts, fr))))

    def e_Set(self, n, fr):
        return mk("setof", mk("list", tuple(self.display(n.elts, fr))))

    def e_Dict(self, n, fr):
        ev = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.force(self.eval(v, fr))
                if d.op == "dict" and d.a[0] is EMPTYDICT:
                    ev.extend(d.a[1])
                else:
                    ks = mk("keys", d)
                    i = fresh("i")
                    ev.append(mk("for", length(ks), close(i, raw("dict", raw("nil"), (mk("set", index(ks, i), mk("get", d, index(ks, i))),)))))
            else:
                ev.append(mk("set", self.ev(k, fr), self.eval(v, fr)))
        return self.alloc("dict", mk("dict", EMPTYDICT, tuple(ev)))

    def e_Lambda(self, n, fr):
        return self.make_closure(n, fr, "<lambda>")

    def make_closure(self, node, fr, name):
        i = self.next_id
        self.next_id += 1
        # snapshot of comprehension-style child frames is taken; function frames are shared (late binding)
        self.closures[i] = Closure(node, fr, name)
        return raw("clo", i)

    def e_IfExp(self, n, fr):
        c = self.truth(self.ev(n.test, fr))
        if c is TRUE:
            return self.eval(n.body, fr)
        if c is FALSE:
            return self.eval(n.orelse, fr)
        self.pc.append(c)
        a = self.eval(n.body, fr)
        self.pc[-1] = not_(c)
        b = self.eval(n.orelse, fr)
        self.pc.pop()
        return sel(c, a, b)

    def e_BoolOp(self, n, fr):
        vals = []
        for v in n.values:
            vals.append(self.truth(self.ev(v, fr)))
        if all(self.boolish(v) for v in vals):
            return and_(*vals) if isinstance(n.op, ast.And) else or_(*vals)
        out = self.ev(n.values[-1], fr)
        for v in reversed(n.values[:-1]):
            x = self.ev(v, fr)
            c = self.truth(x)
            out = select(c, out, x) if isinstance(n.op, ast.And) else select(c, x, out)
        return out

    def boolish(self, t):
        return t in (TRUE, FALSE) or t.op in ("and", "or", "not", "gt0", "ge0", "eq", "eq0", "in", "isinst", "hasattr", "is", "any", "all", "raised") or self.ty(t) == ("bool",)

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(n.op, ast.USub):
            if v.op == "arr":
                return self.lib.arr_lift(self, lambda a: neg(a), [v])
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return not_(v)
        return self.opaque("unary")

    def e_BinOp(self, n, fr):
        a, b = self.ev(n.left, fr), self.ev(n.right, fr)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        if isinstance(op, ast.MatMult):
            return self.lib.matmul(self, a, b)
        if isinstance(op, ast.Add):
            if self.is_seq(a) and self.is_seq(b) or {a.op, b.op} == {"list", "shape"}:
                return mk("list", (mk("spread", a), mk("spread", b)))
            return self.lib.arith(self, add, a, b)
        if isinstance(op, ast.Sub):
            return self.lib.arith(self, sub, a, b)
        if isinstance(op, ast.Mult):
            # sequence repetition
            for x, y in ((a, b), (b, a)):
                if x.op == "select" and (self.is_seq(x.a[1]) or self.is_seq(x.a[2])) and not self.is_seq(y):
                    return select(x.a[0], self.binop(op, x.a[1], y), self.binop(op, x.a[2], y))
            if a.op == "list" and b.op == "num" and len(a.a[0]) != 1:
                return self.lib.arith(self, mul, a, b)
            if b.op == "list" and a.op == "num" and len(b.a[0]) != 1:
                return self.lib.arith(self, mul, a, b)
            if self.is_seq(a) and not self.is_seq(b) and a.op == "list":
                i = fresh("i")
                return mk("list", (mk("for", b, close(i, a)),))
            if self.is_seq(b) and not self.is_seq(a) and b.op == "list":
                i = fresh("i")
                return mk("list", (mk("for", a, close(i, b)),))
            if self.is_seq(a) and a.op == "slice":
                i = fresh("i")
                return mk("list", (mk("for", b, close(i, raw("list", (raw("spread", a),)))),))
            return self.lib.arith(self, mul, a, b)
        if isinstance(op, ast.Div):
            return self.lib.arith(self, div, a, b)
        if isinstance(op, ast.Pow):
            if b.op == "num":
                return self.lib.arr_map(self, lambda x: power(x, b.a[0]), a)
            return raw("pow", a, b)
        if isinstance(op, ast.FloorDiv):
            q = div(a, b)
            if q.op == "num" and q.a[0].denominator != 1:
                import math
                return num(math.floor(q.a[0]))
            if not tm._has_neg(q):
                return q
            return raw("floordiv", a, b)
        if isinstance(op, ast.Mod):
            ia, ib = int_of(a), int_of(b)
            if ia is not None and ib:
                return num(ia % ib)
            return raw("mod", a, b)
        if isinstance(op, ast.BitAnd):
            return and_(a, b)
        if isinstance(op, ast.BitOr):
            return or_(a, b)
        return raw("binop", type(op).__name__, a, b)

    def is_seq_tree(self, t):
        return self.is_seq(t) or t.op == "jac" and self.is_seq(t.a[1])

    def is_seq(self, t):
        if t.op in ("list", "keys", "uniq", "rev"):
            return True
        y = t.a[0] if t.op == "slice" else t
        if y.op == "mcall" and y.a[1] in ("split", "splitlines", "readlines"):
            return True
        ty = self.ty(t)
        return bool(ty and ty[0] in ("list", "tup"))

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr)
            a, b = left, right
            if isinstance(op, (ast.Eq, ast.NotEq)):
                # views of keys compare as sets
                va, vb = a.op in ("keys", "uniq") and is_view(n.left), b.op in ("keys", "uniq") and is_view(r)
                if (va or a.op == "setof") and (vb or b.op == "setof"):
                    a, b = (mk("setof", x) if v else x for x, v in ((a, va), (b, vb)))
            out.append(self.compare(op, a, b))
            left = right
        for t in out[:-1]:
            self.truth(t)
        return and_(*out)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq_terms(a, b)
        if isinstance(op, ast.NotEq):
            return not_(self.eq_terms(a, b))
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.LtE):
            return le(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.GtE):
            return le(b, a)
        if isinstance(op, ast.Is):
            return self.is_terms(a, b)
        if isinstance(op, ast.IsNot):
            return not_(self.is_terms(a, b))
        if isinstance(op, (ast.In, ast.NotIn)) and b.op == "list":
            self.lib.effect(self, "convert", "in", None, (a,))
        if isinstance(op, ast.In):
            return mk("in", a, b)
        if isinstance(op, ast.NotIn):
            return not_(mk("in", a, b))
        return self.opaque("compare")

    def eq_terms(self, a, b):
        if a.op == "shape" or b.op == "shape":
            s, o = (a, b) if a.op == "shape" else (b, a)
            return raw("eq", frozenset((s, o))) if s is not o else TRUE
        return eq(a, b)

    def is_terms(self, a, b):
        if a is b:
            return TRUE
        if b is NONE or a is NONE:
            x = a if b is NONE else b
            ty = self.ty(x)
            if x.op in ("obj", "list", "dict", "ref", "clo", "func", "num", "poly"):
                return FALSE
            if x.op == "select":
                return select(x.a[0], self.is_terms(x.a[1], NONE), self.is_terms(x.a[2], NONE))
            if ty and ty[0] not in ("opt", "none") and x.op in ("sym", "attr"):
                return FALSE
            return raw("eq", frozenset((x, NONE)))
        if tm._is_lit(a) and tm._is_lit(b):
            return FALSE
        return raw("eq", frozenset((a, b)))

    def e_Subscript(self, n, fr):
        base = self.eval(n.value, fr)
        return self.subscript(base, n.slice, fr, n)

    def subscript(self, base, sl, fr, node=None):
        if base.op == "ref":
            kind = self.heap_kind[base.a[0]]
            st = self.heap[base.a[0]]
            if kind == "dict" or st.op == "family":
                k = self.ev(sl, fr)
                g = mk("get", st, k)
                if g.op == "ref":
                    return g
                return raw("slot", base, k)
            if kind == "list" and not isinstance(sl, ast.Slice):
                k = self.ev(sl, fr)
                if st.op == "list":
                    g = index(st, k)
                    if g.op == "ref":
                        return g
                    if g.op == "index" and g.a[0] is st:
                        return index(self.force(st), k)
                    return g
            base = self.force(base)
        base = self.force(base)
        if base.op == "globals":
            k = self.ev(sl, fr)
            if k.op == "const":
                return self.global_name(self.p.modules[base.a[0]], k.a[1])
        if base.op in ("cls", "ext") or (base.op == "global"):
            # generic class subscripts and templates
            if base.op == "cls":
                c = self.p.classes[base.a[0]]
                if self.p.find_method(c, "__class_getitem__") is None:
                    return base
            return raw("subscr", base, self.ev(sl, fr))
        c, exact = self.cls_of(base)
        if c is not None and not self.p.is_namedtuple(c):
            f = self.p.find_method(c, "__getitem__")
            if f is not None:
                return self.call_method(base, "__getitem__", [self.ev(sl, fr)], {}, node)
        t = self.ty(base)
        if base.op == "dict" or (t and t[0] == "dict"):
            return mk("get", base, self.ev(sl, fr))
        if base.op == "attr" and base.a[1] == "at":
            return raw("atidx", base.a[0], self.index_term(sl, fr))
        idx = self.index_term(sl, fr)
        return self.lib.getitem(self, base, idx)

    def index_term(self, sl, fr):
        """Canonical term of an index expression."""
        if isinstance(sl, ast.Slice):
            lo = self.ev(sl.lower, fr) if sl.lower is not None else NONE
            hi = self.ev(sl.upper, fr) if sl.upper is not None else NONE
            st = self.ev(sl.step, fr) if sl.step is not None else NONE
            return raw("sl", lo, hi, st)
        if isinstance(sl, ast.Tuple):
            return raw("ixs", tuple(self.index_term(e, fr) for e in sl.elts))
        v = self.ev(sl, fr)
        if v.op == "slice_obj":
            return raw("sl", *v.a)
        if v.op == "list" and list_items(v) is not None and any(x.op in ("slice_obj",) for x in list_items(v)):
            return raw("ixs", tuple(raw("sl", *x.a) if x.op == "slice_obj" else x for x in list_items(v)))
        return v

    def e_Slice(self, n, fr):
        return raw("slice_obj", *(self.ev(x, fr) if x is not None else NONE for x in (n.lower, n.upper, n.step)))

    def e_Starred(self, n, fr):
        return self.eval(n.value, fr)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    # -- comprehensions

    def e_ListComp(self, n, fr):
        segs = self.comp(n.generators, 0, Frame(fr.module, {}, fr, fr.func, fr.cls), lambda f: self._comp_item(n.elt, f))
        fam = self._family(segs)
        if fam is not None:
            return fam
        return self.alloc("list", mk("list", tuple(segs)))

    def e_GeneratorExp(self, n, fr):
        segs = self.comp(n.generators, 0, Frame(fr.module, {}, fr, fr.func, fr.cls), lambda f: self._comp_item(n.elt, f))
        fam = self._family(segs)
        if fam is not None:
            return fam
        return mk("list", tuple(segs))

    def e_SetComp(self, n, fr):
        segs = self.comp(n.generators, 0, Frame(fr.module, {}, fr, fr.func, fr.cls), lambda f: self._comp_item(n.elt, f))
        return mk("setof", self.force(mk("list", tuple(segs))))

    def _comp_item(self, elt, f):
        return [raw("one", self.eval(elt, f))]

    def _family(self, segs):
        """[[] for _ in range(n)]: independent empty buckets indexed by position."""
        if len(segs) == 1 and segs[0].op == "famseg":
            return self.alloc("list", raw("family", segs[0].a[0], raw("dict", EMPTYDICT, ())))
        items = []
        for s in segs:
            if s.op != "one" or s.a[0].op != "ref":
                return None
            st = self.heap.get(s.a[0].a[0])
            if st is None or st.op != "list" or st.a[0]:
                return None
            items.append(s.a[0])
        return None

    def comp(self, gens, k, f, item):
        if k == len(gens):
            return item(f)
        g = gens[k]
        it = self.eval(g.iter, f)
        return self._comp_segs(self.iter_segs(it), gens, k, f, item)

    def _comp_segs(self, isegs, gens, k, f, item):
        g = gens[k]
        out = []
        for sg in isegs:
            if sg[0] == "one":
                self.assign(g.target, sg[1], f)
                conds = [self.truth(self.ev(c, f)) for c in g.ifs]
                c = and_(*conds)
                if c is FALSE:
                    continue
                if c is not TRUE:
                    self.pc.append(c)
                inner = self.comp(gens, k + 1, f, item)
                if c is not TRUE:
                    self.pc.pop()
                    self._kind = None
                    inner = [self._cond_seg(c, inner)]
                out.extend(inner)
            elif sg[0] == "for":
                n, i = sg[1], sg[2]
                id0 = self.next_id
                na, nr = len(self.asserts), len(self.raises)
                inner = self._comp_segs(sg[3], gens, k, f, item)
                newids = [h for h in self.heap if h >= id0]
                # family of fresh empty lists
                if len(inner) == 1 and inner[0].op == "one" and inner[0].a[0].op == "ref" and inner[0].a[0].a[0] in newids and k == len(gens) - 1:
                    st = self.heap[inner[0].a[0].a[0]]
                    if st.op == "list" and not st.a[0]:
                        out.append(raw("famseg", n))
                        continue
                inner = [self.force_new(x, newids) for x in inner]
                if inner and inner[0].op in ("set", "dictif") or (inner and inner[0].op == "for" and inner[0].a[1].a[1].op == "dict"):
                    body = mk("dict", raw("nil"), tuple(inner))
                else:
                    body = mk("list", tuple(inner))
                out.append(mk("for", n, close(i, body)))
            elif sg[0] == "if":
                a = self._comp_segs(sg[2], gens, k, f, item)
                b = self._comp_segs(sg[3], gens, k, f, item)
                out.append(mk("if", sg[1], mk("list", tuple(a)), mk("list", tuple(b))))
            else:
                out.append(raw("spread", self.opaque("iteration")))
        return out

    def _cond_seg(self, c, inner):
        if inner and inner[0].op in ("set", "app"):
            return mk("if", c, mk("dict", raw("nil"), tuple(inner)), mk("dict", raw("nil"), ()))
        return mk("if", c, mk("list", tuple(inner)), mk("list", ()))

    def e_DictComp(self, n, fr):
        segs = self.comp(
            n.generators, 0, Frame(fr.module, {}, fr, fr.func, fr.cls),
            lambda f: [mk("set", self.ev(n.key, f), self.ev(n.value, f))],
        )
        return self.alloc("dict", mk("dict", EMPTYDICT, tuple(segs)))

    # -- sequences

    def seq(self, v):
        """Term denoting the sequence of items obtained by iterating v."""
        if v.op == "ref":
            st = self.heap[v.a[0]]
            if st.op == "family":
                i = fresh("i", ("scal",))
                return mk("list", (mk("for", st.a[0], close(i, mklist([raw("slot", v, i)]))),))
            if self.heap_kind[v.a[0]] == "dict":
                return mk("keys", self.force(st))
            return st
        if v.op == "slot":
            return self.force(v)
        t = self.ty(v)
        if v.op == "dict" or (t and t[0] == "dict"):
            return mk("keys", v)
        if t and t[0] == "iter" and v.op == "sym":
            self.iterated.append((v, self.cur_loc, list(self.stack)))
        return v

    def list_extend(self, ref, v):
        self.lib.list_extend(self, ref, v)

    # -- calls

    def e_Call(self, n, fr):
        f = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(("*", self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                t = self.force(d)
                if t.op == "dict" and t.a[0] is tm.EMPTYDICT and all(e.op == "set" and e.a[0].op == "const" and isinstance(e.a[0].a[1], str) for e in t.a[1]):
                    kwargs.update({e.a[0].a[1]: e.a[1] for e in t.a[1]})
                else:
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        if f.op == "ext" and f.a[0] == "builtins.super":
            return raw("super", fr.lookup(self_name(fr)) or NONE, (frame_cls(fr).qual if frame_cls(fr) else "?"))
        if f.op == "ext" and f.a[0] == "builtins.globals":
            return raw("globals", fr.module.name)
        # explicit sequences in star-args are expanded
        flat = []
        for a in args:
            if isinstance(a, tuple):
                s = self.seq(a[1])
                items = list_items(s)
                if items is not None:
                    flat.extend(items)
                else:
                    flat.append(("*", s))
            else:
                flat.append(a)
        self.cur_loc = self.where(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr.endswith("_inplace") and isinstance(n.func.value, ast.Name):
            base = self.eval(n.func.value, fr)
            if base.op not in ("ref", "slot"):
                v = self.lib.call_value_method(self, base, n.func.attr, flat, kwargs, n)
                self.set_name(n.func.value.id, v, fr)
                self.effects.append(Effect("inplace", n.func.attr, and_(*self.pc), self.where(n), self.stack[-1] if self.stack else "?"))
                return NONE
        return self.apply(f, flat, kwargs, n, fr)

    def apply(self, f, args, kwargs, node=None, fr=None):
        self.calls += 1
        if f.op == "ref":
            f = self.deref(f)
        if f.op == "select":
            a = self.apply(f.a[1], args, kwargs, node, fr)
            b = self.apply(f.a[2], args, kwargs, node, fr)
            return sel(f.a[0], a, b)
        if f.op == "clo":
            return self.call_closure(self.closures[f.a[0]], args, kwargs)
        if f.op == "lamf":
            # canonical function value
            body = f.a[0]
            for a in args:
                body = open_(body, self.force(a))
            return body
        if f.op == "func":
            fn = self.p.funcs[f.a[0]]
            return self.call_func(fn, args, kwargs)
        if f.op == "partial":
            kw = dict(f.a[2])
            kw.update(kwargs)
            return self.apply(f.a[0], list(f.a[1]) + list(args), kw, node, fr)
        if f.op == "bm":
            return self.call_method(f.a[0], f.a[1], args, kwargs, node)
        if f.op == "um":
            return self.call_unbound(f.a[0], f.a[1], args, kwargs, node)
        if f.op == "cls":
            return self.construct(f, args, kwargs, node)
        if f.op == "vmapf":
            return self.lib.apply_vmap(self, f, args, kwargs)
        if f.op == "jacf":
            return self.lib.apply_jac(self, f, args, kwargs)
        if f.op == "ext":
            return self.lib.call_ext(self, f.a[0], args, kwargs, node, fr)
        if f.op == "compose":
            return self.apply(f.a[0], [self.apply(f.a[1], args, kwargs)], {})
        t = self.ty(f)
        if t and t[0] == "type" or f.op == "type":
            return self.construct(f, args, kwargs, node)
        if f.op == "attr":
            return self.lib.call_value_method(self, f.a[0], f.a[1], args, kwargs, node)
        if f.op == "atidx":
            return self.opaque("call")
        c, exact = self.cls_of(f)
        if c is not None and self.p.find_method(c, "__call__") is not None:
            return self.call_method(f, "__call__", args, kwargs, node)
        return raw("call", self.canon(f), tuple(self.canon_arg(a) for a in args), frozenset((k, self.canon_arg(v)) for k, v in kwargs.items()))

    def canon_arg(self, a):
        if isinstance(a, tuple):
            return raw("spread", self.force(a[1]))
        return self.canon(self.force(a))

    def canon(self, t):
        """Make function values inside terms canonical (comparable)."""
        clos = [x for x in tm.walk(t) if x.op == "clo"]
        if not clos:
            return t
        m = {}
        for c in clos:
            m[c] = self.fn_term(c)
        return tm.rewrite(t, lambda x: m.get(x))

    def fn_term(self, f, nargs=None):
        """Canonical term of a function value: lambda over fresh symbols."""
        if f.op == "clo":
            clo = self.closures[f.a[0]]
            a = clo.node.args
            ps = a.posonlyargs + a.args
            if a.vararg or a.kwonlyargs or a.kwarg:
                syms = [fresh(p.arg) for p in ps]
                star = fresh("args", ("list", None))
                v = self.force(self.call_closure(clo, list(syms) + ([("*", star)] if a.vararg else []), {}))
                if a.vararg:
                    v = close(star, v)
                for s in reversed(syms):
                    v = close(s, v)
                return raw("lamf", v)
            nd = len(a.defaults)
            req = ps[: len(ps) - nd] if nd else ps
            syms = [fresh(p.arg, self.ann_type(clo.frame.module, p.annotation)) for p in req]
            v = self.force(self.call_closure(clo, list(syms), {}))
            v = self.canon(v)
            for s in reversed(syms):
                v = close(s, v)
            return raw("lamf", v)
        return f

    def call_closure(self, clo, args, kwargs):
        node = clo.node
        fr = Frame(clo.frame.module, {}, clo.frame, clo.frame.func, clo.frame.cls)
        ok = self.bind(node.args, args, kwargs, fr, clo.frame, skip=0)
        if not ok:
            return self.opaque("call binding")
        if len(self.stack) > MAX_DEPTH:
            return self.opaque("depth")
        saved = getattr(self, "cur_module", None)
        self.cur_module = clo.frame.module
        self.stack.append((self.stack[-1] if self.stack else "?") + "." + clo.name if not (self.stack and self.stack[-1].endswith("." + clo.name)) else self.stack[-1])
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(node))
            if gen:
                acc = self.alloc("list", mk("list", ()))
                fr.env["$yield"] = acc
                self.exec_block(node.body, fr)
                return acc
            v = self.exec_block(node.body, fr).value()
            return tm.NEVER if v is None else v
        finally:
            self.stack.pop()
            self.cur_module = saved

    def bind(self, a, args, kwargs, fr, def_frame, skip=0):
        """Bind call arguments to parameters. Returns False when the call does not fit the signature."""
        ps = a.posonlyargs + a.args
        kwargs = dict(kwargs)
        extra_kw = kwargs.pop("**", None)
        args = list(args)
        i = 0
        vals = {}
        # star-args of unknown length bind to *vararg only
        pos = 0
        for p in ps:
            if pos < len(args) and not isinstance(args[pos], tuple):
                vals[p.arg] = args[pos]
                pos += 1
            elif pos < len(args) and isinstance(args[pos], tuple) and p.arg not in kwargs:
                # unknown-length star argument feeding named parameters: index into it
                s = args[pos][1]
                vals[p.arg] = index(self.force(s), num(i))
                i += 1
            else:
                break
        rest = args[pos:]
        if rest and isinstance(rest[0], tuple) and i:
            s = self.force(rest[0][1])
            rest = ([("*", mk("slice", s, num(i), sub(length(s), num(i))))] if a.vararg else []) + rest[1:]
        if a.vararg:
            segs = []
            for r in rest:
                segs.append(raw("spread", r[1]) if isinstance(r, tuple) else raw("one", r))
            vals[a.vararg.arg] = mk("list", tuple(segs))
        elif rest:
            return False
        names = [p.arg for p in ps + a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names and k not in vals:
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return False
        if a.kwarg:
            ev = tuple(mk("set", const(k), v) for k, v in sorted(extra.items()))
            if extra_kw is not None:
                vals[a.kwarg.arg] = self.alloc("dict", mk("dict", self.force(extra_kw), ev))
            else:
                vals[a.kwarg.arg] = self.alloc("dict", mk("dict", EMPTYDICT, ev))
        elif extra_kw is not None:
            for p in ps + a.kwonlyargs:
                if p.arg not in vals:
                    vals[p.arg] = mk("get", self.force(extra_kw), const(p.arg))
        nd = len(a.defaults)
        for p, d in zip(ps[len(ps) - nd :] if nd else [], a.defaults):
            if p.arg not in vals:
                vals[p.arg] = self.eval(d, def_frame)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in vals and d is not None:
                vals[p.arg] = self.eval(d, def_frame)
        for p in ps + a.kwonlyargs:
            if p.arg not in vals:
                return False
        fr.env.update(vals)
        return True

    def short(self, f):
        return (f.cls.name + "." if f.cls else "") + f.name

    def api_func(self, name):
        """Qualified name of the function an api term refers to."""
        r = self._api_names.get(name) if hasattr(self, "_api_names") else None
        return r

    def api(self, f, vals):
        if not hasattr(self, "_api_names"):
            self._api_names = {}
        name = self.short(f)
        self._api_names[name] = f.qual
        return mk("api", name, tuple(vals))

    def call_func(self, f, args, kwargs, selfval=None, cls_ctx=None):
        """Call a resolved repository function (inline, or keep as an atom)."""
        frame = Frame(f.module, {}, None, f, cls_ctx or f.cls)
        lf = getattr(self, "local_class_frame", {}).get(f.cls.qual) if f.cls is not None else None
        if lf is not None:
            frame.parent = lf
        a2 = ([selfval] if selfval is not None else []) + list(args)
        if not self.bind(f.node.args, a2, kwargs, frame, Frame(f.module)):
            return self.opaque("call does not fit signature of " + f.qual)
        name = self.short(f)
        order = [p.arg for p in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        memo = any(d in ("functools.lru_cache", "functools.cache", "functools.cached_property") for d in f.decorators)
        self.check_decorators(f)
        if name in self.keep or f.qual in self.stack or self.is_abstract(f):
            vals = [self.canon(self.force(frame.env[p])) for p in order]
            if f.node.args.vararg:
                vals.append(self.canon(self.force(frame.env[f.node.args.vararg.arg])))
            return self.api(f, vals)
        self.add_param_types(f, frame)
        vals = [frame.env.get(p) for p in order] if memo else None
        r = self.exec_function(f, frame)
        if memo:
            self.memo_calls.append((f, vals, r))
        return r

    def add_param_types(self, f, frame):
        tys = self.param_types(f)
        for k, t in tys.items():
            v = frame.env.get(k)
            if v is None or t is None:
                continue
            if v.op in ("opaque", "call", "mcall", "index", "get", "attr", "slice") and self.ty(v) is None and t[0] in ("cls", "list", "tup", "dict", "type"):
                TERM_TYPE.setdefault(v, t)

    KNOWN_DECOS = {
        "staticmethod", "classmethod", "property", "overrides.final", "overrides.overrides", "abc.abstractmethod",
        "jax.jit", "jax_dataclasses.jit", "functools.wraps", "typing.overload", "functools.lru_cache", "functools.cache",
        "functools.partial", "contextlib.contextmanager", "typing.no_type_check", "overrides.override",
    }

    def check_decorators(self, f):
        for d in f.decorators:
            if d not in self.KNOWN_DECOS:
                self.notes.append(("decorator", f.qual, d))

    def is_abstract(self, f):
        return "abc.abstractmethod" in f.decorators

    def root_def(self, c, name):
        """The topmost class in the MRO that defines a method: canonical name of a virtual call."""
        r = None
        for b in self.p.mro(c):
            if isinstance(b, Class) and name in b.methods:
                r = b.methods[name]
        return r

    def call_method(self, recv, name, args, kwargs, node=None):
        if recv.op == "super":
            selfv = recv.a[0]
            c = self.p.classes.get(recv.a[1])
            if c is None:
                return self.opaque("super")
            sc, _ = self.cls_of(selfv)
            mro = self.p.mro(sc) if sc is not None and c in self.p.mro(sc) else self.p.mro(c)
            for b in mro[mro.index(c) + 1 :]:
                if isinstance(b, Class) and name in b.methods:
                    f = b.methods[name]
                    return self.call_func(f, args, kwargs, selfv if f.kind != "static" else None)
            return NONE
        if recv.op in ("ref", "slot"):
            if recv.op == "ref" and self.heap_kind[recv.a[0]] == "obj":
                recv = self.heap[recv.a[0]]
            else:
                return self.lib.container_method(self, recv, name, args, kwargs, node)
        c, exact = self.cls_of(recv)
        if c is not None:
            f = self.p.find_method(c, name)
            if f is None:
                return self.lib.call_value_method(self, recv, name, args, kwargs, node)
            if f.kind == "class":
                return self.call_unbound(mk("type", recv), name, args, kwargs, node)
            if f.kind == "static":
                return self.dispatch(f, c, exact, name, args, kwargs, None, mk("type", recv))
            return self.dispatch(f, c, exact, name, args, kwargs, recv, None)
        return self.lib.call_value_method(self, recv, name, args, kwargs, node)

    def dispatch(self, f, c, exact, name, args, kwargs, selfval, clsterm):
        if not exact and (self.is_abstract(f) or self.virtual(f, c)):
            root = self.root_def(c, name)
            r = self.by_class(root, c, name, args, kwargs, selfval)
            if r is not None:
                return r
            frame = Frame(root.module, {}, None, root, root.cls)
            a2 = ([selfval] if selfval is not None else []) + list(args)
            if root.kind == "static":
                a2 = list(args)
            if not self.bind(root.node.args, a2, kwargs, frame, Frame(root.module)):
                return self.opaque("virtual call does not fit")
            order = [p.arg for p in root.node.args.posonlyargs + root.node.args.args + root.node.args.kwonlyargs]
            vals = [self.canon(self.force(frame.env[p])) for p in order]
            if root.kind == "static" and clsterm is not None:
                vals = [clsterm] + vals
            return self.api(root, vals)
        return self.call_func(f, args, kwargs, selfval, cls_ctx=f.cls)

    def by_class(self, root, c, name, args, kwargs, selfval):
        """A method that is not part of the recorded interface: one case for each class that defines it."""
        if interface.entry(root) is not None or selfval is None or root.kind != "method" or selfval.op == "cls" or name.startswith("__"):
            return None
        if any(isinstance(a, tuple) for a in args) or any(not k for k in kwargs) or "**" in kwargs or name in self.by_class_open:
            return None
        owners = sorted((s for s in self.p.subclasses.get(root.cls.qual, []) if name in s.methods), key=lambda s: -len(self.p.mro(s)))
        if not owners or any(s.methods[name].kind != "method" for s in owners):
            return None
        env = {"_self": selfval}
        env.update({f"_a{k}": a for k, a in enumerate(args)})
        env.update({f"_k{k}": v for k, v in kwargs.items()})
        passed = ", ".join(["_self"] + [f"_a{k}" for k in range(len(args))] + [f"{k}=_k{k}" for k in kwargs])
        lines = ["def call():"]
        for k, s in enumerate(owners):
            env[f"_C{k}"] = raw("cls", s.qual)
            lines.append(f"    if isinstance(_self, _C{k}):\n        return _C{k}.{name}({passed})")
        env["_Base"] = raw("cls", root.cls.qual)
        lines.append("    raise NotImplementedError()" if self.is_abstract(root) else f"    return _Base.{name}({passed})")
        node = ast.parse("\n".join(lines)).body[0]
        self.by_class_open.add(name)
        try:
            return self.call_closure(self.closures[self.make_closure(node, Frame(root.module, env), name).a[0]], [], {})
        finally:
            self.by_class_open.discard(name)

    def virtual(self, f, c):
        """May a subclass of c provide a different implementation?"""
        if "overrides.final" in f.decorators:
            return False
        if any(f.name in s.methods for s in self.p.subclasses.get(c.qual, [])):
            return True
        # user-facing extension points
        return self.short(f) in OPEN_METHODS or (f.cls.name, f.name) in ()

    def call_unbound(self, clsterm, name, args, kwargs, node=None):
        """Class.method(...): class methods, static methods, or explicit-self calls."""
        if clsterm.op == "cls":
            c = self.p.classes[clsterm.a[0]]
            exact = True
        else:
            t = self.ty(clsterm)
            if not (t and t[0] == "type" and t[1] and t[1][0] == "cls"):
                return self.lib.call_value_method(self, clsterm, name, args, kwargs, node)
            c = self.p.classes[t[1][1]]
            exact = t[1][2]
        f = self.p.find_method(c, name)
        if f is None:
            return self.lib.call_value_method(self, clsterm, name, args, kwargs, node)
        if f.kind == "static":
            return self.dispatch(f, c, exact, name, args, kwargs, None, clsterm)
        if f.kind == "class":
            memo = any(d in ("functools.lru_cache", "functools.cache") for d in f.decorators)
            if memo:
                frame = Frame(f.module, {}, None, f, f.cls)
                vals = [self.canon(self.force(a)) if not isinstance(a, tuple) else a[1] for a in args]
                return self.api(f, [clsterm] + vals)
            return self.dispatch(f, c, exact, name, args, kwargs, clsterm, None)
        # instance method through the class: first argument is the receiver
        if not args:
            return self.opaque("unbound call without receiver")
        recv = args[0]
        recv = recv if not isinstance(recv, tuple) else index(recv[1], ZERO)
        rc, rexact = self.cls_of(self.deref(recv))
        if clsterm.op == "cls" and rc is not None and not rexact and self.virtual(f, c) and rc is not c:
            return self.call_func(f, args[1:], kwargs, recv)
        if rc is None:
            # type(x).method(x_batched): the receiver has the class of clsterm
            return self.dispatch(f, c, exact, name, args[1:], kwargs, recv, None)
        if clsterm.op == "cls" and exact and self.short(f) not in OPEN_METHODS and not self.is_abstract(f):
            return self.call_func(f, args[1:], kwargs, recv)
        r = self.call_method(recv, name, args[1:], kwargs, node)
        if clsterm.op == "type" and not exact and (self.is_abstract(f) or self.virtual(f, c)):
            a, b = self.origin(clsterm.a[0]), self.origin(self.force(recv))
            if a is not b and (a.op, b.op) == ("attr", "attr") and a.a[1] == b.a[1]:
                # the method of one object's class applied to another object
                return raw("asclass", clsterm, self.force(r))
        return r

    def origin(self, x):
        """The object whose class a batched, stacked or partly replaced object has."""
        while True:
            if x.op in ("row", "replace"):
                x = x.a[0]
            elif x.op == "tree_map":
                x = index(x.a[0], ZERO)
            elif x.op == "attr":
                y = self.origin(x.a[0])
                return x if y is x.a[0] else mk("attr", y, x.a[1])
            else:
                return x

    # -- objects

    def construct(self, clsterm, args, kwargs, node=None):
        if clsterm.op != "cls":
            if clsterm.op == "type":
                c, exact = self.cls_of(clsterm.a[0])
                if c is not None and exact and self.p.is_dataclass(c):
                    return self.construct(raw("cls", c.qual), args, kwargs, node)
            return raw("new", clsterm, tuple(self.canon_arg(a) for a in args), frozenset((k, self.canon_arg(v)) for k, v in kwargs.items()))
        c = self.p.classes[clsterm.a[0]]
        if self.p.is_dataclass(c) or self.p.is_namedtuple(c):
            fields = self.p.all_fields(c)
            vals = {}
            kwargs = dict(kwargs)
            extra = kwargs.pop("**", None)
            pos = 0
            for a in args:
                if isinstance(a, tuple):
                    s = self.force(a[1])
                    k = 0
                    while pos < len(fields):
                        vals[fields[pos].name] = index(s, num(k))
                        pos += 1
                        k += 1
                    continue
                if pos >= len(fields):
                    return self.opaque("constructor arity " + c.qual)
                vals[fields[pos].name] = a
                pos += 1
            for k, v in kwargs.items():
                vals[k] = v
            for f in fields:
                if f.name not in vals:
                    if extra is not None:
                        vals[f.name] = mk("get", self.force(extra), const(f.name))
                        continue
                    d = self.default_of(f)
                    if d is None:
                        return self.opaque("constructor misses field " + f.name)
                    vals[f.name] = d
            if self.changing(c):
                return self.instance(clsterm, vals, self.p.find_method(c, "__post_init__"), [], {})
            t = mk("obj", c.qual, tuple((f.name, vals[f.name]) for f in fields))
            pi = self.p.find_method(c, "__post_init__")
            if pi is not None and t.op == "obj":
                ne = len(self.effects)
                ref = self.alloc("obj", t)
                self.call_func(pi, [], {}, ref)
                t = self.heap[ref.a[0]]
            return t
        init = self.p.find_method(c, "__init__")
        if init is not None and init.cls.name not in interface.classes():
            return self.instance(clsterm, {}, init, args, kwargs)
        return raw("new", clsterm, ("id", next(tm._uid)))

    def instance(self, clsterm, attributes, init, args, kwargs):
        """A new object whose attributes are kept like the variables of a function."""
        t = raw("new", clsterm, ("id", next(tm._uid)))
        self.insts[t] = (Frame(self.p.classes[clsterm.a[0]].module, dict(attributes)), tuple(self.loops))
        if init is not None:
            self.call_func(init, args, kwargs, t)
        return t

    def changing(self, c):
        """A record of the code's own, with a method that assigns its attributes."""
        if c.name in interface.classes() or self.p.is_namedtuple(c) or any(d.split(".")[-1].startswith("pytree") for d in c.decorators):
            return False
        for b in self.p.mro(c):
            for f in b.methods.values() if isinstance(b, Class) else ():
                a = f.node.args.args
                if f.name == "__post_init__" or not a:
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == a[0].arg:
                        return True
        return False

    def default_of(self, f):
        d = f.default
        if d is None:
            return None
        fr = Frame(f.cls.module)
        if isinstance(d, ast.Call):
            name = self.p.dotted(f.cls.module, d.func) or ""
            if name.split(".")[-1] == "field":
                for kw in d.keywords:
                    if kw.arg == "default":
                        return self.eval(kw.value, fr)
                    if kw.arg == "default_factory":
                        return self.apply(self.eval(kw.value, fr), [], {})
                return None
        return self.eval(d, fr)

    def replace_fields(self, x, changes):
        """jdc.replace / dataclasses.replace / attribute assignment on a private copy."""
        x = self.deref(x)
        c, exact = self.cls_of(x)
        changes = {k: v for k, v in changes.items()}
        if x.op == "obj":
            return mk("obj", x.a[0], tuple((f, changes.get(f, v)) for f, v in x.a[1]))
        if c is not None and exact and (self.p.is_dataclass(c)):
            return mk("obj", c.qual, tuple((f.name, changes.get(f.name) or mk("attr", x, f.name)) for f in self.p.all_fields(c)))
        return mk("replace", x, tuple(sorted(changes.items(), key=lambda kv: kv[0])))


OPEN_METHODS = {
    "FactorBase.compute_residual_vector",
    "FactorBase.compute_residual_jacobians",
    "VariableBase.get_default_value",
    "VariableBase.get_local_parameter_dim",
    "VariableBase.manifold_retract",
    "VariableBase.manifold_retract_jacobian",
    "NoiseModelBase.get_residual_dim",
    "NoiseModelBase.whiten_residual_vector",
    "NoiseModelBase.whiten_jacobian",
    "LinearSubproblemSolverBase.solve_subproblem",
    "LieVariableBase.get_group_type",
}


def st0_env(st, f):
    for g, e in st[0]:
        if g is f:
            return e
    return {}


def self_name(fr):
    f = fr
    while f is not None:
        if f.func is not None and f.func.node.args.args:
            return f.func.node.args.args[0].arg
        f = f.parent
    return "self"


def frame_cls(fr):
    f = fr
    while f is not None:
        if f.func is not None and f.func.cls is not None:
            return f.func.cls
        f = f.parent
    return None


def own_nodes(node):
    """Nodes of a function body, nested functions/classes excluded."""
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))


def is_view(n):
    """`d.keys()` written out."""
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "keys" and not n.args


def _scan(stmts, kinds, into_loops=True):
    stack = list(stmts)
    while stack:
        x = stack.pop()
        if isinstance(x, kinds):
            return True
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if not into_loops and isinstance(x, (ast.For, ast.While)):
            # break/continue inside belong to that loop; returns do not
            if any(_scan(x.body + x.orelse, (ast.Return,)) for _ in (0,)) and ast.Return in kinds:
                return True
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


def has_jump(stmts):
    return _scan(stmts, (ast.Return, ast.Raise, ast.Continue, ast.Break), into_loops=False) or _has_assert_false(stmts)


def _has_assert_false(stmts):
    return any(isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value for s in stmts)


def no_jumps(body):
    """The statements without what leaves the loop or the function."""
    import copy

    class Drop(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n

        def visit_Break(self, n):
            return ast.copy_location(ast.Pass(), n)

        visit_Continue = visit_Break

        def visit_Return(self, n):
            return ast.copy_location(ast.Expr(n.value) if n.value is not None else ast.Pass(), n)

    return [Drop().visit(copy.deepcopy(b)) for b in body]


def has_break(stmts):
    return _scan(stmts, (ast.Break,), into_loops=False) or _scan(stmts, (ast.Return,))


def has_return(stmts):
    return _scan(stmts, (ast.Return,))


def assigned_names(stmts):
    out = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)
    return out


def to_load(t):
    import copy

    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


# --------------------------------------------------------------------------------------------------------------------
# constructors that need type information


# attributes every group has on its class
GROUP_DIMENSIONS = ("tangent_dim", "parameters_dim", "matrix_dim", "space_dim")
DIMENSIONS_OF = {"so2": (1, 2, 2, 2), "se2": (3, 4, 3, 2), "so3": (3, 4, 3, 3), "se3": (6, 7, 4, 3)}


@tm.cons("attr")
def _attr(x, name):
    if x.op == "obj":
        for f, v in x.a[1]:
            if f == name:
                return v
    if x.op == "slice_obj" and name in ("start", "stop", "step"):
        return x.a[("start", "stop", "step").index(name)]
    if x.op == "select":
        return select(x.a[0], _attr(x.a[1], name), _attr(x.a[2], name))
    if x.op == "replace":
        for f, v in x.a[1]:
            if f == name:
                return v
        return _attr(x.a[0], name)
    if name in GROUP_DIMENSIONS:
        k = x.op if x.op != "ext" else x.a[0][len("jaxlie."):].lower() if x.a[0].startswith("jaxlie.") else None
        if k in DIMENSIONS_OF:
            return num(DIMENSIONS_OF[k][GROUP_DIMENSIONS.index(name)])
    if x.op == "getcol" and name in ("indices", "data"):
        at = mk("attr", x.a[0], "indptr")
        lo = index(at, x.a[1])
        return mk("slice", _attr(x.a[0], name), lo, sub(index(at, add(x.a[1], ONE)), lo))
    it = CURRENT[0]
    if x.op == "row" and it is not None:
        c, _ = it.cls_of(x.a[0])
        if c is not None:
            fd = it.p.find_field(c, name)
            if fd is not None:
                if fd.static:
                    return _attr(x.a[0], name)
                return mk("row", _attr(x.a[0], name), x.a[1])
    if x.op == "api" and x.a[0] == "FactorStack.make":
        # established separately for the constructor of factor stacks
        if name == "num_factors":
            return length(x.a[1][0])
        if name == "storage_layout":
            return x.a[1][1]
    if x.op == "api" and name == "storage_layout":
        # likewise for assignments
        if x.a[0] == "VariableAssignments.manifold_retract":
            return _attr(x.a[1][0], name)
        if x.a[0] == "VariableAssignments.update_storage_layout":
            return x.a[1][1]
    if name in GROUP_DIMENSIONS and it is not None and it.is_group(x):
        return _attr(mk("type", x), name)
    if x.op == "tree_map" and it is not None:
        its = list_items(x.a[0])
        first = index(x.a[0], ZERO)
        c, _ = it.cls_of(first)
        if c is not None:
            fd = it.p.find_field(c, name)
            if fd is not None:
                if fd.static:
                    return _attr(first, name)
                return mk("tree_map", it.lib.map_term(x.a[0], lambda y: _attr(y, name)), x.a[1])
    if x.op == "vmap":
        body = x.a[0].a[1]
        if body.op == "obj":
            s = fresh("v")
            b = open_(x.a[0], s)
            c = it.p.classes[b.a[0]]
            fd = it.p.find_field(c, name)
            v = _attr(b, name)
            return v if fd is not None and fd.static else mk("vmap", close(s, v))
    return raw("attr", x, name)


@tm.cons("obj")
def _obj(q, fields):
    it = CURRENT[0]
    # eta: an object with exactly the fields of x is x
    if fields and fields[0][1].op == "attr" and fields[0][1].a[1] == fields[0][0]:
        x = fields[0][1].a[0]
        if all(v.op == "attr" and v.a[0] is x and v.a[1] == f for f, v in fields):
            c, exact = it.cls_of(x)
            if c is not None and c.qual == q and exact:
                return x
    return raw("obj", q, fields)


@tm.cons("replace")
def _replace(x, changes):
    if x.op == "replace":
        d = dict(x.a[1])
        d.update(dict(changes))
        return _replace(x.a[0], tuple(sorted(d.items(), key=lambda kv: kv[0])))
    if x.op == "obj":
        d = dict(changes)
        return mk("obj", x.a[0], tuple((f, d.get(f, v)) for f, v in x.a[1]))
    changes = tuple((f, v) for f, v in changes if not (v.op == "attr" and v.a[0] is x and v.a[1] == f))
    if not changes:
        return x
    return raw("replace", x, changes)


@tm.cons("type")
def _type(x):
    it = CURRENT[0]
    if x.op in ("row", "replace"):
        return _type(x.a[0])
    if x.op == "obj":
        return raw("cls", x.a[0])
    if x.op == "new":
        return x.a[0]
    if x.op == "select":
        a, b = _type(x.a[1]), _type(x.a[2])
        if a is b:
            return a
    if x.op == "vmap" and x.a[0].a[1].op == "obj":
        return raw("cls", x.a[0].a[1].a[0])
    if x.op in ("ginv",):
        return _type(x.a[0])
    if x.op == "matmul" and it is not None and it.is_group(x.a[0][0]):
        return _type(x.a[0][0])
    t = tm.SYM_TYPE.get(x) if x.op == "sym" else None
    if t and t[0] == "cls" and t[2]:
        return raw("cls", t[1])
    # members of a by-type group have the group's key as their type
    if x.op == "index" and x.a[0].op == "get" and x.a[0].a[0].op == "dict":
        g, k = x.a[0].a
        if _grouped_by_type(g):
            return k
    # groups of factors share their variable types
    if x.op == "index" and it is not None:
        r = it.representative(x.a[0], "variables")
        if r is not None:
            return _type(index(r, x.a[1]))
    # canonical instances
    if x.op == "api" and x.a[0].endswith(".canonical_instance"):
        return x.a[1][0]
    return raw("type", x)


@tm.cons("api")
def _api(name, vals):
    it = CURRENT[0]
    if name.endswith(".get_residual_dim") and vals and it is not None:
        r = it.representative(vals[0], "noise_model")
        if r is not None:
            return raw("api", name, (r,) + vals[1:])
        # stacking does not change the residual dimension of a noise model
        x = vals[0]
        if x.op == "tree_map" and list_items(x.a[0]) is None:
            return mk("api", name, (index(x.a[0], ZERO),) + vals[1:])
        if x.op == "row":
            return mk("api", name, (x.a[0],) + vals[1:])
        if x.op == "attr" and x.a[1] == "noise_model" and x.a[0].op == "attr" and x.a[0].a[1] == "factor":
            st = x.a[0].a[0]
            if st.op == "api" and st.a[0] == "FactorStack.make":
                return mk("api", name, (mk("attr", index(st.a[1][0], ZERO), "noise_model"),) + vals[1:])
    if name.endswith(".build_variable_value_tuple") and len(vals) == 2 and vals[0].op == "row":
        # only the types of the factor's variables matter
        return mk("api", name, (vals[0].a[0], vals[1]))
    if name == "SparseCovariance.__getitem__" and len(vals) == 2:
        # symmetric in its two indices (established for the operation itself)
        its = list_items(vals[1])
        if its is not None and len(its) == 2:
            return raw("api", name, (vals[0], raw("unordered", frozenset(its))))
    return raw("api", name, vals)


def _ev_by_treedef(e):
    if e.op == "app":
        return any(s.op == "treedef" and e.a[1] is _strip_replace(s.a[0]) for s in tm.walk(e.a[0]))
    if e.op == "for":
        b = e.a[1].a[1]
        return b.op == "dict" and bool(b.a[1]) and all(_ev_by_treedef(x) for x in b.a[1])
    return False


def _strip_replace(x):
    return x.a[0] if x.op == "replace" else x


def _grouped_by_type(g):
    for e in g.a[1]:
        if not _ev_by_type(e):
            return False
    return bool(g.a[1])


def _ev_by_type(e):
    if e.op == "app":
        k, v = e.a
        return k.op == "type" and k.a[0] is v
    if e.op == "for":
        b = e.a[1].a[1]
        return b.op == "dict" and bool(b.a[1]) and all(_ev_by_type(x) for x in b.a[1])
    return False


@tm.cons("slot")
def _slot(r, k):
    if r.op == "ref":
        return raw("slot", r, k)
    return mk("get", r, k) if r.op in ("dict", "family") or True else raw("slot", r, k)


@tm.cons("upd")
def _upd(base, events):
    events = tuple(events)
    if base.op == "upd":
        return _upd(base.a[0], base.a[1] + events)
    out = []
    for e in events:
        if e.op == "for":
            n, lam = e.a
            if n is ZERO:
                continue
            k = int_of(n)
            if k is not None and 0 <= k <= 32:
                for j in range(k):
                    out.extend(open_(lam, num(j)).a[0])
                continue
        out.append(e)
    if base.op == "zeros" and len(out) == 1:
        t = _table(base, out[0]) or _spread_table(base, out[0])
        if t is not None:
            return t
    return raw("upd", base, tuple(out))


def _table(base, e):
    """A matrix of zeros filled entry by entry (or symmetrically, by triangles) is the list of its rows."""
    sh = list_items(base.a[0])
    if sh is None or len(sh) != 2 or e.op != "for" or e.a[0] is not sh[0]:
        return None
    i, j = fresh("i", ("scal",)), fresh("j", ("scal",))
    b = open_(e.a[1], i)
    if b.op != "updlist" or len(b.a[0]) != 1 or b.a[0][0].op != "for":
        return None
    m, lam = b.a[0][0].a
    sts = open_(lam, j)
    if sts.op != "updlist" or not all(x.op == "st" and x.a[0] == "set" and x.a[1].op == "ixs" and len(x.a[1].a[0]) == 2 for x in sts.a[0]):
        return None
    sts = sts.a[0]
    ix = [x.a[1].a[0] for x in sts]
    v = None
    if m is sh[1] and len(sts) == 1 and ix[0] == (i, j):
        v = sts[0].a[2]
    elif sh[0] is sh[1] and len(sts) in (1, 2):
        if m is sh[1] and len(sts) == 1 and ix[0] == (j, i):
            v = subst(sts[0].a[2], {i: j, j: i})
        elif m is sub(sh[0], i):
            o = add(i, j)
            if set(ix) == {(i, o), (o, i)} and sts[0].a[2] is sts[1].a[2]:
                v = subst(sts[0].a[2], {j: sub(j, i)})
        elif m is add(i, ONE):
            if set(ix) == {(i, j), (j, i)} and sts[0].a[2] is sts[1].a[2]:
                v = sts[0].a[2]
        if v is not None and m is not sh[1] and subst(v, {i: j, j: i}) is not v:
            return None
    if v is None:
        return None
    return _rows(sh[0], i, mklist([_rows(sh[1], j, v)]), True)


def _spread_table(base, e):
    """The same when the rows and columns are the positions of nested loops written one after the other."""
    sh = list_items(base.a[0])
    if sh is None or len(sh) != 2:
        return None
    chain = []
    while e.op == "for" and len(chain) < 6:
        i = fresh("i", ("scal",))
        b = open_(e.a[1], i)
        if b.op != "updlist" or len(b.a[0]) != 1:
            return None
        chain.append((i, e.a[0]))
        e = b.a[0][0]
    if e.op != "st" or e.a[0] != "set" or e.a[1].op != "ixs" or len(e.a[1].a[0]) != 2:
        return None
    p, q = e.a[1].a[0]

    def counted(loops, pos, total):
        if len(loops) == 1:
            return pos is loops[0][0] and total is loops[0][1]
        if len(loops) == 2:
            (i, n), (j, m) = loops
            lam = close(i, m)
            return pos is add(j, mk("psum", i, lam)) and total is mk("psum", n, lam)
        return False

    def nest(loops, v):
        for i, n in reversed(loops):
            v = mk("list", (mk("for", n, close(i, v)),))
        return v

    for k in range(1, len(chain)):
        rows, cols = chain[:k], chain[k:]
        if {i for i, _ in rows} & {x for _, n in cols for x in n.fs}:
            continue
        for r, c in ((rows, cols), (cols, rows)):
            if counted(r, p, sh[0]) and counted(c, q, sh[1]):
                return nest(r, mklist([nest(c, mklist([e.a[2]]))]))
    return None


def _rows(n, i, v, wrapped=False):
    """[v for i < n]; when v only looks at L[i] with n = len(L), iterate over L itself."""
    ls = {x.a[0] for x in tm.walk(v) if x.op == "index" and x.a[1] is i and x.a[0].op == "list" and i not in x.a[0].fs}
    if len(ls) == 1:
        l = next(iter(ls))
        s = fresh("e")
        w = tm.rewrite(v, lambda t: s if t.op == "index" and t.a[0] is l and t.a[1] is i else None)
        if length(l) is n and i not in w.fs:
            w = list_items(w)[0] if wrapped else w
            return CURRENT[0].lib.map_term(l, lambda y: subst(w, {s: y}))
    return mk("list", (mk("for", n, close(i, v if wrapped else mklist([v]))),))


tm.CONS["updlist"] = lambda ev: raw("updlist", tuple(ev))
tm.CONS["bm"] = lambda r, n: raw("bm", r, n)
# references take part in substitution like symbols
_raw0 = tm.raw
