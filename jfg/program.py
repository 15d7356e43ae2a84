"""Program model: modules, imports, classes, functions, annotations of the analysed repository."""

import ast
import os


class AnalysisError(Exception):
    """The analysis itself cannot proceed (missing anchor, unparsable source)."""


class Func:
    __slots__ = ("name", "qual", "node", "module", "cls", "decorators", "kind", "outer")

    def __init__(self, name, qual, node, module, cls=None, outer=None):
        self.name, self.qual, self.node, self.module, self.cls, self.outer = name, qual, node, module, cls, outer
        self.decorators = []
        self.kind = "function"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    __slots__ = ("name", "qual", "node", "module", "bases", "base_nodes", "methods", "fields", "assigns", "decorators", "_mro", "outer")

    def __repr__(self):
        return f"<Class {self.qual}>"


class Field:
    __slots__ = ("name", "annotation", "default", "static", "classvar", "cls", "node")

    def __init__(self, name, annotation, default, static, classvar, cls, node):
        self.name, self.annotation, self.default, self.static, self.classvar, self.cls, self.node = (
            name, annotation, default, static, classvar, cls, node)


class Module:
    __slots__ = ("name", "path", "rel", "tree", "names", "package", "source")


SKIP_DECOS = {"overrides.final", "overrides.overrides", "typing.final", "abc.abstractmethod", "typing.overload", "overrides.override"}


class Program:
    def read_only(self, mod, name):
        """A module-level table that is written in one piece and only ever read, by plain lookups and loops."""
        if (mod, name) not in self._read_only:
            self._read_only[mod, name] = all(self._reads_only(m.tree, name, m.name == mod) for m in self.modules.values())
        return self._read_only[mod, name]

    @staticmethod
    def _reads_only(tree, name, own):
        parents = {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}
        stores = 0
        for n in ast.walk(tree):
            if isinstance(n, ast.Global) and name in n.names:
                return False
            if isinstance(n, ast.alias) and n.name == name and n.asname not in (None, name):
                return False
            if not (isinstance(n, ast.Name) and n.id == name or isinstance(n, ast.Attribute) and n.attr == name):
                continue
            p = parents[n]
            if isinstance(n.ctx, ast.Store):
                stores += 1
                if stores > 1 or not own or not isinstance(parents.get(p), ast.Module):
                    return False
                continue
            if isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, ast.Load):
                continue
            if isinstance(p, ast.Attribute) and p.attr in ("get", "items", "keys", "values") and isinstance(parents[p], ast.Call) and parents[p].func is p:
                continue
            if isinstance(p, ast.Compare) and n in p.comparators or isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
                continue
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("len", "enumerate", "sorted", "list", "tuple", "set", "zip"):
                continue
            return False
        return True

    def __init__(self, root, packages=("jaxfg", "scripts"), overlay=None):
        self._read_only = {}
        self.root = root
        self.overlay = overlay or {}
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.errors = []
        for pkg in packages:
            base = os.path.join(root, pkg)
            if not os.path.isdir(base):
                if pkg == "jaxfg":
                    raise AnalysisError(f"package directory {pkg} is missing")
                continue
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if d != "__pycache__")
                for f in sorted(fn):
                    if f.endswith(".py"):
                        self._load(os.path.join(dp, f))
            for rel in sorted(self.overlay):
                if rel.startswith(pkg + os.sep) and not os.path.exists(os.path.join(root, rel)):
                    self._load(os.path.join(root, rel))
        for m in list(self.modules.values()):
            self._index(m)
        for c in list(self.classes.values()):
            self._link(c)
        self.subclasses = {}
        for c in self.classes.values():
            for b in self.mro(c)[1:]:
                if isinstance(b, Class):
                    self.subclasses.setdefault(b.qual, []).append(c)

    # -- loading

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, ".")
        ispkg = name.endswith(".__init__")
        if ispkg:
            name = name[: -len(".__init__")]
        m = Module()
        m.name, m.path, m.rel = name, path, rel
        if rel in self.overlay:
            m.source = self.overlay[rel]
        else:
            with open(path, encoding="utf-8") as f:
                m.source = f.read()
        try:
            m.tree = ast.parse(m.source, filename=path)
        except SyntaxError as e:
            raise AnalysisError(f"{rel}: cannot be parsed: {e}")
        m.names = {}
        m.package = name if ispkg else name.rpartition(".")[0]
        self.modules[name] = m

    def add_source(self, name, source):
        """Add a specification module written in the analysed language."""
        m = Module()
        m.name, m.path, m.rel, m.source = name, name, "<" + name + ">", source
        m.tree = ast.parse(source, filename=m.rel)
        m.names = {}
        m.package = name
        self.modules[name] = m
        self._index(m)
        for c in list(self.classes.values()):
            if c.module is m:
                self._link(c)
        return m

    def _index(self, m):
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for al in s.names:
                    if al.asname:
                        m.names[al.asname] = ("import", al.name)
                    else:
                        m.names[al.name.split(".")[0]] = ("import", al.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                if s.level:
                    parts = m.package.split(".")
                    base = ".".join(parts[: len(parts) - (s.level - 1)])
                    mod = base + ("." + s.module if s.module else "")
                else:
                    mod = s.module
                for al in s.names:
                    m.names[al.asname or al.name] = ("import", mod + "." + al.name)
            elif isinstance(s, ast.ClassDef):
                self._add_class(m, s, m.name + "." + s.name)
                m.names[s.name] = ("class", m.name + "." + s.name)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = m.name + "." + s.name
                self._add_func(m, s, q)
                m.names[s.name] = ("func", q)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("var", s.value)
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name):
                    if s.value is not None:
                        m.names[s.target.id] = ("var", s.value)
                    else:
                        m.names.setdefault(s.target.id, ("var", None))
            elif isinstance(s, ast.If):
                self._index_body(m, s.body)
                self._index_body(m, s.orelse)
            elif isinstance(s, ast.Try):
                self._index_body(m, s.body)
                for h in s.handlers:
                    pass

    def _add_func(self, m, node, qual, cls=None, outer=None):
        f = Func(node.name, qual, node, m, cls, outer)
        for d in node.decorator_list:
            f.decorators.append(self.dotted(m, d.func if isinstance(d, ast.Call) else d) or ast.dump(d))
        if "staticmethod" in f.decorators:
            f.kind = "static"
        elif "classmethod" in f.decorators:
            f.kind = "class"
        elif "property" in f.decorators or "functools.cached_property" in f.decorators:
            f.kind = "property"
        elif cls is not None:
            f.kind = "method"
        if node.name in ("__init_subclass__", "__class_getitem__") and cls is not None:
            f.kind = "class"
        self.funcs[qual] = f
        return f

    def _add_class(self, m, node, qual, outer=None):
        c = Class()
        c.name, c.qual, c.node, c.module, c.outer = node.name, qual, node, m, outer
        c.base_nodes = node.bases
        c.bases = []
        c.methods = {}
        c.fields = []
        c.assigns = {}
        c.decorators = []
        c._mro = None
        self.classes[qual] = c
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.methods[s.name] = self._add_func(m, s, qual + "." + s.name, c)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                ann, static, cv = s.annotation, False, False
                ann2 = ann
                if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                    try:
                        ann2 = ast.parse(ann.value, mode="eval").body
                    except SyntaxError:
                        pass
                if isinstance(ann2, ast.Subscript):
                    d = self.dotted_raw(ann2.value)
                    last = d.split(".")[-1] if d else ""
                    if last == "Static":
                        static = True
                    if last == "ClassVar":
                        cv = True
                if isinstance(s.value, ast.Call):
                    d = self.dotted_raw(s.value.func)
                    if d and d.split(".")[-1] in ("static_field", "deprecated_static_field"):
                        static = True
                c.fields.append(Field(s.target.id, ann, s.value, static, cv, c, s))
                if s.value is not None:
                    c.assigns[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        d = self._as_definition(m, node, t.id, s.value)
                        if d is not None:
                            c.methods[t.id] = self._add_func(m, d, qual + "." + t.id, c)
                        else:
                            c.assigns[t.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self._add_class(m, s, qual + "." + s.name)
        # nested classes inside functions are registered on demand (interp)
        return c

    def _as_definition(self, m, cls, name, value, decorators=()):
        """`name = staticmethod(lambda ...)`, `name = jit(function)`, `name = other` in a class body, as a definition."""
        if isinstance(value, ast.Lambda):
            body = [ast.copy_location(ast.Return(value.body), value)]
            d = ast.FunctionDef(name, value.args, body, list(decorators), None, None, [])
        elif isinstance(value, ast.Call) and len(value.args) == 1 and not value.keywords:
            return self._as_definition(m, cls, name, value.args[0], (*decorators, value.func))
        elif isinstance(value, ast.Name):
            source = next((s for s in cls.body if isinstance(s, ast.FunctionDef) and s.name == value.id), None)
            if source is None and decorators:
                source = next((s for s in m.tree.body if isinstance(s, ast.FunctionDef) and s.name == value.id), None)
            if source is None:
                return None
            d = ast.FunctionDef(name, source.args, source.body, list(decorators) + source.decorator_list, source.returns, None, [])
        else:
            return None
        return ast.fix_missing_locations(ast.copy_location(d, value))

    def _link(self, c):
        c.decorators = []
        for d in c.node.decorator_list:
            c.decorators.append(self.dotted(c.module, d.func if isinstance(d, ast.Call) else d) or "?")
        c.bases = []
        for b in c.base_nodes:
            n = b.value if isinstance(b, ast.Subscript) else b
            r = self.resolve_node(c.module, n)
            if r and r[0] == "class":
                c.bases.append(self.classes[r[1]])
            elif r and r[0] == "ext":
                c.bases.append(r[1])
            else:
                c.bases.append("?" + ast.unparse(n))

    # -- names

    def dotted_raw(self, node):
        if isinstance(node, ast.Name):
            return node.id
        if isinstance(node, ast.Attribute):
            b = self.dotted_raw(node.value)
            return b + "." + node.attr if b else None
        return None

    def dotted(self, m, node):
        """Fully resolved dotted name of an expression naming a module-level thing, or None."""
        r = self.resolve_node(m, node)
        if r is None:
            return self.dotted_raw(node)
        return r[1] if isinstance(r[1], str) else None

    def resolve_name(self, m, name, seen=None):
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        b = m.names.get(name)
        if b is None:
            # a submodule of a package
            sub = m.name + "." + name
            if sub in self.modules:
                return ("module", sub)
            return None
        kind, v = b
        if kind in ("class", "func"):
            return (kind, v)
        if kind == "var":
            return ("var", (m.name, name))
        return self.resolve_dotted(v, seen)

    def resolve_dotted(self, dotted, seen=None):
        if dotted in self.modules:
            return ("module", dotted)
        head, _, tail = dotted.rpartition(".")
        if head in self.modules:
            return self.resolve_name(self.modules[head], tail, seen)
        # module.attr.attr chains
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            h = ".".join(parts[:i])
            if h in self.modules:
                r = ("module", h)
                for p in parts[i:]:
                    r = self.resolve_attr(r, p)
                    if r is None:
                        return None
                return r
        return ("ext", canonical_ext(dotted))

    def resolve_attr(self, r, attr):
        if r is None:
            return None
        if r[0] == "module":
            return self.resolve_name(self.modules[r[1]], attr)
        if r[0] == "ext":
            return ("ext", canonical_ext(r[1] + "." + attr))
        if r[0] == "class":
            c = self.classes[r[1]]
            if c.qual + "." + attr in self.classes:
                return ("class", c.qual + "." + attr)
        return None

    def resolve_node(self, m, node):
        if isinstance(node, ast.Name):
            r = self.resolve_name(m, node.id)
            return r
        if isinstance(node, ast.Attribute):
            return self.resolve_attr(self.resolve_node(m, node.value), node.attr)
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.resolve_node(m, ast.parse(node.value, mode="eval").body)
            except SyntaxError:
                return None
        return None

    # -- classes

    def mro(self, c):
        if c._mro is not None:
            return c._mro
        seqs = []
        for b in c.bases:
            if isinstance(b, Class):
                seqs.append(list(self.mro(b)))
            else:
                seqs.append([b])
        seqs.append(list(c.bases))
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] is h or (s and s[0] == h):
                    del s[0]
        c._mro = out
        return out

    def find_method(self, c, name):
        for b in self.mro(c):
            if isinstance(b, Class) and name in b.methods:
                return b.methods[name]
        return None

    def is_leaf(self, c):
        """No class of the program extends it."""
        return not any(d is not c and c in self.mro(d) for d in self.classes.values())

    def is_concrete(self, c):
        """No abstract method is left."""
        for b in self.mro(c):
            if isinstance(b, Class):
                for n in b.methods:
                    f = self.find_method(c, n)
                    if "abc.abstractmethod" in f.decorators:
                        return False
        return True

    def is_subclass(self, c, d):
        """d: Class or external dotted name."""
        return d in self.mro(c)

    def all_fields(self, c):
        """Dataclass fields in constructor order."""
        out = {}
        for b in reversed(self.mro(c)):
            if isinstance(b, Class) and (self.is_dataclass_own(b) or self.is_namedtuple(b)):
                for f in b.fields:
                    if f.classvar:
                        continue
                    out[f.name] = f
        return list(out.values())

    def is_dataclass_own(self, c):
        return any(d.endswith("dataclass") for d in c.decorators)

    def is_dataclass(self, c):
        return any(isinstance(b, Class) and self.is_dataclass_own(b) for b in self.mro(c))

    def is_namedtuple(self, c):
        return any(b == "typing.NamedTuple" for b in c.bases)

    def find_field(self, c, name):
        for b in self.mro(c):
            if isinstance(b, Class):
                for f in b.fields:
                    if f.name == name:
                        return f
        return None

    def is_overridden(self, f):
        """Does any repository subclass redefine this method?"""
        if f.cls is None:
            return False
        return any(f.name in s.methods for s in self.subclasses.get(f.cls.qual, []))

    def public_class(self, dotted):
        r = self.resolve_dotted(dotted)
        if not r or r[0] != "class":
            raise AnalysisError(f"anchor class {dotted} not found")
        return self.classes[r[1]]


ALIASES = {
    "jax.experimental.host_callback": "jax.experimental.host_callback",
    "collections.defaultdict": "collections.defaultdict",
    "typing.DefaultDict": "collections.defaultdict",
    "typing.OrderedDict": "collections.OrderedDict",
    "jax.tree_map": "jax.tree_map",
    "jax.tree_util.tree_map": "jax.tree_map",
    "jax.tree.map": "jax.tree_map",
    "jax.tree_util.tree_leaves": "jax.tree_leaves",
    "jax.tree.leaves": "jax.tree_leaves",
    "jax.tree_util.tree_structure": "jax.tree_structure",
    "jax.tree.structure": "jax.tree_structure",
    "jax.tree_util.tree_flatten": "jax.tree_flatten",
    "jax.tree.flatten": "jax.tree_flatten",
    "jax.tree_util.tree_unflatten": "jax.tree_unflatten",
    "jax.tree.unflatten": "jax.tree_unflatten",
    "typing.final": "overrides.final",
    "dataclasses.replace": "jax_dataclasses.replace",
    "jax_dataclasses.replace": "jax_dataclasses.replace",
    "jax.Array": "jax.Array",
    "jaxlie.manifold._deltas.rplus": "jaxlie.manifold.rplus",
}


def canonical_ext(d):
    return ALIASES.get(d, d)
