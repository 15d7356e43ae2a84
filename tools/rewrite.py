"""Mechanical behaviour-preserving rewrites of the sources, one place at a time, analysed in memory: nothing may be reported.

rewrite.py [--root /repo] [--only path-substring] [--kind name] [--sample N] [--out file]
"""

import argparse
import ast
import copy
import multiprocessing
import os
import pickle
import random
import signal
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.setrecursionlimit(20000)

from mutate import diff  # noqa: E402

HAS_JNP = lambda src: " as jnp\n" in src  # noqa: E731
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
COMPS = (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)


class Tree:
    def __init__(self, src):
        self.src = src
        self.tree = ast.parse(src)
        self.nodes = list(ast.walk(self.tree))
        self.parent, self.field = {}, {}
        for n in self.nodes:
            for f, v in ast.iter_fields(n):
                for k, x in enumerate(v if isinstance(v, list) else [v]):
                    if isinstance(x, ast.AST) and not isinstance(x, (ast.Load, ast.Store, ast.Del)):
                        self.parent[id(x)] = n
                        self.field[id(x)] = (f, k if isinstance(v, list) else None)
        self.skip = set()
        for n in self.nodes:
            for a in ("annotation", "returns"):
                x = getattr(n, a, None)
                if isinstance(x, ast.AST):
                    self.skip |= {id(y) for y in ast.walk(x)}
            if isinstance(n, FUNCS):
                for d in n.decorator_list:
                    self.skip |= {id(y) for y in ast.walk(d)}
            if isinstance(n, ast.JoinedStr):
                self.skip |= {id(y) for y in ast.walk(n)}
            if isinstance(n, ast.ClassDef):
                for b in n.bases + n.decorator_list:
                    self.skip |= {id(y) for y in ast.walk(b)}
            if isinstance(n, ast.Assert) and n.msg is not None:
                self.skip |= {id(y) for y in ast.walk(n.msg)}

    def new(self, name):
        while name in self.src:
            name += "_"
        return name

    def up(self, n):
        return self.parent.get(id(n))

    def chain(self, n):
        while n is not None:
            yield n
            n = self.up(n)

    def func(self, n):
        return next((x for x in self.chain(self.up(n)) if isinstance(x, FUNCS)), None)

    def replace(self, old, new):
        p = self.up(old)
        f, k = self.field[id(old)]
        if k is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[getattr(p, f).index(old)] = new

    def block(self, st):
        """The statement list containing a statement."""
        p = self.up(st)
        f, k = self.field[id(st)]
        return getattr(p, f)

    def stmt(self, n):
        return next(x for x in self.chain(n) if isinstance(x, ast.stmt))

    def hoistable(self, n):
        """Evaluated once, unconditionally, whenever its statement is."""
        st = self.stmt(n)
        if not isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Return, ast.Expr, ast.Assert)) or self.func(st) is None:
            return False
        x = n
        while x is not st:
            p = self.up(x)
            if isinstance(p, (ast.Lambda, ast.IfExp, ast.BoolOp, ast.NamedExpr, ast.Starred, ast.keyword)) and not isinstance(p, ast.keyword):
                return False
            if isinstance(p, COMPS) or isinstance(p, ast.comprehension):
                return False
            if isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and self.field[id(x)][0] in ("targets", "target", "annotation"):
                return False
            x = p
        return True


def names_stored(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def names_loaded(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])]


def load(x):
    return ast.Name(x, ast.Load())


def store(x):
    return ast.Name(x, ast.Store())


def sites(src):
    """Yield (kind, line, thunk) where thunk(fresh Tree) edits it; nodes are addressed by their walk index."""
    t = Tree(src)
    idx = {id(n): k for k, n in enumerate(t.nodes)}

    def at(n):
        k = idx[id(n)]
        return lambda tr: tr.nodes[k]

    for n in t.nodes:
        if id(n) in t.skip:
            continue
        g = at(n)
        line = getattr(n, "lineno", 0)
        f = t.func(n)

        # ---- functions
        if isinstance(n, FUNCS):
            own = [x for x in ast.walk(n)]
            ps = params(n)
            inner = {p for x in own if isinstance(x, FUNCS + (ast.Lambda,)) and x is not n for p in params(x)}
            outer = set()
            local = {x.id for x in own if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - set(ps) - inner
            declared = {y for x in own if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
            if f is not None:
                outer = names_stored(f) | set(params(f))
            nested_names = {x.name for x in own if isinstance(x, FUNCS + (ast.ClassDef,)) and x is not n and not isinstance(t.up(x), ast.ClassDef)}
            if t.func(n) is None:
                for v in sorted(local - declared):

                    def ren(tr, g=g, v=v):
                        for x in ast.walk(g(tr)):
                            if isinstance(x, ast.Name) and x.id == v:
                                x.id = v + "_r"

                    yield f"rename-local {v}", line, ren
                for v in sorted(nested_names):

                    def renf(tr, g=g, v=v):
                        for x in ast.walk(g(tr)):
                            if isinstance(x, ast.Name) and x.id == v:
                                x.id = v + "_r"
                            if isinstance(x, FUNCS + (ast.ClassDef,)) and x.name == v:
                                x.name = v + "_r"

                    yield f"rename-nested {v}", line, renf
            if f is not None and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == n.name and x.keywords for x in t.nodes) and not isinstance(t.up(n), ast.ClassDef):
                for v in ps:

                    def renp(tr, g=g, v=v):
                        for x in ast.walk(g(tr)):
                            if isinstance(x, ast.Name) and x.id == v:
                                x.id = v + "_r"
                            if isinstance(x, ast.arg) and x.arg == v:
                                x.arg = v + "_r"

                    if v not in inner:
                        yield f"rename-parameter {v}", line, renp
            # alias parameters
            reassigned = names_stored(n)
            plain = [p for p in ps if p not in reassigned and p not in inner]
            body0 = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            uses_super = any(isinstance(x, ast.Name) and x.id in ("super", "__class__", "globals", "locals") for x in own)
            abstract = any(isinstance(d, ast.Attribute) and d.attr == "abstractmethod" for d in n.decorator_list) or not body0 or (len(body0) == 1 and isinstance(body0[0], ast.Pass))
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own)
            if not abstract and not gen:
                for p in plain:

                    def alias(tr, g=g, p=p):
                        fn = g(tr)
                        for st in fn.body:
                            for x in ast.walk(st):
                                if isinstance(x, ast.Name) and x.id == p:
                                    x.id = p + "_alias"
                        k = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
                        fn.body.insert(k, ast.Assign([store(p + "_alias")], load(p)))

                    if not uses_super:
                        yield f"alias-param {p}", line, alias
                if not uses_super and not declared:

                    def nest(tr, g=g):
                        fn = g(tr)
                        k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
                        inner_fn = ast.FunctionDef("_inner", ast.arguments([], [], None, [], [], None, []), fn.body[k:], [], None)
                        fn.body = fn.body[:k] + [inner_fn, ast.Return(ast.Call(load("_inner"), [], []))]

                    if not (set(ps) & reassigned):
                        yield f"nest-body {n.name}", line, nest
                    if t.func(n) is None and not n.args.vararg and not n.args.kwarg:

                        def split(tr, g=g):
                            fn = g(tr)
                            k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
                            a = copy.deepcopy(fn.args)
                            a.defaults, a.kw_defaults = [], [None for _ in a.kwonlyargs]
                            helper = ast.FunctionDef(tr.new("_impl_of_" + fn.name.strip("_")), a, fn.body[k:], [], None)
                            call = ast.Call(load(helper.name), [load(x.arg) for x in a.posonlyargs + a.args], [ast.keyword(x.arg, load(x.arg)) for x in a.kwonlyargs])
                            fn.body = fn.body[:k] + [ast.Return(call)]
                            top = next(x for x in tr.chain(fn) if isinstance(tr.up(x), ast.Module))
                            top = next((c for c in tr.tree.body if c is top))
                            for x in a.posonlyargs + a.args + a.kwonlyargs:
                                x.annotation = None
                            tr.tree.body.insert(tr.tree.body.index(top), helper)

                        in_class = any(isinstance(x, ast.ClassDef) for x in t.chain(t.up(n)))
                        yield f"split-body {n.name}", line, split
                        if in_class and not any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property") or isinstance(d, ast.Attribute) and d.attr in ("lru_cache",) or isinstance(d, ast.Call) for d in n.decorator_list) and not n.name.startswith("__"):

                            def method(tr, g=g):
                                fn = g(tr)
                                k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
                                a = copy.deepcopy(fn.args)
                                a.defaults, a.kw_defaults = [], [None for _ in a.kwonlyargs]
                                helper = ast.FunctionDef(tr.new("_do_" + fn.name.strip("_")), a, fn.body[k:], [], copy.deepcopy(fn.returns))
                                call = ast.Call(ast.Attribute(load(a.args[0].arg), helper.name, ast.Load()), [load(x.arg) for x in a.args[1:]], [ast.keyword(x.arg, load(x.arg)) for x in a.kwonlyargs])
                                fn.body = fn.body[:k] + [ast.Return(call)]
                                blk = tr.block(fn)
                                blk.insert(blk.index(fn) + 1, helper)

                            yield f"split-method {n.name}", line, method
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and len(n.body) > 1:
                yield f"drop-docstring {n.name}", line, lambda tr, g=g: g(tr).body.pop(0)
            has_static = any(isinstance(x, ast.Attribute) and x.attr == "Static" for a in n.args.args if a.annotation is not None for x in ast.walk(a.annotation))
            if not has_static and n.name not in ("compute_residual_vector",) and any(a.annotation is not None for a in n.args.args):

                def strip(tr, g=g):
                    fn = g(tr)
                    for a in fn.args.args + fn.args.kwonlyargs:
                        a.annotation = None
                    fn.returns = None

                yield f"drop-annotations {n.name}", line, strip

        # ---- blocks
        if isinstance(n, ast.stmt) and f is not None:
            blk = t.block(n)
            k = next(i for i, x in enumerate(blk) if x is n)
            nxt = blk[k + 1] if k + 1 < len(blk) else None
            if isinstance(n, ast.Assign) and isinstance(nxt, ast.Assign) and all(isinstance(y, ast.Name) for x in (n, nxt) for y in x.targets):
                if not (names_stored(n) & (names_loaded(nxt) | names_stored(nxt))) and not (names_stored(nxt) & names_loaded(n)):

                    def swap(tr, g=g, k=k):
                        b = tr.block(g(tr))
                        b[k], b[k + 1] = b[k + 1], b[k]

                    yield "swap-statements", line, swap
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and nxt is not None and not isinstance(n.value, (ast.List, ast.Dict, ast.Set)):
                v = n.targets[0].id
                uses = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == v]
                loads = [x for x in uses if isinstance(x.ctx, ast.Load)]
                if len(uses) == 2 and len(loads) == 1 and t.stmt(loads[0]) is nxt and t.hoistable(loads[0]):

                    def inline(tr, g=g, v=v, u=at(loads[0])):
                        st = g(tr)
                        tr.replace(u(tr), st.value)
                        tr.block(st).remove(st)

                    yield f"inline {v}", line, inline
            if isinstance(n, ast.If):
                if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):

                    def flip(tr, g=g):
                        x = g(tr)
                        x.test = ast.UnaryOp(ast.Not(), x.test)
                        x.body, x.orelse = x.orelse, x.body

                    yield "flip-if", line, flip
                if not n.orelse and isinstance(n.body[-1], (ast.Return, ast.Raise, ast.Continue)) and nxt is not None:

                    def els(tr, g=g):
                        x = g(tr)
                        b = tr.block(x)
                        i = b.index(x)
                        x.orelse = b[i + 1 :]
                        del b[i + 1 :]

                    yield "else-after-return", line, els
            if isinstance(n, ast.Assert):

                def rai(tr, g=g):
                    x = g(tr)
                    tr.replace(x, ast.If(ast.UnaryOp(ast.Not(), x.test), [ast.Raise(ast.Call(load("AssertionError"), [x.msg] if x.msg else [], []), None)], []))

                if not (isinstance(n.test, ast.Constant)):
                    yield "assert-raise", line, rai
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):

                def unann(tr, g=g):
                    x = g(tr)
                    tr.replace(x, ast.Assign([x.target], x.value) if x.value is not None else ast.Pass())

                yield "drop-annotation", line, unann
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):

                def unaug(tr, g=g):
                    x = g(tr)
                    tr.replace(x, ast.Assign([x.target], ast.BinOp(load(x.target.id), x.op, x.value)))

                yield "plain-assign", line, unaug
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and not isinstance(n.value, (ast.Tuple, ast.Call)) or isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call) and not (isinstance(n.value.func, ast.Name) and n.value.func.id in ("map", "zip", "filter")):
                if all(isinstance(x, ast.Name) for x in n.targets[0].elts) and not (isinstance(n.value, ast.Name) and n.value.id == "parts"):

                    def unpack(tr, g=g):
                        x = g(tr)
                        b = tr.block(x)
                        i = b.index(x)
                        b[i : i + 1] = [ast.Assign([store("unpacked")], x.value)] + [ast.Assign([e], ast.Subscript(load("unpacked"), ast.Constant(j), ast.Load())) for j, e in enumerate(x.targets[0].elts)]

                    yield "unpack-by-index", line, unpack
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate" and len(n.iter.args) == 1 and not any(isinstance(x, ast.Continue) for x in ast.walk(n)) and isinstance(n.target.elts[0], ast.Name):

                def counter(tr, g=g):
                    x = g(tr)
                    b = tr.block(x)
                    i = b.index(x)
                    c = x.target.elts[0].id
                    x.target, x.iter = x.target.elts[1], x.iter.args[0]
                    x.body.append(ast.AugAssign(store(c), ast.Add(), ast.Constant(1)))
                    b.insert(i, ast.Assign([store(c)], ast.Constant(0)))

                yield "manual-counter", line, counter
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "items" and isinstance(n.target, ast.Tuple):

                def by_key(tr, g=g):
                    x = g(tr)
                    k2, v2 = x.target.elts
                    d = x.iter.func.value
                    x.target, x.iter = k2, d
                    x.body.insert(0, ast.Assign([v2], ast.Subscript(copy.deepcopy(d), load(k2.id), ast.Load())))

                yield "keys-then-lookup", line, by_key
            if isinstance(n, ast.Assign) and isinstance(nxt, ast.Assign) and all(len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (n, nxt)) and not (names_stored(n) & names_loaded(nxt)) and names_stored(n) != names_stored(nxt):

                def pair(tr, g=g, k=k):
                    b = tr.block(g(tr))
                    x, y = b[k], b[k + 1]
                    b[k : k + 2] = [ast.Assign([ast.Tuple([x.targets[0], y.targets[0]], ast.Store())], ast.Tuple([x.value, y.value], ast.Load()))]

                yield "tuple-assign", line, pair
            if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.Return) and isinstance(nxt, ast.Return) and n.body[0].value is not None and nxt.value is not None:

                def single(tr, g=g, k=k):
                    b = tr.block(g(tr))
                    x, y = b[k], b[k + 1]
                    b[k : k + 2] = [ast.Return(ast.IfExp(x.test, x.body[0].value, y.value))]

                yield "single-return", line, single
            if isinstance(n, ast.Assert) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):

                def asserts(tr, g=g):
                    x = g(tr)
                    b = tr.block(x)
                    i = b.index(x)
                    b[i : i + 1] = [ast.Assert(v, x.msg) for v in x.test.values]

                yield "split-assert", line, asserts
            if isinstance(n, ast.Assert) and isinstance(nxt, ast.Assert):

                def both(tr, g=g, k=k):
                    b = tr.block(g(tr))
                    x, y = b[k], b[k + 1]
                    b[k : k + 2] = [ast.Assert(ast.BoolOp(ast.And(), [x.test, y.test]), x.msg)]

                yield "join-asserts", line, both
            if not isinstance(n, (ast.FunctionDef, ast.Nonlocal, ast.Global)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                yield "try-finally", line, lambda tr, g=g: tr.replace(g(tr), ast.Try([g(tr)], [], [], [ast.Pass()]))
            # conditional expressions to statements
            if isinstance(n, (ast.Assign, ast.Return)) and isinstance(n.value, ast.IfExp):

                def tern(tr, g=g):
                    x = g(tr)
                    e = x.value
                    a, b2 = copy.deepcopy(x), copy.deepcopy(x)
                    a.value, b2.value = e.body, e.orelse
                    tr.replace(x, ast.If(e.test, [a], [b2]))

                yield "conditional-statement", line, tern

        # ---- expressions
        if isinstance(n, ast.expr) and f is not None and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            p = t.up(n)
            if isinstance(n, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript, ast.Compare, ast.Tuple, ast.UnaryOp, ast.IfExp, ast.Lambda, ast.List) + COMPS) and t.hoistable(n):
                st = t.stmt(n)
                bare = isinstance(st, ast.Expr) and st.value is n
                called = isinstance(p, ast.Call) and p.func is n
                if not bare and not (called and isinstance(n, ast.Attribute) and n.attr in ("append", "extend", "set", "add")) and not (isinstance(n, ast.Attribute) and n.attr == "at") and not isinstance(n, ast.Starred) and not isinstance(n, ast.GeneratorExp):

                    def hoist(tr, g=g):
                        x = g(tr)
                        st = tr.stmt(x)
                        b = tr.block(st)
                        tr.replace(x, load("hoisted"))
                        b.insert(b.index(st), ast.Assign([store("hoisted")], x))

                    if not (isinstance(p, ast.Subscript) and p.slice is n and any(isinstance(y, ast.Slice) for y in ast.walk(n))):
                        yield "hoist", line, hoist
            if isinstance(n, COMPS) and not isinstance(n, ast.SetComp) and t.hoistable(n) and len(n.generators) == 1:

                def loop(tr, g=g):
                    x = g(tr)
                    st = tr.stmt(x)
                    b = tr.block(st)
                    gen = x.generators[0]
                    m = {y: y + "_c" for y in names_stored(gen.target)}
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and y.id in m:
                            y.id = m[y.id]
                    if isinstance(x, ast.DictComp):
                        init, body = ast.Dict([], []), ast.Assign([ast.Subscript(load("built"), x.key, ast.Store())], x.value)
                    else:
                        init, body = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(load("built"), "append", ast.Load()), [x.elt], []))
                    for c in reversed(gen.ifs):
                        body = ast.If(c, [body], [])
                    tr.replace(x, load("built"))
                    i = b.index(st)
                    b[i:i] = [ast.Assign([store("built")], init), ast.For(gen.target, gen.iter, [body], [])]

                yield "comprehension-loop", line, loop
            if isinstance(n, ast.GeneratorExp) and isinstance(p, ast.Call):
                yield "generator-list", line, lambda tr, g=g: tr.replace(g(tr), ast.ListComp(g(tr).elt, g(tr).generators))
            if isinstance(n, ast.IfExp):

                def swap_if(tr, g=g):
                    x = g(tr)
                    x.test, x.body, x.orelse = ast.UnaryOp(ast.Not(), x.test), x.orelse, x.body

                yield "flip-conditional", line, swap_if
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot}.get(type(n.ops[0]))
                if fl is not None:

                    def cmp(tr, g=g, fl=fl):
                        x = g(tr)
                        x.left, x.comparators, x.ops = x.comparators[0], [x.left], [fl()]

                    yield "flip-comparison", line, cmp
            if isinstance(n, ast.BinOp):
                seqs = (ast.List, ast.Tuple, ast.ListComp, ast.JoinedStr)
                textual = any(isinstance(x, seqs) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right))
                if isinstance(n.op, ast.Add) and not textual or isinstance(n.op, ast.Mult):

                    def comm(tr, g=g):
                        x = g(tr)
                        x.left, x.right = x.right, x.left

                    yield "commute", line, comm
                if isinstance(n.op, ast.Sub):
                    yield "negated-difference", line, lambda tr, g=g: tr.replace(g(tr), ast.UnaryOp(ast.USub(), ast.BinOp(g(tr).right, ast.Sub(), g(tr).left)))
                    yield "plus-negative", line, lambda tr, g=g: tr.replace(g(tr), ast.BinOp(ast.UnaryOp(ast.USub(), g(tr).right), ast.Add(), g(tr).left))
                if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2:
                    yield "square-product", line, lambda tr, g=g: tr.replace(g(tr), ast.BinOp(g(tr).left, ast.Mult(), copy.deepcopy(g(tr).left)))
                    if HAS_JNP(src):
                        yield "square-call", line, lambda tr, g=g: tr.replace(g(tr), ast.Call(ast.Attribute(load("jnp"), "square", ast.Load()), [g(tr).left], []))
                if isinstance(n.op, ast.Div):
                    yield "times-reciprocal", line, lambda tr, g=g: tr.replace(g(tr), ast.BinOp(g(tr).left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), g(tr).right)))
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                base = n.func.value.id if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) else None
                if len(n.keywords) > 1 and all(k.arg for k in n.keywords):
                    yield "reverse-keywords", line, lambda tr, g=g: g(tr).keywords.reverse()
                if nm in SIGNATURES and n.keywords and not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
                    order = SIGNATURES[nm][len(n.args):]
                    kws = [k.arg for k in n.keywords]
                    if order and set(kws) == set(order[: len(kws)]):

                        def positional(tr, g=g, order=order):
                            x = g(tr)
                            d = {k.arg: k.value for k in x.keywords}
                            x.args += [d[o] for o in order if o in d]
                            x.keywords = []

                        yield f"positional {nm}", line, positional
                if nm in SIGNATURES and n.args and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(SIGNATURES[nm]):

                    def named(tr, g=g, order=SIGNATURES[nm]):
                        x = g(tr)
                        x.keywords = [ast.keyword(o, v) for o, v in zip(order, x.args)] + x.keywords
                        x.args = []

                    if not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in CLASSES and nm not in STATIC):
                        yield f"named {nm}", line, named
                if base in ("jnp", "onp") and nm in ("sum", "max", "prod", "any", "all", "mean", "min") and n.args and not isinstance(n.args[0], ast.Starred):

                    def as_method(tr, g=g):
                        x = g(tr)
                        x.func = ast.Attribute(x.args.pop(0), x.func.attr, ast.Load())

                    if not isinstance(n.args[0], (ast.List, ast.Tuple)):
                        yield f"method {nm}", line, as_method
                if isinstance(n.func, ast.Attribute) and nm in ("reshape", "flatten", "sum") and base not in ("jnp", "onp") and HAS_JNP(src) and "self" != base:
                    mod = "onp" if "onp" in names_loaded(n) else "jnp"

                    def as_function(tr, g=g, nm=nm, mod=mod):
                        x = g(tr)
                        x.args.insert(0, x.func.value)
                        x.func = ast.Attribute(load(mod), {"flatten": "ravel"}.get(nm, nm), ast.Load())

                    if not (nm == "flatten" and (n.args or n.keywords)):
                        yield f"function {nm}", line, as_function
                        if nm == "flatten":

                            def rs(tr, g=g):
                                x = g(tr)
                                x.func.attr = "reshape"
                                x.args = [ast.UnaryOp(ast.USub(), ast.Constant(1))]

                            yield "flatten-reshape", line, rs
                if isinstance(n.func, ast.Name) and nm == "type" and len(n.args) == 1:
                    yield "class-attribute", line, lambda tr, g=g: tr.replace(g(tr), ast.Attribute(g(tr).args[0], "__class__", ast.Load()))
                if base in ("jnp", "onp") and nm in ("concatenate", "stack") and any(k.arg == "axis" and isinstance(k.value, ast.Constant) and k.value.value == 0 for k in n.keywords):

                    def noaxis(tr, g=g):
                        x = g(tr)
                        x.keywords = [k for k in x.keywords if k.arg != "axis"]

                    yield "default-axis", line, noaxis
                if nm == "partial" and base == "functools" and n.args:

                    def lam(tr, g=g):
                        x = g(tr)
                        a = ast.arguments([], [], ast.arg("rest"), [], [], ast.arg("named"), [])
                        tr.replace(x, ast.Lambda(a, ast.Call(x.args[0], x.args[1:] + [ast.Starred(load("rest"), ast.Load())], x.keywords + [ast.keyword(None, load("named"))])))

                    yield "partial-lambda", line, lam
                if nm in FIELDS and n.keywords and not n.args and all(k.arg for k in n.keywords):
                    order = FIELDS[nm]
                    kws = [k.arg for k in n.keywords]
                    if set(kws) == set(order[: len(kws)]):

                        def fields(tr, g=g, order=order):
                            x = g(tr)
                            d = {k.arg: k.value for k in x.keywords}
                            x.args = [d[o] for o in order if o in d]
                            x.keywords = []

                        yield f"positional-fields {nm}", line, fields
                if isinstance(n.func, ast.Name) and nm in ("list", "tuple") and len(n.args) == 1 and not n.keywords:
                    yield "star-display", line, lambda tr, g=g, nm=nm: tr.replace(g(tr), (ast.List if nm == "list" else ast.Tuple)([ast.Starred(g(tr).args[0], ast.Load())], ast.Load()))
                if base == "jax" and nm in ("vmap", "jit", "jacfwd", "jacrev", "grad") and n.args and not isinstance(n.args[0], ast.Lambda) or nm in ("tree_map", "while_loop", "fori_loop", "cond", "scan") and n.args:
                    for j, arg in enumerate(n.args if not n.keywords and not (isinstance(p, ast.Call) and p.keywords) else ()):
                        if isinstance(arg, (ast.Name, ast.Attribute)) and (j == 0 or nm != "tree_map" and j < 3):

                            def wrap(tr, g=g, j=j):
                                x = g(tr)
                                a = ast.arguments([], [], ast.arg("rest"), [], [], None, [])
                                x.args[j] = ast.Lambda(a, ast.Call(x.args[j], [ast.Starred(load("rest"), ast.Load())], []))

                            if isinstance(arg, ast.Attribute) or any(isinstance(y, FUNCS) and y.name == arg.id for y in t.nodes):
                                yield "wrap-function", line, wrap
                if isinstance(n.func, ast.Attribute) and base in ("onp", "jnp") and nm in ("zeros", "ones") and n.args and not isinstance(n.args[0], (ast.Tuple, ast.Name)):
                    pass
            if isinstance(n, ast.DictComp) and len(n.generators) == 1:
                yield "dict-call", line, lambda tr, g=g: tr.replace(g(tr), ast.Call(load("dict"), [ast.GeneratorExp(ast.Tuple([g(tr).key, g(tr).value], ast.Load()), g(tr).generators)], []))
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and not isinstance(p, ast.Subscript):

                def constant(tr, g=g):
                    x = g(tr)
                    tr.replace(x, load("_CONSTANT"))
                    k = next(i for i, s in enumerate(tr.tree.body) if not isinstance(s, (ast.Import, ast.ImportFrom, ast.Expr, ast.If)))
                    tr.tree.body.insert(k, ast.Assign([store("_CONSTANT")], ast.Constant(x.value)))

                yield "module-constant", line, constant
            if isinstance(n, ast.Constant) and n.value is None and isinstance(p, (ast.Tuple,)) and isinstance(t.up(p), ast.Subscript) and HAS_JNP(src):
                yield "newaxis", line, lambda tr, g=g: tr.replace(g(tr), ast.Attribute(load("jnp"), "newaxis", ast.Load()))
            if isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.value, (ast.Name, ast.Attribute)) and HAS_JNP(src) and "J" not in ast.unparse(n.value) and "A" not in ast.unparse(n.value):
                yield "transpose-call", line, lambda tr, g=g: tr.replace(g(tr), ast.Call(ast.Attribute(load("jnp"), "transpose", ast.Load()), [g(tr).value], []))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and isinstance(n.operand, ast.BoolOp):

                def morgan(tr, g=g):
                    x = g(tr)
                    o = ast.Or() if isinstance(x.operand.op, ast.And) else ast.And()
                    tr.replace(x, ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in x.operand.values]))

                yield "de-morgan", line, morgan
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn):
                neg = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}[type(n.ops[0])]
                if isinstance(p, (ast.Assert, ast.If, ast.IfExp, ast.BoolOp)):
                    yield "negated-comparison", line, lambda tr, g=g, neg=neg: tr.replace(g(tr), ast.UnaryOp(ast.Not(), ast.Compare(g(tr).left, [neg()], g(tr).comparators)))
            if isinstance(n, ast.Lambda) and t.hoistable(n):

                def named_def(tr, g=g):
                    x = g(tr)
                    st = tr.stmt(x)
                    b = tr.block(st)
                    tr.replace(x, load("named"))
                    b.insert(b.index(st), ast.FunctionDef("named", x.args, [ast.Return(x.body)], [], None))

                yield "lambda-def", line, named_def
            if isinstance(n, ast.Lambda) and not (isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == "_hcb_print"):

                def lam_args(tr, g=g):
                    x = g(tr)
                    m = {q: q + "_l" for q in params(x)}
                    for y in ast.walk(x):
                        if isinstance(y, ast.arg) and y.arg in m:
                            y.arg = m[y.arg]
                        if isinstance(y, ast.Name) and y.id in m:
                            y.id = m[y.id]

                if params(n):
                    yield "rename-lambda", line, lam_args
            if isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.value, ast.Name):
                pass
        if isinstance(n, ast.ClassDef):
            ms = [x for x in n.body if isinstance(x, FUNCS)]
            if len(ms) > 1:

                def rev(tr, g=g):
                    c = g(tr)
                    m = [x for x in c.body if isinstance(x, FUNCS)]
                    r = [x for x in c.body if not isinstance(x, FUNCS)]
                    c.body = r + m[::-1]

                yield f"reverse-methods {n.name}", line, rev
        if isinstance(n, ast.ImportFrom) and n.module == "jax" and any(a.name == "numpy" for a in n.names):

            def imp(tr, g=g):
                x = g(tr)
                al = next(a for a in x.names if a.name == "numpy")
                x.names = [a for a in x.names if a is not al]
                b = tr.tree.body
                i = b.index(x)
                new = ast.Import([ast.alias("jax.numpy", al.asname)])
                b[i : i + 1] = ([x] if x.names else []) + [new]

            yield "import-module", line, imp
    for al in ("jnp", "onp", "jdc", "hcb"):
        if any(isinstance(x, ast.alias) and x.asname == al for x in t.nodes):

            def realias(tr, al=al):
                for x in tr.nodes:
                    if isinstance(x, ast.alias) and x.asname == al:
                        x.asname = al + "_m"
                    if isinstance(x, ast.Name) and x.id == al:
                        x.id = al + "_m"

            if '["' + al not in src:
                yield f"realias {al}", 0, realias


SIGNATURES, CLASSES, STATIC, FIELDS = {}, set(), set(), {}


def signatures(sources):
    """Parameter names of repository functions whose name is defined with one signature only."""
    seen = {}
    for src in sources.values():
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.ClassDef):
                CLASSES.add(n.name)
                if any("dataclass" in ast.dump(d) for d in n.decorator_list) and all(isinstance(b, ast.Name) and b.id in ("object",) for b in n.bases):
                    fs = [(m.target.id, m) for m in n.body if isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name) and "ClassVar" not in ast.dump(m.annotation)]
                    if not any(isinstance(m.value, ast.Call) and any(k.arg == "init" for k in m.value.keywords) for _, m in fs):
                        FIELDS[n.name] = [k for k, _ in fs]
                for m in n.body:
                    if isinstance(m, FUNCS):
                        decos = {d.id for d in m.decorator_list if isinstance(d, ast.Name)}
                        ps = params(m)
                        if m.args.vararg or m.args.kwarg:
                            ps = None
                        elif "staticmethod" not in decos:
                            ps = ps[1:]
                        else:
                            STATIC.add(m.name)
                        seen.setdefault(m.name, set()).add(tuple(ps) if ps is not None else None)
    for k, v in seen.items():
        if len(v) == 1 and None not in v and not k.startswith("__") and k not in ("whiten_residual_vector", "whiten_jacobian"):
            SIGNATURES[k] = list(next(iter(v)))


def private_names(sources):
    out = set()
    for src in sources.values():
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, FUNCS + (ast.ClassDef,)) and n.name.startswith("_") and not n.name.startswith("__"):
                out.add(n.name)
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id.startswith("_"):
                out.add(n.target.id)
    return sorted(out)


def rename_everywhere(sources, v):
    out = {}
    for rel, src in sources.items():
        tree = ast.parse(src)
        for x in ast.walk(tree):
            for f in ("id", "attr", "name", "arg"):
                if getattr(x, f, None) == v and not isinstance(x, ast.ImportFrom):
                    setattr(x, f, v + "_r")
        new = ast.unparse(tree)
        if new != ast.unparse(ast.parse(src)):
            out[rel] = new
    return out


def all_rewrites(root, only, kind):
    sources = {}
    for pkg in ("jaxfg", "scripts"):
        for dp, dn, fn in os.walk(os.path.join(root, pkg)):
            dn[:] = [d for d in dn if d != "__pycache__"]
            for f in sorted(fn):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(dp, f), root)
                    with open(os.path.join(dp, f)) as h:
                        sources[rel] = h.read()
    signatures(sources)
    out = []
    if not only and (not kind or "rename-private".startswith(kind)):
        for v in private_names(sources):
            out.append((root, "*", 0, f"rename-private {v}", "", rename_everywhere(sources, v)))
    for rel, src in sorted(sources.items()):
        if only not in rel or rel.startswith("scripts/pose") or rel.endswith("utils.py") and "jaxfg/utils" in rel:
            continue
        base = ast.unparse(ast.parse(src))
        for what, line, edit in sites(src):
            if kind and not what.startswith(kind):
                continue
            tr = Tree(src)
            edit(tr)
            ast.fix_missing_locations(tr.tree)
            try:
                new = ast.unparse(tr.tree)
                compile(new, rel, "exec")
            except SyntaxError as e:
                print("bad rewrite", what, rel, line, e)
                continue
            if new != base:
                out.append((root, rel, line, what, base, {rel: new}))
    return out


FRESH_NAMES = ("hoisted", "built", "unpacked", "named", "_inner", "_CONSTANT")


def combined(root, count, depth, seed, handwritten=False):
    """Random chains of rewrites over the whole package, starting from hand-written rewrites of several files if asked."""
    rng = random.Random(seed)
    sources = {}
    for dp, dn, fn in os.walk(os.path.join(root, "jaxfg")):
        for f in sorted(fn):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(dp, f), root)
                with open(os.path.join(dp, f)) as h:
                    sources[rel] = h.read()
    with open(os.path.join(root, "scripts", "_g2o_utils.py")) as h:
        sources["scripts/_g2o_utils.py"] = h.read()
    signatures(sources)
    if handwritten:
        sys.path.insert(0, os.path.join(VERIF, "selftest"))
        import run
        from corpus import CASES

        cases = [c for c in CASES if c["kind"] != "mutant"]
    rels = sorted(r for r in sources if not r.endswith("__init__.py") and r != "jaxfg/utils.py")
    out = []
    for c in range(count):
        now, steps = {}, []
        if handwritten:
            for case in rng.sample(cases, 40):
                if any(e[0] in now for e in case["edits"]) or len(now) > 5:
                    continue
                now.update(run.apply_case(root, case["edits"]) or {})
                steps.append(case["name"])
            signatures({**sources, **now})
        picked = rng.sample(sorted(now), 4) if handwritten else rng.sample(rels, 4)
        for k in range(depth):
            rel = rng.choice(picked)
            src = now.get(rel, sources[rel])
            by_kind = {}
            for what, line, edit in sites(src):
                by_kind.setdefault(what.split(" ")[0], []).append((what, line, edit))
            if not by_kind:
                continue
            what, line, edit = rng.choice(by_kind[rng.choice(sorted(by_kind))])
            tr = Tree(src)
            edit(tr)
            ast.fix_missing_locations(tr.tree)
            for x in ast.walk(tr.tree):
                for fld in ("id", "name"):
                    if getattr(x, fld, None) in FRESH_NAMES:
                        setattr(x, fld, f"{getattr(x, fld)}_{k}")
            new = ast.unparse(tr.tree)
            try:
                compile(new, rel, "exec")
            except SyntaxError:
                continue
            now[rel] = new
            steps.append(f"{rel}:{line} {what}")
        out.append((root, "*", c, "chain " + "; ".join(steps), "", now))
    return out


def judge(m):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(90)
        try:
            data = pickle.dumps(judge_here(m))
        except BaseException as e:
            data = pickle.dumps((m, [("error", repr(e)[:200], "", "")], []))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        return m, [("crash", f"status {status}", "", "")], []
    return pickle.loads(data)


def judge_here(m):
    root, rel, line, what, base, overlay = m
    from jfg import ob, rules  # noqa: F401

    with open(os.path.join(VERIF, "jfg", "specmod.py")) as f:
        spec = f.read()
    try:
        c = ob.Ctx(root, spec, overlay)
        rs = ob.run_obligations(c)
    except Exception as e:
        return m, [("error", f"{type(e).__name__}: {e}"[:200], "", "")], []
    bad = [(r.key, r.detail[:200], r.got[:300], r.want[:300]) for r in rs if r.status == "violated"]
    und = sorted({r.key + ": " + r.detail[:120] for r in rs if r.status == "undecided"})
    return m, bad, und


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--only", default="")
    ap.add_argument("--kind", default="")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--out", default="")
    ap.add_argument("--chains", type=int, default=0, help="random chains of rewrites instead of single ones")
    ap.add_argument("--depth", type=int, default=12)
    ap.add_argument("--handwritten", action="store_true", help="start chains from rewrites of the self-test")
    a = ap.parse_args()
    ms = combined(a.root, a.chains, a.depth, a.seed, a.handwritten) if a.chains else all_rewrites(a.root, a.only, a.kind)
    total = len(ms)
    if a.sample and a.sample < len(ms):
        ms = random.Random(a.seed).sample(ms, a.sample)
    out = open(a.out, "w") if a.out else sys.stdout
    n = {"quiet": 0, "undecided": 0, "alarm": 0}
    kinds = {}
    with multiprocessing.Pool(maxtasksperchild=24) as pool:
        for (root, rel, line, what, base, overlay), bad, und in pool.imap(judge, ms, chunksize=4):
            k = "alarm" if bad else "undecided" if und else "quiet"
            n[k] += 1
            kinds.setdefault(what.split(" ")[0], {"quiet": 0, "undecided": 0, "alarm": 0})[k] += 1
            if k != "quiet":
                d = diff(base, overlay[rel]) if rel != "*" else ([], [])
                print(k.upper(), f"{rel}:{line}", what, "|", " / ".join(d[0]), "=>", " / ".join(d[1]), file=out)
                for b in bad[:3]:
                    print("      ", *b[:2], file=out)
                    print("          got ", b[2], file=out)
                    print("          want", b[3], file=out)
                for u in und[:3] if not bad else ():
                    print("      ", u, file=out)
                out.flush()
    for k, v in sorted(kinds.items()):
        print(k, v)
    print(total, "rewrites,", len(ms), "analysed:", n)


if __name__ == "__main__":
    main()
