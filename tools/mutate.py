"""Mechanical single-place changes of the sources, analysed in memory: which ones does no check report?

mutate.py [--root /repo] [--only path-substring] [--out file] : lists every change that stays quiet, with the obligations it
left undecided. Many survivors are equivalent changes; the list is for reading, not for a score.
"""

import argparse
import ast
import copy
import multiprocessing
import os
import pickle
import signal
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

SIBLINGS = [
    ("rows", "cols"), ("storage_layout", "local_storage_layout"), ("set", "add"), ("minimum", "maximum"), ("min", "max"), ("zeros", "ones"),
    ("zeros_like", "ones_like"), ("sum", "max"), ("concatenate", "stack"), ("log", "exp"), ("get_parameter_dim", "get_local_parameter_dim"),
    ("index_from_variable", "index_from_variable_type"), ("index_from_variable_type", "count_from_variable_type"), ("lambda_min", "lambda_max"),
    ("cost_tolerance", "parameter_tolerance"), ("gradient_tolerance", "parameter_tolerance"), ("logical_and", "logical_or"), ("jacfwd", "hessian"),
    ("flatten", "unflatten"), ("jit", "vmap"), ("abs", "sqrt"), ("sqrt", "square"), ("argmin", "argmax"), ("all", "any"), ("floor", "ceil"), ("tril", "triu"),
    ("rplus", "lplus"), ("rminus", "lminus"), ("rplus_jacobian", "lplus_jacobian"), ("tangent_dim", "parameters_dim"), ("inverse", "identity"), ("keys", "values"),
    ("solve_A", "solve_L"), ("append", "extend"), ("cost", "iterations"), ("factor_stacks", "residual_dim"), ("hstack", "vstack"), ("repeat", "tile"),
    ("num_factors", "residual_dim"), ("items", "keys"), ("startswith", "endswith"), ("issubclass", "isinstance"),
]
OPS = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Pow: [ast.Mult]}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def annotations(tree):
    """ids of nodes inside annotations and docstrings"""
    out = set()
    for n in ast.walk(tree):
        for a in ("annotation", "returns"):
            x = getattr(n, a, None)
            if isinstance(x, ast.AST):
                out |= {id(y) for y in ast.walk(x)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            out |= {id(n), id(n.value)}
        if isinstance(n, ast.JoinedStr):
            out |= {id(y) for y in ast.walk(n)}
        if isinstance(n, ast.Assert) and n.msg is not None:
            out |= {id(y) for y in ast.walk(n.msg)}
    return out


def mutations(tree):
    """Yield (description, apply(tree copy node list)) — a mutation is (index of the node in walk order, function on that node)."""
    skip = annotations(tree)
    nodes = list(ast.walk(tree))
    func_of = {}
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for y in ast.walk(n):
                func_of[id(y)] = n if isinstance(n, ast.FunctionDef) else func_of.get(id(y), n)
    parents = {}
    for n in nodes:
        for ch in ast.iter_child_nodes(n):
            parents[id(ch)] = n
    for k, n in enumerate(nodes):
        if isinstance(n, ast.AnnAssign) and isinstance(parents.get(id(n)), ast.ClassDef):
            a = n.annotation
            if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Attribute) and a.value.attr == "Static":
                yield k, "static dropped", lambda m: setattr(m, "annotation", m.annotation.slice)
            else:
                yield k, "static added", lambda m: setattr(m, "annotation", ast.Subscript(ast.Attribute(ast.Name("jdc", ast.Load()), "Static", ast.Load()), m.annotation, ast.Load()))
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp):
            for o in OPS.get(type(n.op), []):
                yield k, f"op {type(n.op).__name__}->{o.__name__}", lambda m, o=o: setattr(m, "op", o())
            if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult, ast.Add)):
                yield k, "operands swapped", swap_operands
            yield k, "left only", ("replace", lambda m: m.left)
            yield k, "right only", ("replace", lambda m: m.right)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield k, f"cmp {type(n.ops[0]).__name__}->{o.__name__}", lambda m, o=o: setattr(m, "ops", [o()])
        elif isinstance(n, ast.BoolOp):
            yield k, "and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())
            for j in range(len(n.values)):
                yield k, f"operand {j} dropped", ("replace", lambda m, j=j: m.values[1 - j] if len(m.values) == 2 else ast.BoolOp(m.op, m.values[:j] + m.values[j + 1:]))
        elif isinstance(n, ast.UnaryOp):
            yield k, "unary dropped", ("replace", lambda m: m.operand)
        elif isinstance(n, (ast.If, ast.IfExp)):
            yield k, "test negated", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))
            yield k, "test true", lambda m: setattr(m, "test", ast.Constant(True))
            yield k, "test false", lambda m: setattr(m, "test", ast.Constant(False))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield k, "bool flipped", lambda m: setattr(m, "value", not m.value)
            elif isinstance(n.value, int):
                yield k, "+1", lambda m: setattr(m, "value", m.value + 1)
                if n.value > 0:
                    yield k, "-1", lambda m: setattr(m, "value", m.value - 1)
            elif isinstance(n.value, float):
                yield k, "x2", lambda m: setattr(m, "value", m.value * 2)
            elif n.value is None and not isinstance(parents.get(id(n)), ast.arguments):
                yield k, "None->0", lambda m: setattr(m, "value", 0)
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                yield k, "first two arguments swapped", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]])
            if len(n.args) >= 3 and not any(isinstance(a, ast.Starred) for a in n.args[1:3]):
                yield k, "arguments 2,3 swapped", lambda m: m.args.__setitem__(slice(1, 3), [m.args[2], m.args[1]])
            for j in range(len(n.keywords)):
                yield k, f"keyword {n.keywords[j].arg} dropped", lambda m, j=j: m.keywords.pop(j)
            for j in range(len(n.keywords)):
                for l in range(j):
                    if n.keywords[j].arg and n.keywords[l].arg:
                        yield k, f"values of {n.keywords[j].arg},{n.keywords[l].arg} swapped", lambda m, j=j, l=l: swap_kw(m, j, l)
            if isinstance(n.func, ast.Attribute):
                yield k, f".{n.func.attr}() dropped", ("replace", lambda m: m.func.value)
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                yield k, "call dropped", ("replace", lambda m: m.args[0])
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, b in SIBLINGS:
                if n.attr in (a, b):
                    yield k, f".{n.attr}->{b if n.attr == a else a}", lambda m, b=b if n.attr == a else a: setattr(m, "attr", b)
            if n.attr == "T":
                yield k, ".T dropped", ("replace", lambda m: m.value)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            f = func_of.get(id(n))
            if f is not None and isinstance(f, ast.FunctionDef):
                names = local_names(f)
                if n.id in names:
                    for o in nearby(f, n, names):
                        yield k, f"{n.id}->{o}", lambda m, o=o: setattr(m, "id", o)
            for a, b in (("min", "max"), ("all", "any"), ("zip", "zip")):
                if n.id == a and a != b:
                    yield k, f"{a}->{b}", lambda m, b=b: setattr(m, "id", b)
                if n.id == b and a != b:
                    yield k, f"{b}->{a}", lambda m, a=a: setattr(m, "id", a)
        elif isinstance(n, ast.AugAssign):
            yield k, "augmented op", lambda m: setattr(m, "op", ast.Sub() if isinstance(m.op, ast.Add) else ast.Add())
            yield k, "augmented -> plain", ("replace", lambda m: ast.Assign([m.target], m.value, lineno=m.lineno))
        elif isinstance(n, ast.For):
            yield k, "reversed", lambda m: setattr(m, "iter", ast.Call(ast.Name("reversed", ast.Load()), [ast.Call(ast.Name("list", ast.Load()), [m.iter], [])], []))
            yield k, "skips the first", lambda m: setattr(m, "iter", ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(ast.Constant(1)), ast.Load()))
        elif isinstance(n, ast.comprehension):
            yield k, "comprehension skips the first", lambda m: setattr(m, "iter", ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(ast.Constant(1)), ast.Load()))
            yield k, "comprehension reversed", lambda m: setattr(m, "iter", ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(None, None, ast.Constant(-1)), ast.Load()))
        elif isinstance(n, ast.Tuple) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
            yield k, "tuple items swapped", lambda m: m.elts.__setitem__(slice(0, 2), [m.elts[1], m.elts[0]])
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield k, "lower bound dropped", lambda m: setattr(m, "lower", None)
            if n.upper is not None:
                yield k, "upper bound dropped", lambda m: setattr(m, "upper", None)
        if isinstance(n, (ast.Expr, ast.Assert, ast.Raise, ast.AugAssign, ast.Return)) or (isinstance(n, ast.Assign)):
            yield k, "statement deleted", ("replace", lambda m: ast.Pass())
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.decorator_list:
            for j in range(len(n.decorator_list)):
                yield k, f"decorator {ast.unparse(n.decorator_list[j])} dropped", lambda m, j=j: m.decorator_list.pop(j)
        if isinstance(n, (ast.List, ast.Tuple)) and len(getattr(n, "elts", [])) >= 2 and isinstance(n.ctx, ast.Load):
            yield k, "last item dropped", lambda m: m.elts.pop()


def swap_operands(m):
    m.left, m.right = m.right, m.left


def swap_kw(m, j, l):
    m.keywords[j].value, m.keywords[l].value = m.keywords[l].value, m.keywords[j].value


def local_names(f):
    out = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def nearby(f, n, names):
    """Other names used close to this one."""
    near = []
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id in names and x.id != n.id and isinstance(x.ctx, ast.Load) and abs(x.lineno - n.lineno) <= 4 and x.id not in near and x.id not in ("self", "cls"):
            near.append(x.id)
    return near[:3] if n.id not in ("self", "cls") else []


class Replace(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        if node is self.target:
            return ast.copy_location(self.new, node)
        return self.generic_visit(node)


def build(src, k, how):
    tree = ast.parse(src)
    node = list(ast.walk(tree))[k]
    if isinstance(how, tuple):
        tree = Replace(node, how[1](node)).visit(tree)
    else:
        how(node)
    return ast.unparse(ast.fix_missing_locations(tree))


def all_mutants(root, only):
    out = []
    for pkg in ("jaxfg", "scripts"):
        for dp, dn, fn in os.walk(os.path.join(root, pkg)):
            dn.sort()
            for f in sorted(fn):
                rel = os.path.relpath(os.path.join(dp, f), root)
                if not f.endswith(".py") or (pkg == "scripts" and f != "_g2o_utils.py") or f in ("utils.py", "hints.py") or (only and only not in rel):
                    continue
                src = open(os.path.join(root, rel)).read()
                base = ast.unparse(ast.parse(src))
                nodes = list(ast.walk(ast.parse(src)))
                for k, what, how in mutations(ast.parse(src)):
                    try:
                        new = build(src, k, how)
                        compile(new, rel, "exec")
                    except Exception:
                        continue
                    if new == base:
                        continue
                    line = getattr(nodes[k], "lineno", 0)
                    out.append((root, rel, line, what, base, new))
    return out


def judge(m):
    """Each change in its own process, so that a crash or a runaway analysis is seen and does not stop the others."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(60)
        try:
            data = pickle.dumps(judge_here(m))
        except BaseException as e:
            data = pickle.dumps((m[1], m[2], m[3], diff(m[4], m[5]), {"error"}, [repr(e)[:100]]))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        return m[1], m[2], m[3], diff(m[4], m[5]), {"crash"}, [f"status {status}"]
    return pickle.loads(data)


def judge_here(m):
    root, rel, line, what, base, new, *overlay = m
    from jfg import ob, rules  # noqa: F401

    with open(os.path.join(VERIF, "jfg", "specmod.py")) as f:
        spec = f.read()
    try:
        c = ob.Ctx(root, spec, overlay[0] if overlay else {rel: new})
        rs = ob.run_obligations(c)
    except Exception as e:
        return rel, line, what, diff(base, new), {"error"}, [f"{type(e).__name__}: {e}"[:100]]
    bad = {p for r in rs if r.status == "violated" for p in r.ob.props}
    und = sorted({r.key for r in rs if r.status == "undecided"})
    return rel, line, what, diff(base, new), bad, und


def diff(a, b):
    a, b = a.split("\n"), b.split("\n")
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    j = 0
    while j < min(len(a), len(b)) - i and a[-1 - j] == b[-1 - j]:
        j += 1
    return [x.strip() for x in a[i:len(a) - j]][:3], [x.strip() for x in b[i:len(b) - j]][:3]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--only", default="")
    ap.add_argument("--out", default="")
    a = ap.parse_args()
    ms = all_mutants(a.root, a.only)
    out = open(a.out, "w") if a.out else sys.stdout
    n = {"reported": 0, "undecided": 0, "silent": 0, "error": 0}
    with multiprocessing.Pool(maxtasksperchild=24) as pool:
        for rel, line, what, d, bad, und in pool.imap(judge, ms, chunksize=8):
            if "error" in bad or "crash" in bad:
                n["error"] += 1
                print(*sorted(bad), f"{rel}:{line}", what, "|", " / ".join(d[0]), "=>", " / ".join(d[1]), "|", *und, file=out, flush=True)
                continue
            if bad:
                n["reported"] += 1
                if a.out:
                    print("REPORTED", f"{rel}:{line}", what, "|", " / ".join(d[0]), "=>", " / ".join(d[1]), "|", *sorted(bad), file=out)
                continue
            k = "undecided" if und else "silent"
            n[k] += 1
            print(k.upper(), f"{rel}:{line}", what, "|", " / ".join(d[0]), "=>", " / ".join(d[1]), "|", *und[:4], file=out)
    print(len(ms), "changes:", n)


if __name__ == "__main__":
    main()
