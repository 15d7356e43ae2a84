"""Memoisation: a table entry must be a function of its key."""

import ast

from . import terms as tm
from .terms import T


def key_parts(k):
    """Everything the key determines by value."""
    out = set()
    todo = [k]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        if x.op in ("list", "one", "bytes", "tolist", "frozenset"):
            todo.extend(tm.iter_terms(x.a))
    return out | {tm.index(k, tm.num(j)) for j in range(4)}


def pattern_determined(m, parts):
    """The sparsity pattern of a (converted) matrix follows from what the key holds."""

    def has(t):
        return determined(t, parts)

    attrs = [tm.mk("attr", m, "shape"), tm.mk("attr", m, "indptr"), tm.mk("attr", m, "indices")]
    shape = has(attrs[0]) or has(tm.mk("shape", m)) or (m.op in ("csc", "csr") and m.a[0].op == "coo" and has(m.a[0].a[3]))
    if shape and has(attrs[1]) and has(attrs[2]):
        return True
    if m.op in ("csc", "csr") and m.a[0].op == "coo":
        _v, rows, cols, shp = m.a[0].a[:4]
        return has(rows) and has(cols) and has(shp)
    return False


def determined(t, parts):
    if t in parts:
        return True
    if t.op in ("num", "const", "cls", "ext", "bv"):
        return True
    if t.op == "cholsym":
        return pattern_determined(t.a[0], parts) and all(determined(x, parts) for x in tm.iter_terms(t.a[1:]))
    if t.op in ("sym", "global", "ident"):
        return False
    args = list(tm.iter_terms(t.a))
    return bool(args) and all(determined(x, parts) for x in args)


def undetermined(t, parts):
    """A witness: a subterm of the entry that the key does not fix."""
    if t.op == "cholsym":
        return None if determined(t, parts) else t
    if determined(t, parts):
        return None
    for x in tm.iter_terms(t.a):
        if not determined(x, parts):
            return undetermined(x, parts) or x
    return t


def tables(run):
    """[(table, key, value, pc, effect)] for every entry written to process-wide state."""
    out = []
    for e in run.effects:
        if e.kind == "store" and e.extra and len(e.extra) == 3 and isinstance(e.extra[2], T):
            out.append((e.extra[2], e.extra[0], e.extra[1], e.pc, e))
    return out


def read_back(run):
    """Rewrite reads of an entry by the value stored under the same key."""
    from .compare import assume

    m = {}
    for g, k, v, pc, _e in tables(run):
        r = tm.mk("get", g, k)
        # several stores under one key: each on the paths where it is reached, the key being absent before
        m[r] = tm.select(assume(pc, tm.in_(k, g), False), v, m[r]) if r in m else v
    return m


def own_attributes(node):
    """Attributes a class keeps for itself: `if "x" not in cls.__dict__: cls.x = <made from cls alone>`, by statement."""
    out = {}
    for s in ast.walk(node):
        if not (isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.NotIn)):
            continue
        key, where = s.test.left, s.test.comparators[0]
        if isinstance(where, ast.Attribute) and where.attr == "__dict__":
            where = where.value
        elif isinstance(where, ast.Call) and isinstance(where.func, ast.Name) and where.func.id == "vars" and len(where.args) == 1:
            where = where.args[0]
        else:
            continue
        if not (isinstance(where, ast.Name) and isinstance(key, ast.Constant) and isinstance(key.value, str)):
            continue
        for a in s.body:
            if isinstance(a, ast.Assign) and len(a.targets) == 1:
                t = a.targets[0]
                names = {x.id for x in ast.walk(a.value) if isinstance(x, ast.Name)}
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == where.id and t.attr == key.value and names <= {where.id}:
                    out[a.lineno] = (where.id, t.attr, a.value)
    return out
