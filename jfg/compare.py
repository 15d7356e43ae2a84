"""Equality of normal forms: syntactic identity, congruence, and case distinction on the conditions that occur."""

from . import terms as tm
from .terms import FALSE, TRUE, T, close, fresh, mk, open_, raw

BOOL_ATOMS = ("and", "or", "not")


def replace_terms(t, m, memo=None):
    """Replace closed subterms (keys of m) everywhere in t."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in ("sym", "bv", "num", "const") or not any(k.fs <= t.fs for k in m):
        r = t
    elif t.op == "lam":
        s = fresh("r")
        r = close(s, replace_terms(open_(t, s), m, {}))
    else:
        r = mk(t.op, *tm._map_args(t.a, lambda x: replace_terms(x, m, memo)))
        if r in m:
            r = m[r]
    memo[t] = r
    return r


def orient(t, strict):
    """Write every comparison p >= 0 as not (-p > 0), except where unordered operands matter."""
    if strict is True:
        return t
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            if t.op in ("sym", "bv", "num", "const"):
                r = t
            elif t.op == "ge0" and not (callable(strict) and strict(t)):
                r = tm.not_(tm.gt0(tm.neg(go(t.a[0]))))
            elif t.op == "lam":
                z = fresh("o")
                r = close(z, go(open_(t, z)))
            else:
                r = mk(t.op, *tm._map_args(t.a, go))
            memo[t] = r
        return r

    return go(t)


def container(cond, t):
    """A table whose truth is asked for, and that is looked into as well."""
    return cond.op in ("sym", "attr") and cond.fs <= t.fs and any(x.op in ("get", "keys") and x.a[0] is cond or x.op == "in" and x.a[1] is cond for x in tm.walk(t))


def has_items(t, cond, value):
    v = TRUE if value else FALSE

    def f(x):
        if x.op in ("select", "if") and x.a[0] is cond:
            return x.a[1 if value else 2]
        if x.op in ("and", "or") and cond in x.a[0]:
            return (tm.and_ if x.op == "and" else tm.or_)(*(v if y is cond else y for y in x.a[0]))
        if x.op == "not" and x.a[0] is cond:
            return tm.not_(v)
        if x.op == "in" and x.a[1] is cond and not value:
            return FALSE
        if x.op == "eq" and value and x.a[0] == frozenset((cond, tm.NONE)):
            return FALSE
        return None

    return tm.rewrite(t, f)


def assume(t, cond, value):
    if container(cond, t):
        return has_items(t, cond, value)
    t = replace_terms(t, {cond: TRUE if value else FALSE})
    m = {}
    if value and cond.op == "eq" and tm.NONE in cond.a[0]:
        m = {x: FALSE for x in tm.walk(t) if x.op == "in" and x.a[1] in cond.a[0] and closed(x)}
    if value and cond.op in ("gt0", "eq0", "eq"):
        d = difference(cond)
        if d is not None:
            for x in tm.walk(t):
                if x.op in ("gt0", "eq0", "eq") and x is not cond and closed(x):
                    # a > b excludes a = b and b > a; a = b excludes both strict orders
                    e = difference(x)
                    if e is not None and (cond.op == "gt0" or x.op == "gt0"):
                        k = proportion(d, e)
                        if k is not None and (k < 0 or (x.op == "gt0") != (cond.op == "gt0")):
                            m[x] = FALSE
    if cond.op in ("gt0", "ge0"):
        for x in tm.walk(t):
            if x.op in ("gt0", "ge0") and x is not cond and x not in m and closed(x):
                if value:
                    r = follows(cond, x)
                    if r is not None:
                        m[x] = TRUE if r else FALSE
                elif follows(x, cond):
                    m[x] = FALSE
    return replace_terms(t, m) if m else t


def follows(c, x):
    """Whether the bound c settles the bound x on the same quantity: True, False, or None."""
    p, q = tm.to_poly(c.a[0]), tm.to_poly(x.a[0])
    one = frozenset()
    p0, q0 = p.get(one, 0), q.get(one, 0)
    k = proportion({m: v for m, v in p.items() if m != one}, {m: v for m, v in q.items() if m != one})
    if k is None:
        return None
    # c: P > -p0; x: k P > -q0
    a, b = -p0, -q0 / k
    if k > 0:
        if a > b or a == b and (c.op == "gt0" or x.op == "ge0"):
            return True
    elif a > b or a == b and (c.op == "gt0" or x.op == "gt0"):
        return False
    return None


def difference(c):
    """The difference a comparison is about."""
    if c.op == "eq":
        ab = list(c.a[0])
        if len(ab) != 2:
            return None
        return tm.to_poly(tm.sub(ab[0], ab[1]))
    return tm.to_poly(c.a[0])


def proportion(p, q):
    """k with q = k p, or None."""
    if not p or len(p) != len(q) or set(p) != set(q):
        return None
    k = None
    for m, v in p.items():
        r = q[m] / v
        if k is None:
            k = r
        elif k != r:
            return None
    return k


def closed(t):
    return not any(s.op == "bv" for s in t.fs)


def atoms_of(c):
    if c.op in ("and", "or"):
        for x in c.a[0]:
            yield from atoms_of(x)
    elif c.op == "not":
        yield from atoms_of(c.a[0])
    elif c.op == "select":
        for x in c.a:
            yield from atoms_of(x)
    elif c not in (TRUE, FALSE):
        yield c


def conditions(t):
    out = []
    seen = set()
    for x in tm.walk(t):
        if x.op in ("select", "if") and isinstance(x.a[0], T):
            cs = [x.a[0]]
        elif x.op in BOOL_ATOMS:
            cs = [x]
        else:
            continue
        for c in cs:
            for a in atoms_of(c):
                if a not in seen and closed(a):
                    seen.add(a)
                    out.append(a)
    return out


class Mismatch:
    def __init__(self, path, got, want, assumed):
        self.path, self.got, self.want, self.assumed = path, got, want, assumed


CONGRUENT = ("obj", "list", "one", "for", "lam", "vmap", "while", "updlist", "st", "dict", "set", "app", "concat", "ravel", "api", "upd")


def unconverted(assumed, *terms):
    """Assignments converted to a layout equal to the one they have."""
    eqs = {c.a[0] for c, v in assumed if v and c.op == "eq"}
    if not eqs:
        return {}
    m = {}
    for t in terms:
        for x in tm.walk(t):
            if x.op == "api" and x.a[0] == "VariableAssignments.update_storage_layout":
                of, to = (list(tm.iter_terms(x.a[1:])) + [None, None])[:2]
                if to is not None and frozenset((mk("attr", of, "storage_layout"), to)) in eqs:
                    m[x] = of
    return m


def few(assumed, *terms):
    """For every assumption that leaves nothing, or one thing at most, of something counted: what that replaces."""
    out = []
    for c, v in assumed:
        n, most = at_most(c, v)
        if n is None:
            continue
        m = {n: tm.num(most)}
        if most == 1 and n.op == "len":
            m[n.a[0]] = tm.mklist([raw("index", n.a[0], tm.ZERO)])
        out.append(m)
    return out


def nothing(c, v, a, b):
    """c being v leaves nothing to work on, or (one thing in all of several lists) what the forms do not show."""
    n, most = at_most(c, v)
    if n is None or n.op == "attr" and n.a[1] == "iterations":
        return False
    if most and any(s.op == "sym" and "StorageLayout" not in str(tm.SYM_TYPE.get(s)) for s in a.fs ^ b.fs):
        return False  # something given goes into one of them only
    return most == 0 or n.op == "psum" or n.op == "len" and n.a[0].op == "attr" and n.a[0].a[1] == "index_from_variable"


def at_most(c, v):
    """(n, 0 or 1) when c being v says that n, which counts something, is at most (for eq0: exactly) that."""
    if c.op in ("eq0", "gt0") and v == (c.op == "eq0"):
        p = dict(tm.to_poly(c.a[0]))
        k0 = p.pop(frozenset(), 0)
        if len(p) != 1:
            return None, None
        (mono, k), = p.items()
        if c.op == "gt0" and k <= 0 or -k0 / k not in (0, 1):
            return None, None
        n = tm.from_poly({mono: 1})
        return (n, int(-k0 / k)) if counts(n) else (None, None)
    if not v and c.op == "dict" and c.a[0].op == "emptydict" and len(c.a[1]) == 1 and c.a[1][0].op == "for":
        return c.a[1][0].a[0], 0
    if not v and counts(c):
        return c, 0
    return None, None


def counts(n):
    if n.op == "poly":
        p = tm.to_poly(n)
        return len(p) == 1 and all(counts(x) for mono in p for x, _ in mono)
    if n.op == "get":
        return n.a[0].op == "attr" and n.a[0].a[1] == "count_from_variable_type"
    if n.op == "attr":
        return n.a[1] in ("dim", "iterations", "num_factors")
    return n.op in ("len", "psum") or n.op == "api" and str(n.a[0]).endswith("parameter_dim")


def settled(t, m):
    """Loops over nothing are gone, loops over one thing are that."""
    t = replace_terms(t, m)

    def segments(x):
        out = []
        for e in x:
            if isinstance(e, T) and e.op == "for" and e.a[0] is tm.ZERO:
                continue
            if isinstance(e, T) and e.op == "for" and e.a[0] is tm.ONE:
                b = open_(e.a[1], tm.ZERO)
                if b.op in ("list", "updlist"):
                    out.extend(b.a[0])
                    continue
                if b.op == "dict" and b.a[0].op == "nil":
                    out.extend(b.a[1])
                    continue
            out.append(e)
        return tuple(out)

    def f(x):
        if x.op == "list" and any(e.op == "for" for e in x.a[0]):
            return mk("list", segments(x.a[0]))
        if x.op == "updlist":
            return mk("updlist", segments(x.a[0]))
        if x.op == "newaxis" and x.a[1] in (0, tm.ZERO):
            return mk("stack", tm.mklist([x.a[0]]), tm.ZERO)
        if x.op == "fold" and x.a[0] is tm.ZERO:
            return x.a[1]
        if x.op in ("upd", "dict") and isinstance(x.a[1], tuple):
            s = segments(x.a[1])
            if s != x.a[1]:
                return mk(x.op, x.a[0], s) if s or x.op == "dict" and x.a[0].op != "emptydict" else x.a[0]
        return None

    return tm.rewrite(t, f)


class Comparer:
    def __init__(self, strict=False, budget=4000):
        self.strict = strict
        self.memo = {}
        self.budget = budget
        self.pruned = 0
        self.top = None
        self.exhausted = False
        self.unsettled = None  # a difference for inputs with nothing in them

    def equal(self, a, b):
        return self.compare(a, b) is None

    def compare(self, a, b):
        if a is b:
            return None
        a, b = orient(a, self.strict), orient(b, self.strict)
        self.top = b
        return self.diff(a, b)

    def diff(self, a, b, path=(), assumed=()):
        """None when equal, else a Mismatch."""
        if a is b:
            return None
        k = (a, b)
        if k in self.memo:
            return None
        ka = (a, b, frozenset(assumed))
        if ka in self.memo:
            return self.memo[ka]
        self.budget -= 1
        if self.budget < 0:
            self.exhausted = True
            return Mismatch(path, a, b, assumed)
        n = self.pruned
        r = self._diff(a, b, path, assumed)
        if r is None and self.pruned == n:
            self.memo[k] = r
        else:
            self.memo[ka] = r
        return r

    def _diff(self, a, b, path, assumed):
        first = None
        if a.op == b.op:
            first = self.structural(a, b, path, assumed)
            if first is None:
                return None
        cs = self.split_candidates(a, b)
        if cs:
            c = cs[0]
            for v in (True, False):
                if any(assume(c0, c, v) is (FALSE if v0 else TRUE) for c0, v0 in assumed):
                    self.pruned += 1  # the case cannot occur
                    continue
                d = self.diff(assume(a, c, v), assume(b, c, v), path, assumed + ((c, v),))
                if d is not None:
                    return d
            return None
        m = self.equalities(assumed)
        if m:
            a2, b2 = replace_terms(a, m), replace_terms(b, m)
            if a2 is not a or b2 is not b:
                d = self.diff(a2, b2, path, assumed)
                if d is None:
                    self.pruned += 1
                    return None
        m = unconverted(assumed, a, b)
        if m and self.diff(replace_terms(a, m), replace_terms(b, m), path, assumed) is None:
            self.pruned += 1
            return None
        for m in few(assumed, a, b):
            x, y = settled(a, m), settled(b, m)
            if (x is not a or y is not b) and (x is y or self.diff(x, y, path, assumed) is None):
                self.pruned += 1
                return None
        if any(nothing(c, v, a, b) or not v and self.top is not None and container(c, self.top) for c, v in assumed):
            self.unsettled = self.unsettled or Mismatch(path, a, b, assumed)
            self.pruned += 1
            return None
        return first if first is not None and first is not False else Mismatch(path, a, b, assumed)

    def equalities(self, assumed):
        """Substitutions that follow from the equalities assumed."""
        m = {}
        for c, v in assumed:
            if not v or c.op not in ("eq", "eq0"):
                continue
            for c1, v1 in assumed:
                if c1 is not c:
                    c = assume(c, c1, v1)
            if c.op == "eq":
                x, y = sorted(c.a[0], key=lambda t: (t.op == "sym", tm.digest(t)))
                if x not in tm.walk(y):
                    m[x] = y
            elif c.op == "eq0":
                p = tm.to_poly(c.a[0])
                for mono, k in p.items():
                    if len(mono) == 1 and abs(k) == 1:
                        (x, e), = mono
                        rest = tm.from_poly({q: -w / k for q, w in p.items() if q != mono})
                        if e == 1 and x not in tm.walk(rest):
                            m[x] = rest
                            break
        return m

    def split_candidates(self, a, b):
        ca, cb = conditions(a), conditions(b)
        if not ca and not cb:
            for x in (a, b):
                if x.op not in ("gt0", "ge0", "eq0", "eqv") :
                    pass
            return []
        # conditions that only one side distinguishes, or both: outermost first
        return ca + [c for c in cb if c not in ca]

    def structural(self, a, b, path, assumed):
        """None when all arguments agree; a Mismatch (or False when the shapes differ)."""
        if a.op == "lam":
            s = fresh("z")
            return self.diff(open_(a, s), open_(b, s), path, assumed)
        if a.op == "poly":
            return self.poly(a, b, path, assumed)
        if a.op in ("sym", "bv", "num", "const", "and", "or"):
            return False
        if a.op == "select" and a.a[0] is b.a[0]:
            for k, v in ((1, True), (2, False)):
                d = self.diff(a.a[k], b.a[k], path + ("select", k), assumed + ((a.a[0], v),))
                if d is not None:
                    return d
            return None
        return self.args(a.a, b.a, path + (a.op,), assumed)

    def poly(self, a, b, path, assumed):
        """Polynomials agree when the monomials that are not shared pair up."""
        ma, mb = dict(a.a[0]), dict(b.a[0])
        ra = [(m, c) for m, c in ma.items() if mb.get(m) != c]
        rb = [(m, c) for m, c in mb.items() if ma.get(m) != c]
        if len(ra) != len(rb) or len(ra) > 3:
            return False
        bad = None
        left = list(rb)
        for m, c in sorted(ra, key=lambda x: len(x[0])):
            for k, (m2, c2) in enumerate(left):
                if c == c2 and self.mono(m, m2, path, assumed):
                    del left[k]
                    break
            else:
                return False
        return None

    def mono(self, m, m2, path, assumed):
        ra = [x for x in m if x not in m2]
        rb = [x for x in m2 if x not in m]
        if len(ra) != len(rb) or len(ra) > 2:
            return False
        for (x, e) in ra:
            for k, (y, e2) in enumerate(rb):
                if e == e2 and x.op == y.op and self.diff(x, y, path, assumed) is None:
                    del rb[k]
                    break
            else:
                return False
        return True

    def args(self, xs, ys, path, assumed):
        if len(xs) != len(ys):
            return False
        for i, (x, y) in enumerate(zip(xs, ys)):
            if x is y:
                continue
            if isinstance(x, T) and isinstance(y, T):
                d = self.diff(x, y, path + (i,), assumed)
                if d is not None:
                    return d
            elif isinstance(x, tuple) and isinstance(y, tuple):
                tag = path + (x[0],) if len(x) == 2 and isinstance(x[0], str) else path + (i,)
                d = self.args(x, y, tag, assumed)
                if d is not None:
                    return d
            elif x != y:
                return False
        return None


def find_foreign(t, vocab):
    """Constructs of t outside the modelled vocabulary and not mentioned by the specification."""
    out = []
    for x in tm.walk(t):
        k = foreign_key(x)
        if k is not None and k not in vocab:
            out.append((k, x))
    return out


FOREIGN_OPS = {"opaque", "call", "mcall", "getitem", "binop", "fold", "lastof", "einsum", "broadcast", "squeeze", "getattr", "family", "frozen", "raised", "tile", "range", "nonlocal", "unflat", "gathered", "ctxmut", "cumsum"}


def foreign_key(x):
    if x.op == "call":
        f = x.a[0]
        return "call:" + (f.a[0] if f.op == "ext" else f.op)
    if x.op == "mcall":
        return "mcall:" + x.a[1]
    if x.op == "lastof" and not any(y.op in ("psum", "foldat") for y in tm.walk(x.a[2])):
        return None
    if x.op == "attr" and x.a[0].op in ("slice_obj", "new", "list", "dict"):
        return "attribute of " + x.a[0].op
    if x.op in FOREIGN_OPS:
        return x.op
    return None


def vocabulary(ts):
    v = set()
    for t in ts:
        for x in tm.walk(t):
            k = foreign_key(x)
            if k is not None:
                v.add(k)
    return v
