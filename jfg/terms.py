"""Hash-consed value-graph terms kept in normal form by smart constructors.

A term is an operator with arguments (terms, primitives, or tuples / frozensets of these). Equal normal forms are the
same object. Bound variables are canonical: `lam` is the only binder, and its variable is numbered by nesting height.
"""

import hashlib
import itertools
from fractions import Fraction

_TABLE = {}


class T:
    __slots__ = ("op", "a", "fs", "mx", "_dig", "__weakref__")

    def __repr__(self):
        return pretty(self)


def iter_terms(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            yield from iter_terms(x)


EMPTY_FS = frozenset()


def raw(op, *a):
    key = (op, a)
    t = _TABLE.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t._dig = None
    if op in ("sym", "bv", "ref"):
        t.fs = frozenset((t,))
        t.mx = 0
    else:
        fs = None
        mx = 0
        for c in iter_terms(a):
            if c.fs:
                fs = c.fs if fs is None else (fs if c.fs <= fs else fs | c.fs)
            if c.mx > mx:
                mx = c.mx
        fs = EMPTY_FS if fs is None else fs
        if op == "lam":
            bv = raw("bv", a[0])
            fs = fs - {bv}
            mx = max(mx, a[0])
        t.fs = fs
        t.mx = mx
    _TABLE[key] = t
    return t


def _dig_arg(x):
    if isinstance(x, T):
        return digest(x)
    if isinstance(x, tuple):
        return "(" + ",".join(_dig_arg(y) for y in x) + ")"
    if isinstance(x, frozenset):
        return "{" + ",".join(sorted(_dig_arg(y) for y in x)) + "}"
    return type(x).__name__ + ":" + str(x)


def digest(t):
    if t._dig is None:
        t._dig = hashlib.md5((t.op + "|" + "|".join(_dig_arg(x) for x in t.a)).encode()).hexdigest()
    return t._dig


CONS = {}


def cons(op):
    def deco(f):
        CONS[op] = f
        return f

    return deco


def mk(op, *a):
    f = CONS.get(op)
    return f(*a) if f is not None else raw(op, *a)


# --------------------------------------------------------------------------------------------------------------------
# Symbols, substitution, binders

_uid = itertools.count()
SYM_TYPE = {}  # symbol -> type
SYM_NDIM = {}  # symbol -> number of array dimensions, when a rule states it


def fresh(name, ty=None):
    s = raw("sym", name, next(_uid))
    if ty is not None:
        SYM_TYPE[s] = ty
    return s


def _map_args(a, f):
    out = []
    for x in a:
        if isinstance(x, T):
            out.append(f(x))
        elif isinstance(x, tuple):
            out.append(_map_args(x, f))
        elif isinstance(x, frozenset):
            out.append(frozenset(_map_args(tuple(x), f)))
        else:
            out.append(x)
    return tuple(out)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
        keys = frozenset(m)
        return _subst(t, m, keys, memo)
    return _subst(t, m, frozenset(m), memo)


def _subst(t, m, keys, memo):
    if not (t.fs & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op == "lam":
        s = fresh("o")
        bv = raw("bv", t.a[0])
        m2 = dict(m)
        m2[bv] = s
        r = close(s, _subst(t.a[1], m2, frozenset(m2), {}))
    else:
        r = mk(t.op, *_map_args(t.a, lambda x: _subst(x, m, keys, memo)))
    memo[t] = r
    return r


def rewrite(t, f, memo=None):
    """Bottom-up rewriting: f(term) -> term or None, applied to rebuilt nodes (not to symbols' definitions)."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("sym", "bv", "num", "const"):
        r = t
    elif t.op == "lam":
        s = fresh("w")
        body = subst(t.a[1], {raw("bv", t.a[0]): s})
        r = close(s, rewrite(body, f, memo))
    else:
        r = mk(t.op, *_map_args(t.a, lambda x: rewrite(x, f, memo)))
    g = f(r)
    if g is not None and g is not r:
        r = g
    memo[t] = r
    return r


def close(s, body):
    k = body.mx + 1
    return raw("lam", k, subst(body, {s: raw("bv", k)}))


def open_(lam, arg):
    return subst(lam.a[1], {raw("bv", lam.a[0]): arg})


def const_body(lam):
    return raw("bv", lam.a[0]) not in lam.a[1].fs


def walk(t, seen=None):
    """All distinct subterms (bodies of binders included, unopened)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(iter_terms(x.a))


def contains_op(t, ops):
    return any(x.op in ops for x in walk(t))


# --------------------------------------------------------------------------------------------------------------------
# Constants


def num(c):
    if isinstance(c, float):
        c = Fraction(repr(c))
    return raw("num", Fraction(c))


def const(v):
    if isinstance(v, bool):
        return raw("const", "bool", v)
    if v is None:
        return raw("const", "none", "None")
    if isinstance(v, str):
        return raw("const", "str", v)
    if v is Ellipsis:
        return raw("const", "ellipsis", "...")
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return raw("const", "float", repr(v))
        return num(v)
    return raw("const", type(v).__name__, repr(v))


ZERO = num(0)
ONE = num(1)
TRUE = const(True)
FALSE = const(False)
NONE = const(None)
NEVER = raw("never")  # the value of a call that always raises


def is_num(t):
    return t.op == "num"


def int_of(t):
    if t.op == "num" and t.a[0].denominator == 1:
        return int(t.a[0])
    return None


# --------------------------------------------------------------------------------------------------------------------
# Arithmetic: rational polynomials over atoms

MONO1 = frozenset()
MAX_TERMS = 300

NONNEG_HOOK = [lambda t: False]
SCALAR_HOOK = [lambda t: False]


def is_scalar(t):
    if t.op == "num":
        return True
    if t.op == "poly":
        return all(is_scalar(at) for mono, _ in t.a[0] for at, _e in mono)
    if t.op in ("psum", "len"):
        return True
    if t.op in ("sum", "prod", "rmax", "rmin", "norm"):
        return t.a[1] == "all"
    if t.op in ("max", "min"):
        return all(is_scalar(x) for x in t.a[0])
    if t.op == "select":
        return is_scalar(t.a[1]) and is_scalar(t.a[2])
    if t.op in ("abs", "log", "exp"):
        return is_scalar(t.a[0])
    if t.op == "fn":
        return is_scalar(t.a[1])
    return SCALAR_HOOK[0](t)


def is_nonneg(t):
    if t.op == "num":
        return t.a[0] >= 0
    if t.op == "abs" or t.op == "len":
        return True
    if t.op == "sum":
        return is_nonneg(t.a[0])
    if t.op == "poly":
        return all(c >= 0 and all(e % 2 == 0 or e.denominator == 2 or is_nonneg(at) for at, e in mono) for mono, c in t.a[0])
    if t.op == "max":
        return any(is_nonneg(x) for x in t.a[0])
    if t.op == "select":
        return is_nonneg(t.a[1]) and is_nonneg(t.a[2])
    return NONNEG_HOOK[0](t)


def to_poly(t):
    if t.op == "num":
        return {MONO1: t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {frozenset(((t, Fraction(1)),)): Fraction(1)}


def factors(t):
    """The atoms of a plain product, None when it is not one."""
    if t.op != "poly" or len(t.a[0]) != 1:
        return None
    ((m, c),) = t.a[0]
    if c != 1 or any(e != 1 for _, e in m):
        return None
    return [x for x, _ in m]


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == MONO1:
            return num(c)
        if c == 1 and len(m) == 1:
            (at, e), = m
            if e == 1:
                return at
    return raw("poly", frozenset(d.items()))


@cons("poly")
def _poly_rebuild(fs):
    return add(*[mul(num(c), *[power(at, e) for at, e in m]) for m, c in fs])


def add(*ts):
    d = {}
    for t in ts:
        for m, c in to_poly(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def _mul_mono(m1, m2):
    """Returns (monomial, [poly atoms that must be expanded])."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for at, e in m2:
        d[at] = d.get(at, 0) + e
    return frozenset((at, e) for at, e in d.items() if e != 0)


def _expandable(m):
    for at, e in m:
        if at.op == "poly" and e.denominator == 1 and e > 0:
            return at, e
        if at.op == "num":
            return at, e
    return None


def _norm_monos(d):
    """Expand monomials in which a polynomial atom has reached a positive integer power."""
    out = {}
    work = list(d.items())
    while work:
        m, c = work.pop()
        if any(at.op == "abs" and e.denominator == 1 and e.numerator % 2 == 0 for at, e in m):
            # an even power forgets the absolute value
            keep = frozenset(p for p in m if not (p[0].op == "abs" and p[1].denominator == 1 and p[1].numerator % 2 == 0))
            q = {keep: c}
            for at, e in m:
                if at.op == "abs" and e.denominator == 1 and e.numerator % 2 == 0:
                    q = _mul_poly_raw(q, to_poly(power(at.a[0], e)))
            work.extend(q.items())
            continue
        x = _expandable(m)
        if x is None:
            out[m] = out.get(m, 0) + c
            continue
        at, e = x
        rest = frozenset(p for p in m if p[0] is not at)
        if at.op == "num" and e.denominator == 1:
            work.append((rest, c * at.a[0] ** int(e)))
            continue
        if at.op == "num":
            out[m] = out.get(m, 0) + c
            continue
        p = to_poly(at)
        q = {rest: c}
        for _ in range(int(e)):
            q = _mul_poly_raw(q, p)
        work.extend(q.items())
    return out


def _mul_poly_raw(p, q):
    d = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mul_mono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return d


def mul(*ts):
    d = {MONO1: Fraction(1)}
    for t in ts:
        p = to_poly(t)
        if len(d) * len(p) > MAX_TERMS:
            # too large to expand: keep the factors as atoms
            p = {frozenset(((raw("frozen", t), Fraction(1)),)): Fraction(1)}
            if len(d) > MAX_TERMS // 2:
                d = {frozenset(((raw("frozen", from_poly(d)), Fraction(1)),)): Fraction(1)}
        d = _mul_poly_raw(d, p)
    return from_poly(_norm_monos(d))


def _content(p):
    """Scale factor making the leading coefficient 1 (leading = smallest digest)."""
    lead = min(p, key=lambda m: sorted((digest(at), str(e)) for at, e in m))
    return p[lead]


def _int_root(c, k):
    """Exact rational k-th root of a positive rational, or None."""
    def root(n):
        r = round(n ** (1.0 / k))
        for x in (r - 1, r, r + 1):
            if x >= 0 and x**k == n:
                return x
        return None

    a, b = root(c.numerator), root(c.denominator)
    return None if a is None or b is None else Fraction(a, b)


def power(t, e):
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    p = to_poly(t)
    if not p:
        return ZERO if e > 0 else raw("const", "float", "div0")
    if e.denominator == 1 and e > 0 and len(p) > 1 and len(p) ** int(e) <= MAX_TERMS and e <= 4:
        q = {MONO1: Fraction(1)}
        for _ in range(int(e)):
            q = _mul_poly_raw(q, p)
        return from_poly(_norm_monos(q))
    if len(p) == 1:
        (m, c), = p.items()
        out = {}
        coef = Fraction(1)
        monos = []
        if e.denominator == 1:
            coef = c ** int(e)
        elif c > 0:
            r = _int_root(c, e.denominator)
            if r is not None:
                coef = r ** int(e.numerator)
            else:
                monos.append((num(c), e))
        else:
            return raw("poly", frozenset({frozenset(((raw("negroot", t), e),)): Fraction(1)}.items()))
        for at, k in m:
            ke = k * e
            if e.denominator != 1 and k.denominator == 1 and k % 2 == 0 and not (ke.denominator == 1 and ke % 2 == 0) and not is_nonneg(at):
                at = absval(at)
            monos.append((at, ke))
        dd = {}
        for at, k in monos:
            dd[at] = dd.get(at, 0) + k
        return from_poly(_norm_monos({frozenset((a_, k_) for a_, k_ in dd.items() if k_ != 0): coef}))
    # a sum under an inverse or a root
    if e.denominator == 1:
        c = _content(p)
        base = from_poly({m: v / c for m, v in p.items()})
        return from_poly({frozenset(((base, e),)): c ** int(e)})
    return from_poly({frozenset(((t, e),)): Fraction(1)})


def div(a, b):
    return mul(a, power(b, -1))


@cons("abs")
def absval(t):
    if is_nonneg(t):
        return t
    if t.op == "select" and kind_condition(t.a[0]):
        return select(t.a[0], absval(t.a[1]), absval(t.a[2]))
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if m == MONO1:
            return num(abs(c))
        if len(m) > 1 or c != 1 or next(iter(m))[1] != 1:
            fac = [num(abs(c))]
            for at, e in m:
                fac.append(power(absval(at), e))
            return mul(*fac)
    else:
        if _content(p) < 0:
            t = neg(t)
    if t.op == "abs":
        return t
    return raw("abs", t)


def kind_condition(c):
    """A condition about the kind of an object: one truth value, the same for
    every array element, and worth splitting a value on."""
    if c.op in ("and", "or"):
        return all(kind_condition(x) for x in c.a[0])
    if c.op == "not":
        return kind_condition(c.a[0])
    return c.op in ("isinst", "hasattr", "in", "subcls")


@cons("log")
def log(t):
    if t.op == "select" and kind_condition(t.a[0]):
        return select(t.a[0], log(t.a[1]), log(t.a[2]))
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if m != MONO1 and c > 0 and not (c == 1 and len(m) == 1 and next(iter(m))[1] == 1):
            parts = [] if c == 1 else [raw("log", num(c))]
            for at, e in m:
                parts.append(mul(num(e), log(at)))
            return add(*parts)
    if t is ONE:
        return ZERO
    if t.op == "abs" and t.a[0].op == "prod":
        x, ax = t.a[0].a
        return mk("sum", log(absval(x)), ax)
    if t.op == "prod":
        return mk("sum", log(t.a[0]), t.a[1])
    return raw("log", t)


@cons("exp")
def exp_(t):
    if t is ZERO:
        return ONE
    return raw("exp", t)


def split_scalars(mono, pred=None):
    """Split a monomial into (scalar factors, remaining factors)."""
    sc, rest = [], []
    for at, e in mono:
        (sc if is_scalar(at) else rest).append((at, e))
    return sc, rest


def _linear(op, t, *params):
    """Apply a linear operator to each monomial, pulling scalars out."""
    p = to_poly(t)
    if not p:
        return ZERO
    out = []
    for m, c in p.items():
        sc, rest = split_scalars(m)
        inner = from_poly({frozenset(rest): Fraction(1)})
        out.append(mul(num(c), *[power(a, e) for a, e in sc], raw(op, *params_insert(op, inner, params))))
    return add(*out)


def params_insert(op, inner, params):
    if op in ("sum",):
        return (inner,) + tuple(params)
    return tuple(params) + (inner,)


@cons("sum")
def sum_(t, axis="all"):
    if t.op == "list":
        items = list_items(t)
        if items is not None:
            return add(*items) if items else ZERO
        if len(t.a[0]) == 1 and t.a[0][0].op == "for":
            f = t.a[0][0]
            s = fresh("j")
            body = open_(f.a[1], s)
            it = list_items(body)
            if it is not None and len(it) == 1:
                return psum(f.a[0], close(s, it[0]))
        return raw("sum", t, axis)
    if t.op == "select" and kind_condition(t.a[0]):
        return select(t.a[0], sum_(t.a[1], axis), sum_(t.a[2], axis))
    if t.op == "sum" and axis == "all":
        return sum_(t.a[0], "all")
    if t.op == "vmap" and axis == "all":
        return raw("sum", t, axis) if False else _sum_all(t)
    return _linear("sum", t, axis) if axis != "all" else _sum_all(t)


def _sum_all(t):
    p = to_poly(t)
    if not p:
        return ZERO
    out = []
    for m, c in p.items():
        sc, rest = split_scalars(m)
        inner = from_poly({frozenset(rest): Fraction(1)})
        if inner.op == "sum":
            inner = inner.a[0]
        if inner.op in ("ravel", "reshape"):
            inner = inner.a[0]
        if not rest and c == 1 and sc and len(p) == 1:
            pass
        out.append(mul(num(c), *[power(a, e) for a, e in sc], raw("sum", inner, "all")))
    return add(*out)


@cons("psum")
def psum(n, lam):
    """Sum of lam(i) for i < n."""
    if n is ZERO:
        return ZERO
    if const_body(lam):
        return mul(n, lam.a[1])
    s = fresh("p")
    body = open_(lam, s)
    p = to_poly(body)
    out = []
    for m, c in p.items():
        dep, indep = [], []
        for at, e in m:
            (dep if s in at.fs else indep).append((at, e))
        inner = from_poly({frozenset(dep): Fraction(1)})
        base = mul(num(c), *[power(a, e) for a, e in indep])
        if inner is ONE:
            out.append(mul(base, n))
        else:
            out.append(mul(base, _psum_of(n, s, inner)))
    return add(*out)


def _psum_of(n, s, inner):
    if inner.op == "select" and s in inner.a[0].fs:
        c, a, b = inner.a
        # a summand that is there or not: a count
        if b is ZERO and a is not ONE and s not in a.fs:
            return mul(a, psum(n, close(s, select(c, ONE, ZERO))))
        if a is ZERO and b is not ONE and s not in b.fs:
            return mul(b, psum(n, close(s, select(c, ZERO, ONE))))
        if c.op == "not":
            c, a, b = c.a[0], b, a
        found = _bucket(n, s, c) if b is ZERO else None
        if found is not None:
            r = _in_bucket(a, s, c, found)
            if r is not None:
                return psum(length(found[3]), close(*r))
    return raw("psum", n, close(s, inner))


@cons("spmv")
def spmv(A, x):
    p = to_poly(x)
    if not p:
        return ZERO
    out = []
    for m, c in p.items():
        sc, rest = split_scalars(m)
        inner = from_poly({frozenset(rest): Fraction(1)})
        out.append(mul(num(c), *[power(a, e) for a, e in sc], raw("spmv", A, inner)))
    return add(*out)


NDIM_HOOK = [lambda t: None]


def ndim(t):
    r = NDIM_HOOK[0](t)
    if r is not None:
        return r
    if t.op == "sym":
        return SYM_NDIM.get(t)
    if t.op == "num":
        return 0
    if t.op in ("spmv", "flat", "ravel"):
        return 1
    if t.op == "poly":
        ds = [max((ndim(at) if ndim(at) is not None else -1 for at, _ in m), default=0) for m, _ in t.a[0]]
        if any(any(ndim(at) is None for at, _ in m) for m, _ in t.a[0]):
            return None
        return max(ds)
    if t.op == "select":
        a, b = ndim(t.a[1]), ndim(t.a[2])
        return a if a == b else None
    if t.op == "transpose":
        return ndim(t.a[0])
    if t.op == "fn":
        return ndim(t.a[1])
    if t.op == "newaxis":
        d = ndim(t.a[0])
        return None if d is None else d + 1
    if t.op == "diag":
        return 2
    if t.op == "eye":
        return 2
    if t.op == "inv":
        return 2
    if t.op == "cholesky":
        return 2
    if t.op == "matmul":
        a, b = ndim(t.a[0][0]), ndim(t.a[0][-1])
        if a is None or b is None:
            return None
        return a + b - 2
    if is_scalar(t):
        return 0
    return None


@cons("matmul")
def matmul(fs):
    """Product of a flat tuple of factors; constants are pulled out, sums distributed."""
    flat = []
    for f in fs:
        if f.op == "matmul":
            flat.extend(f.a[0])
        else:
            flat.append(f)
    # distribute over polynomials
    for i, f in enumerate(flat):
        if f.op == "poly" or f.op == "num":
            p = to_poly(f)
            if f.op == "num":
                if f is ZERO:
                    return ZERO
                continue
            if len(p) == 1:
                (m, c), = p.items()
                sc, rest = split_scalars(m)
                if c != 1 or sc:
                    inner = from_poly({frozenset(rest): Fraction(1)})
                    return mul(num(c), *[power(a, e) for a, e in sc], matmul(tuple(flat[:i] + [inner] + flat[i + 1:])))
            else:
                return add(*[matmul(tuple(flat[:i] + [from_poly({m: c})] + flat[i + 1:])) for m, c in p.items()])
    # drop identities and inverse pairs
    out = []
    for f in flat:
        if f.op == "eye" and len(flat) > 1:
            continue
        if out and ((out[-1].op == "inv" and out[-1].a[0] is f) or (f.op == "inv" and f.a[0] is out[-1])):
            out.pop()
            continue
        if out and ((out[-1].op == "ginv" and out[-1].a[0] is f) or (f.op == "ginv" and f.a[0] is out[-1])):
            out.pop()
            continue
        out.append(f)
    if not out:
        return flat[0] if flat[0].op == "eye" else raw("eye", raw("unknown_dim"))
    if len(out) == 1:
        return out[0]
    if len(out) == 2:
        a, b = out
        if ndim(a) == 1 and ndim(b) == 1:
            return sum_(mul(a, b))
        if a.op == "diag" and ndim(b) == 1:
            return mul(a.a[0], b)
        if a.op == "diag" and ndim(b) == 2:
            return mul(raw("newaxis", a.a[0], 1), b)
        if a.op == "transpose" and False:
            pass
    return raw("matmul", tuple(out))


@cons("transpose")
def transpose(t):
    if t.op == "transpose":
        return t.a[0]
    if ndim(t) in (0, 1):
        return t
    if t.op == "matmul":
        return matmul(tuple(transpose(x) for x in reversed(t.a[0])))
    if t.op in ("eye", "diag"):
        return t
    if t.op == "arr" and len(t.a[1]) == 2:
        sizes, (g, h), _ = t.a
        syms = [fresh("x") for _ in sizes]
        b = arr_elem(t, syms)
        order = list(h) + list(g)
        for i in reversed(order):
            b = close(syms[i], b)
        return mk("arr", tuple(sizes[i] for i in order), (tuple(range(len(h))), tuple(range(len(h), len(order)))), b)
    if t.op == "inv":
        return mk("inv", transpose(t.a[0]))
    if t.op == "poly":
        p = to_poly(t)
        out = []
        for m, c in p.items():
            sc, rest = split_scalars(m)
            if len(rest) == 1 and rest[0][1] == 1:
                out.append(mul(num(c), *[power(a, e) for a, e in sc], transpose(rest[0][0])))
            elif len(rest) == 2 and all(e == 1 for _, e in rest):
                # (X^T * d)^T with d one-dimensional: scale the rows of X
                (x, _), (y, _) = rest
                if ndim(x) == 1:
                    x, y = y, x
                if ndim(y) == 1 and ndim(x) == 2:
                    out.append(mul(num(c), *[power(a, e) for a, e in sc], transpose(x), raw("newaxis", y, 1)))
                else:
                    return raw("transpose", t)
            else:
                return raw("transpose", t)
        return add(*out)
    return raw("transpose", t)


@cons("inv")
def inv(t):
    if t.op == "inv":
        return t.a[0]
    if t.op == "eye":
        return t
    return raw("inv", t)


@cons("ginv")
def ginv(t):
    """Group inverse."""
    if t.op == "ginv":
        return t.a[0]
    if t.op == "matmul":
        return matmul(tuple(ginv(x) for x in reversed(t.a[0])))
    if t.op == "gexp":
        return raw("gexp", t.a[0], neg(t.a[1]))
    return raw("ginv", t)


# --------------------------------------------------------------------------------------------------------------------
# Booleans, comparisons, selects


@cons("not")
def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "and":
        return or_(*[not_(x) for x in c.a[0]])
    if c.op == "or":
        return and_(*[not_(x) for x in c.a[0]])
    if c.op == "select":
        return select(c.a[0], not_(c.a[1]), not_(c.a[2]))
    return raw("not", c)


def equated(c):
    """The difference that an equation says is zero."""
    if c.op == "eq0":
        return c.a[0]
    if c.op == "eq" and len(c.a[0]) == 2 and all(isinstance(x, T) and x.op in ("index", "sym", "poly", "len", "select") for x in c.a[0]):
        x, y = c.a[0]
        return _cmp_norm(sub(x, y))
    return None


def _flat(op, xs, unit, absorb):
    out = set()
    for x in xs:
        if x is unit:
            continue
        if x is absorb:
            return absorb
        if x.op == op:
            out |= x.a[0]
        else:
            out.add(x)
    for x in out:
        if not_(x) in out:
            return absorb
    # what is greater is not equal
    if len(out) > 1:
        more = {to for x in out for y in [x if op == "and" else not_(x)] if y.op == "gt0" for to in (y.a[0], neg(y.a[0]))}
        out -= {x for x in out for y in [not_(x) if op == "and" else x] if more and equated(y) in more}
    # a known number of elements counts in the other conditions
    for x in out if len(out) > 1 else ():
        k = x.a[0] if op == "or" and x.op == "not" else x if op == "and" else None
        if k is None or k.op != "eq0":
            continue
        p = to_poly(k.a[0])
        of = [m for m in p if len(m) == 1 and next(iter(m))[0].op in ("len", "select") and next(iter(m))[1] == 1]
        if len(of) != 1 or set(p) - {of[0], MONO1}:
            continue
        (at, _), = of[0]
        n = num(-p.get(MONO1, 0) / p[of[0]])

        def counted(of):
            def f(t):
                if t is of:
                    return n
                if t.op == "index" and t.a[0] is of.a[0] and (int_of(t.a[1]) or 0) < 0:
                    return index(t.a[0], add(n, t.a[1]))

            return f

        if at.op == "len":
            known = counted(at)
        elif at.a[1].op == at.a[2].op == "len":
            # one of two sequences, each of which has that many elements where it is the one
            known = lambda t: select(t.a[0], *[rewrite(v, counted(m)) for v, m in zip(t.a[1:], at.a[1:])]) if t.op == "select" and t.a[0] is at.a[0] and t is not at else None
        else:
            continue
        new = {y if y is x else rewrite(y, known) for y in out}
        if new != out:
            return _flat(op, new, unit, absorb)
    # absorption: a and (a or b) = a ; a or (a and b) = a ; a and (not a or b) = a and b
    dual = "or" if op == "and" else "and"
    changed = True
    while changed:
        changed = False
        for x in list(out):
            if x.op == dual:
                if x.a[0] & out:
                    out.discard(x)
                    changed = True
                    break
                negs = {y for y in x.a[0] if not_(y) in out}
                if negs:
                    out.discard(x)
                    rest = x.a[0] - negs
                    new = (or_ if dual == "or" else and_)(*rest)
                    if new is absorb:
                        return absorb
                    if new is not unit:
                        if new.op == op:
                            out |= new.a[0]
                        else:
                            out.add(new)
                    changed = True
                    break
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out))
    return raw(op, frozenset(out))


def and_(*xs):
    return _flat("and", xs, TRUE, FALSE)


def or_(*xs):
    return _flat("or", xs, FALSE, TRUE)


CONS["and"] = lambda fs: and_(*fs)
CONS["or"] = lambda fs: or_(*fs)


def _cmp_norm(p):
    """Scale a difference by a positive constant so that equal comparisons coincide."""
    d = to_poly(p)
    if not d:
        return ZERO
    c = abs(_content(d))
    return from_poly({m: v / c for m, v in d.items()})


UNBOUNDED = set()  # symbols standing for a limit that is never reached


def _fold_cmp(p, f):
    if p.op == "num":
        return TRUE if f(p.a[0]) else FALSE
    return None


def _clear(p):
    """Multiply a difference by the nonnegative quantities it is divided by."""
    low = {}
    for m in to_poly(p):
        for at, e in m:
            if e < 0 and e < low.get(at, 0) and is_nonneg(at):
                low[at] = e
    if low:
        p = mul(p, from_poly({frozenset((at, -e) for at, e in low.items()): Fraction(1)}))
    return p


def _square_sides(p):
    """x > y for nonnegative x, y is compared by squares when roots are involved."""
    d = to_poly(p)
    if len(d) != 2 or not any(e.denominator == 2 for m in d for _, e in m):
        return p
    (m1, c1), (m2, c2) = d.items()
    if c1 * c2 >= 0:
        return p
    for m in d:
        if not all(e.denominator == 2 or (e.denominator == 1 and (e % 2 == 0 or is_nonneg(at))) for at, e in m):
            return p
    out = ZERO
    for m, c in d.items():
        out = add(out, from_poly({frozenset((at, 2 * e) for at, e in m): c * c if c > 0 else -c * c}))
    return out


def _bucket_size(p):
    """The number of elements filed under a key that occurs."""
    if p.op != "len" or p.a[0].op != "get":
        return False
    d, k = p.a[0].a[:2]
    if d.op != "dict" or d.a[0] is not EMPTYDICT or len(d.a[1]) != 1 or d.a[1][0].op != "for" or k.op != "index" or k.a[0].op != "uniq":
        return False
    n, lam = d.a[1][0].a
    s = fresh("i")
    b = open_(lam, s)
    if b.op != "dict" or b.a[0].op != "nil" or len(b.a[1]) != 1 or b.a[1][0].op != "app":
        return False
    return mk("uniq", map_list(n, s, b.a[1][0].a[0])) is k.a[0]


@cons("gt0")
def gt0(p):
    if _bucket_size(p):
        return TRUE
    r = _unbounded(p) if UNBOUNDED else None
    if r is None:
        r = _fold_cmp(p, lambda c: c > 0)
    return r if r is not None else raw("gt0", _cmp_norm(_square_sides(_clear(p))))


@cons("ge0")
def ge0(p):
    r = _unbounded(p) if UNBOUNDED else None
    if r is None:
        r = _fold_cmp(p, lambda c: c >= 0)
    return r if r is not None else raw("ge0", _cmp_norm(_square_sides(p)))


def _unbounded(p):
    """The sign of a difference with a limit that is never reached."""
    if p.op == "poly":
        for m, c in p.a[0]:
            if len(m) == 1 and all(at in UNBOUNDED and e == 1 for at, e in m):
                return TRUE if c > 0 else FALSE
    return None


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    return ge0(sub(b, a))


def _is_lit(t):
    return t.op in ("num", "const", "cls", "ext")


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "select" and not _is_lit(a):
        if _is_lit(b) and (_is_lit(a.a[1]) or _is_lit(a.a[2])):
            return select(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == "select":
        if _is_lit(a) and (_is_lit(b.a[1]) or _is_lit(b.a[2])):
            return select(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if _is_lit(a) and _is_lit(b):
        return FALSE
    if a in (TRUE, FALSE):
        a, b = b, a
    if b is TRUE:
        return a
    if b is FALSE:
        return not_(a)
    if a.op in ("poly", "num", "len", "psum") or b.op in ("poly", "num", "len", "psum"):
        d = to_poly(sub(a, b))
        if not d:
            return TRUE
        if len(d) == 1 and MONO1 in d:
            return FALSE
        c = _content(d)
        p = from_poly({m: v / c for m, v in d.items()})
        return FALSE if _bucket_size(p) else raw("eq0", p)
    if a.op == "list" and b.op == "list":
        ia, ib = list_items(a), list_items(b)
        if ia is not None and ib is not None:
            if len(ia) != len(ib):
                return FALSE
            return and_(*[eq(x, y) for x, y in zip(ia, ib)])
    return raw("eq", frozenset((a, b)))


CONS["eq"] = lambda fs: eq(*(tuple(fs) if len(fs) == 2 else (tuple(fs) * 2)))
CONS["eq0"] = lambda p: eq(p, ZERO)


@cons("select")
def select(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or b is NEVER:
        return a
    if a is NEVER:
        return b
    if c.op == "not":
        return select(c.a[0], b, a)
    if b.op == "get" and a.op == "get" and a.a[0] is c and _no_items(b.a[0]):
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b)
    if b is FALSE:
        return and_(c, a)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if a.op == "select" and a.a[0] is c:
        return select(c, a.a[1], b)
    if b.op == "select" and b.a[0] is c:
        return select(c, a, b.a[2])
    if a.op == "obj" and b.op == "obj" and a.a[0] == b.a[0]:
        return mk("obj", a.a[0], tuple((f, select(c, x, y)) for (f, x), (_, y) in zip(a.a[1], b.a[1])))
    if a.op == "list" and b.op == "list":
        ia, ib = list_items(a), list_items(b)
        if ia is not None and ib is not None and len(ia) == len(ib):
            return mklist([select(c, x, y) for x, y in zip(ia, ib)])
    if a.op == "arr" and b.op == "arr" and a.a[1] == b.a[1] and len(a.a[0]) == len(b.a[0]):
        # arrays of the same shape, given the condition: chosen element by element
        known = c.a[0] if c.op == "and" else (c,)
        if all(x is y or eq(x, y) in known for x, y in zip(a.a[0], b.a[0])):
            xs = [fresh("x") for _ in a.a[0]]
            body = select(c, arr_elem(a, xs), arr_elem(b, xs))
            for x in reversed(xs):
                body = close(x, body)
            return mk("arr", b.a[0], b.a[1], body)
    if (a.op == "poly" or b.op == "poly") and kind_condition(c):
        # a common factor of both sides
        ks = {k for x in (a, b) if x is not ZERO for k in to_poly(x).values()}
        if len(ks) == 1 and ks != {1}:
            (k,) = ks
            return mul(num(k), select(c, div(a, num(k)), div(b, num(k))))
    return raw("select", c, a, b)


def _minmax(op, xs):
    out = set()
    best = None
    for x in xs:
        ys = x.a[0] if x.op == op else (x,)
        for y in ys:
            if y.op == "num":
                if best is None:
                    best = y.a[0]
                else:
                    best = max(best, y.a[0]) if op == "max" else min(best, y.a[0])
            else:
                out.add(y)
    if best is not None:
        out.add(num(best))
    if len(out) == 1:
        return next(iter(out))
    if op == "min" and best == 1 and len(out) == 2:
        # a share that is cut off at the whole: what a length is divided by, when it is the longer
        (y,) = out - {ONE}
        p = to_poly(y)
        below = [(at, e) for mono in p for at, e in mono if e < 0]
        if len(p) == 1 and len(below) == 1 and below[0][1] == Fraction(-1, 2):
            n = power(below[0][0], Fraction(1, 2))
            return select(lt(n, mul(y, n)), ONE, y)
    return raw(op, frozenset(out))


def max_(*xs):
    return _minmax("max", xs)


def min_(*xs):
    return _minmax("min", xs)


CONS["max"] = lambda fs: max_(*fs)
CONS["min"] = lambda fs: min_(*fs)

# --------------------------------------------------------------------------------------------------------------------
# Sequences and mappings as event logs


def mklist(items):
    return mk("list", tuple(raw("one", x) for x in items))


def list_items(t):
    """Explicit items of a list term, or None when it contains symbolic segments."""
    if t.op != "list":
        return None
    out = []
    for s in t.a[0]:
        if s.op != "one":
            return None
        out.append(s.a[0])
    return out


def map_list(n, s, item):
    """[item(s) for s < n]"""
    return mk("list", (mk("for", n, close(s, mklist([item]))),))


@cons("for")
def for_(n, lam):
    return raw("for", n, lam)


def _bucket(n, s, c):
    """The elements of a whole sequence picked out by `key(element s) == k`, k one of the keys that occur: the
    sequence, the key, k and the bucket of k in the mapping from keys to elements.  None if this is not such a test."""
    if c.op != "eq":
        return None
    two = tuple(c.a[0])
    for key, k in (two, two[::-1]) if len(two) == 2 else ():
        if s not in key.fs or s in k.fs or k.op != "index" or k.a[0].op != "uniq":
            continue
        if mk("uniq", map_list(n, s, key)) is not k.a[0]:
            continue
        seqs = {x.a[0] for x in walk(key) if x.op == "index" and x.a[1] is s and s not in x.a[0].fs and length(x.a[0]) is n}
        if len(seqs) != 1:
            continue
        seq = seqs.pop()
        event = mk("for", n, close(s, mk("dict", raw("nil"), (mk("app", key, mk("index", seq, s)),))))
        return seq, key, k, mk("get", mk("dict", EMPTYDICT, (event,)), k)
    return None


def _in_bucket(t, s, c, found):
    """A term about element s of the sequence, said of element j of the bucket: (j, term), or None."""
    seq, key, k, B = found
    j, u = fresh("j", ("scal",)), fresh("u")
    elem = mk("index", seq, s)
    count = mk("psum", s, close(u, select(subst(c, {s: u}), ONE, ZERO)))
    t = rewrite(t, lambda r: j if r is count else (k if r is key else None))
    t = rewrite(t, lambda r: mk("index", B, j) if r is elem else None)
    return None if s in t.fs else (j, t)


def _bucket_loop(seg):
    """for i < n: if key(x[i]) == k: ...   as a loop over the bucket of k."""
    n, lam = seg.a
    body = lam.a[1]
    segs = body.a[0 if body.op == "list" else 1] if body.op in ("list", "dict") else ()
    if len(segs) != 1 or segs[0].op != "if":
        return None
    s = fresh("s", ("scal",))
    body = open_(lam, s)
    segs = body.a[0 if body.op == "list" else 1] if body.op in ("list", "dict") else ()
    if len(segs) != 1 or segs[0].op != "if":
        return None
    c, a, b = segs[0].a
    if c.op == "not":
        c, a, b = c.a[0], b, a
    if a.op != body.op or b.op != body.op or b.a[-1]:
        return None
    found = _bucket(n, s, c)
    if found is None:
        return None
    r = _in_bucket(a, s, c, found)
    return None if r is None else mk("for", length(found[3]), close(*r))


@cons("list")
def list_(segs):
    out = []
    for s in segs:
        if s.op == "for":
            s = _bucket_loop(s) or s
            n, lam = s.a
            if n is ZERO:
                continue
            body = lam.a[1]
            if body.op == "list" and not body.a[0]:
                continue
            k = int_of(n)
            if k is not None and 0 <= k <= 32 and body.op == "list":
                for i in range(k):
                    out.extend(open_(lam, num(i)).a[0])
                continue
            # eta: for i < len(X): X[i]
            if body.op == "list" and len(body.a[0]) == 1 and body.a[0][0].op == "one":
                x = body.a[0][0].a[0]
                bv = raw("bv", lam.a[0])
                if x.op == "index" and x.a[1] is bv and bv not in x.a[0].fs and length(x.a[0]) is n:
                    s = raw("spread", x.a[0])
        if s.op == "spread":
            x = s.a[0]
            if x.op == "list":
                out.extend(x.a[0])
                continue
        if s.op == "if":
            c, l1, l2 = s.a
            l = l1 if c is TRUE or l1 is l2 else (l2 if c is FALSE else None)
            if l is not None:
                out.extend(l.a[0] if l.op == "list" else [raw("spread", l)])
                continue
            i1, i2 = list_items(l1), list_items(l2)
            if i1 is not None and i2 is not None and len(i1) == len(i2):
                out.extend(raw("one", select(c, p, q)) for p, q in zip(i1, i2))
                continue
        out.append(s)
    if len(out) == 1 and out[0].op == "spread":
        return out[0].a[0]
    return raw("list", tuple(out))


CONS["one"] = lambda x: raw("one", x)
CONS["spread"] = lambda x: raw("spread", x)
CONS["if"] = lambda c, a, b: raw("if", c, a, b)

LEN_HOOK = [lambda t: None]


@cons("len")
def length(t):
    if t.op == "list":
        out = []
        for s in t.a[0]:
            if s.op == "one":
                out.append(ONE)
            elif s.op == "for":
                out.append(psum_len(s))
            elif s.op == "spread":
                out.append(length(s.a[0]))
            elif s.op == "if":
                out.append(select(s.a[0], length(s.a[1]), length(s.a[2])))
        return add(*out)
    if t.op == "const" and t.a[0] == "str":
        return num(len(t.a[1]))
    if t.op in ("keys", "sorted", "rev"):
        return length(t.a[0])
    if t.op == "attr" and type_table(t) is not t:
        return length(type_table(t))
    if t.op == "dict" and t.a[0].op == "emptydict":
        # distinct keys only when they come from an already duplicate-free sequence
        k = mk("keys", t)
        if k.op != "keys":
            return length(k)
    if t.op == "select":
        return select(t.a[0], length(t.a[1]), length(t.a[2]))
    if t.op == "arr":
        sizes, groups, _ = t.a
        return mul(*[sizes[i] for i in groups[0]]) if groups else ZERO
    if t.op == "slice":
        return t.a[2]
    if t.op == "rev":
        return length(t.a[0])
    if t.op == "zerosn":
        return t.a[0]
    r = LEN_HOOK[0](t)
    if r is not None:
        return r
    return raw("len", t)


def psum_len(f):
    n, lam = f.a
    s = fresh("l")
    return psum(n, close(s, length(open_(lam, s))))


INDEX_HOOK = [lambda x, k: None]


@cons("index")
def index(x, k):
    ki = int_of(k)
    if x.op == "list":
        segs = x.a[0]
        if ki is not None:
            items = list_items(x)
            if items is not None:
                if -len(items) <= ki < len(items):
                    return items[ki]
            elif ki >= 0:
                if all(s.op == "one" for s in segs[: ki + 1]) and len(segs) > ki:
                    return segs[ki].a[0]
            else:
                tail = segs[ki:]
                if len(tail) == -ki and all(s.op == "one" for s in tail):
                    return tail[0].a[0]
        if len(segs) == 1 and segs[0].op == "for" and not (ki is not None and ki < 0):
            body = segs[0].a[1].a[1]
            if body.op == "list" and len(body.a[0]) == 1 and body.a[0][0].op == "one":
                return open_(segs[0].a[1], k).a[0][0].a[0]
        if len(segs) == 1 and segs[0].op == "for" and ki is not None and ki < 0:
            body = segs[0].a[1].a[1]
            if body.op == "list" and len(body.a[0]) == 1 and body.a[0][0].op == "one":
                return open_(segs[0].a[1], add(segs[0].a[0], k)).a[0][0].a[0]
    if x.op == "select":
        return select(x.a[0], index(x.a[1], k), index(x.a[2], k))
    if x.op == "obj" and ki is not None and 0 <= ki < len(x.a[1]):
        return x.a[1][ki][1]  # named tuple
    if x.op == "rev":
        return index(x.a[0], sub(sub(length(x.a[0]), ONE), k))
    if x.op == "sorted" and x.a[0].op == "list" and not (ki is not None and ki < 0):
        # some permutation of the elements
        r = index(x.a[0], raw("perm", x, k))
        if r.op != "index":
            return r
    if x.op == "slice" and x.a[0].op in ("list", "shape") and not (ki is not None and ki < 0):
        r = index(x.a[0], add(x.a[1], k))
        if r.op != "index" or x.a[0].op == "shape":
            return r
    if x.op == "shape" and ki is None:
        last = int_of(sub(k, length(x)))
        if last is not None and last < 0:
            return index(x, num(last))
    if x.op == "tree_map" and x.a[0].op == "list":
        its = list_items(x.a[0])
        if its is not None and len(its) == 1:
            return mk("tree_map", mklist([index(its[0], k)]), x.a[1])
    if x.op == "shape" and ki == 0:
        return length(x.a[0])
    r = INDEX_HOOK[0](x, k)
    if r is not None:
        return r
    return raw("index", x, k)


@cons("slice")
def slice_(x, start, n):
    if x.op == "slice":
        return slice_(x.a[0], add(x.a[1], start), n)
    items = list_items(x)
    if items is not None:
        s, k = int_of(start), int_of(n)
        if s is not None and k is not None and 0 <= s and s + k <= len(items):
            return mklist(items[s : s + k])
    if start is ZERO and n is length(x):
        return x
    if x.op == "list" and x.a[0] and x.a[0][0].op == "one" and (int_of(start) or 0) > 0:
        return slice_(mk("list", x.a[0][1:]), sub(start, ONE), n)
    if x.op == "arr":
        sizes, groups, body = x.a
        if len(groups) == 1 and len(groups[0]) == 1:
            s = fresh("q")
            return mk("arr", (n,), groups, close(s, open_(body, add(s, start))))
    if x.op == "select":
        return select(x.a[0], slice_(x.a[1], start, n), slice_(x.a[2], start, n))
    return raw("slice", x, start, n)


EMPTYDICT = raw("emptydict")


@cons("dict")
def dict_(base, events):
    out = []
    for e in events:
        if e.op == "for":
            e = _bucket_loop(e) or e
            n, lam = e.a
            body = lam.a[1]
            if n is ZERO or (body.op == "dict" and not body.a[1]):
                continue
            k = int_of(n)
            if k is not None and 0 <= k <= 32:
                for i in range(k):
                    out.extend(open_(lam, num(i)).a[1])
                continue
        if e.op == "if":
            c, d1, d2 = e.a
            if c is TRUE:
                out.extend(d1.a[1])
                continue
            if c is FALSE:
                out.extend(d2.a[1])
                continue
            if d1 is d2:
                out.extend(d1.a[1])
                continue
            g = _merge_if(c, d1, d2, base)
            if g is not None:
                out.extend(g)
                continue
        out.append(e)
    if not out and base.op == "dict":
        return base
    # copy of an existing mapping: for i < len(keys(D)): D'[keys(D)[i]] = D[keys(D)[i]]
    if base is EMPTYDICT and len(out) == 1 and out[0].op == "for":
        n, lam = out[0].a
        body = lam.a[1]
        if body.op == "dict" and len(body.a[1]) == 1 and body.a[1][0].op == "set":
            k, v = body.a[1][0].a
            if v.op == "get" and v.a[1] is k and k.op == "index" and k.a[1] is raw("bv", lam.a[0]) and raw("bv", lam.a[0]) not in v.a[0].fs:
                if mk("keys", v.a[0]) is k.a[0] and n is length(k.a[0]):
                    return v.a[0]
    return raw("dict", base, tuple(out))


def _merge_if(c, d1, d2, base):
    """Recognise `if k in d: d[k].append(v) else: d[k] = [v]` and `if k not in d: d[k] = const`."""
    neg_ = False
    if c.op == "not":
        c = c.a[0]
        d1, d2 = d2, d1
    if c.op != "in":
        return None
    k, held = c.a
    if held.op == "keys":
        held = held.a[0]
    if held.op == "dict" and held.a[0].op not in ("emptydict", "nil"):
        held = held.a[0]
    if base.op != "nil" and held is not base:
        return None
    e1, e2 = d1.a[1], d2.a[1]
    if len(e1) == 1 and len(e2) == 1 and e1[0].op == "app" and e2[0].op == "set":
        it = list_items(e2[0].a[1])
        if e1[0].a[0] is k and e2[0].a[0] is k and it is not None and len(it) == 1 and it[0] is e1[0].a[1]:
            return [e1[0]]
    if not e1 and len(e2) == 1 and e2[0].op == "set" and e2[0].a[0] is k:
        v = e2[0].a[1]
        if v.op in ("const", "num"):
            return [e2[0]]
        if v.op == "list" and not v.a[0]:
            return [raw("ensure", k)]
    return None


CONS["set"] = lambda k, v: raw("set", k, v)
CONS["app"] = lambda k, v: raw("app", k, v)


def _event_keys(events):
    """List segments of the keys touched by mapping events."""
    segs = []
    for e in events:
        if e.op in ("set", "app", "ensure"):
            segs.append(raw("one", e.a[0]))
        elif e.op == "for":
            n, lam = e.a
            s = fresh("k")
            body = open_(lam, s)
            inner = _event_keys(body.a[1]) if body.op == "dict" else None
            if inner is None:
                return None
            # consecutive equal keys inside one iteration collapse
            ded = []
            for x in inner:
                if not (ded and ded[-1] is x):
                    ded.append(x)
            segs.append(mk("for", n, close(s, mk("list", tuple(ded)))))
        else:
            return None
    ded = []
    for x in segs:
        if not (ded and ded[-1] is x):
            ded.append(x)
    return ded


@cons("keys")
def keys(d):
    if d.op == "dict" and d.a[0].op == "emptydict":
        segs = _event_keys(d.a[1])
        if segs is not None:
            return mk("uniq", mk("list", tuple(segs)))
    if d.op == "keys":
        return d
    return raw("keys", type_table(d))


def type_table(d):
    """The two tables by type of a layout have the same keys, in the same order (obligation layout.make)."""
    if d.op == "attr" and d.a[1] == "count_from_variable_type":
        return mk("attr", d.a[0], "index_from_variable_type")
    return d


@cons("freshof")
def freshof(base, l):
    """The elements of l that are not in base, each once, in order of first appearance."""
    if base.op == "list" and not base.a[0]:
        return mk("uniq", l)
    return raw("freshof", base, l)


@cons("uniq")
def uniq(l):
    if l.op in ("keys", "uniq"):
        return l
    if l.op == "list" and len(l.a[0]) <= 1 and list_items(l) is not None:
        return l
    return raw("uniq", l)


def _keys_touched(events):
    for e in events:
        if e.op == "set":
            yield e.a[0]
        elif e.op == "if":
            yield from _keys_touched(e.a[1].a[1])
            yield from _keys_touched(e.a[2].a[1])
        else:
            yield None


GET_HOOK = [lambda d, k: None]


def _no_items(d):
    return d is EMPTYDICT or d.op == "dict" and d.a[0] is EMPTYDICT and not d.a[1]


@cons("get")
def get(d, k):
    if d.op == "select" and d.a[1] is d.a[0] and _no_items(d.a[2]):
        return get(d.a[0], k)
    if d.op == "dict":
        base, events = d.a
        for i in range(len(events) - 1, -1, -1):
            e = events[i]
            if e.op == "set":
                if e.a[0] is k:
                    return e.a[1]
                if _is_lit(e.a[0]) and _is_lit(k) or eq(e.a[0], k) is FALSE:
                    continue
                break
            if e.op == "for":
                n, lam = e.a
                body = lam.a[1]
                if body.op == "dict" and len(body.a[1]) == 1 and body.a[1][0].op == "set":
                    kk, v = body.a[1][0].a
                    bv = raw("bv", lam.a[0])
                    if kk.op == "index" and kk.a[1] is bv and bv not in kk.a[0].fs and kk.a[0].op in ("keys", "uniq"):
                        if k.op == "index" and k.a[0] is kk.a[0]:
                            return open_(lam, k.a[1]).a[1][0].a[1]
                    if kk.op == "index" and kk.a[1] is bv and bv not in kk.a[0].fs and base is EMPTYDICT and i == 0:
                        # {x: f(x) for x in keys}[k] is f(k)
                        s = fresh("g")
                        e1 = open_(lam, s).a[1][0].a[1]
                        at = mk("index", kk.a[0], s)
                        e2 = rewrite(e1, lambda t: k if t is at else None)
                        if s not in e2.fs:
                            return e2
                elif k.op == "index" and k.a[0].op == "get" and k.a[0].a[1].op == "index" and k.a[0].a[1].a[0].op == "uniq" and _grouped(k.a[0].a[0]) and len(body.a[1]) == 1 and body.a[1][0].op == "for":
                    # members of groups, each set in its own turn
                    inner = open_(lam, k.a[0].a[1].a[1]).a[1]
                    if len(inner) == 1 and inner[0].op == "for" and inner[0].a[0] is length(k.a[0]):
                        last = open_(inner[0].a[1], k.a[1]).a[1]
                        if len(last) == 1 and last[0].op == "set" and last[0].a[0] is k:
                            return last[0].a[1]
                elif k.op == "index" and k.a[0].op in ("keys", "uniq") and body.op == "dict":
                    # every turn concerns its own key: only one turn matters
                    if set(_keys_touched(body.a[1])) == {mk("index", k.a[0], raw("bv", lam.a[0]))} and raw("bv", lam.a[0]) not in k.a[0].fs:
                        rest = raw("dict", base, events[:i])
                        return get(raw("dict", base, events[:i] + open_(lam, k.a[1]).a[1]), k)
                break
            if e.op == "if":
                c, d1, d2 = e.a
                rest = raw("dict", base, events[:i])
                e1 = get(mk("dict", rest, d1.a[1]) if d1.a[1] else rest, k)
                e2 = get(mk("dict", rest, d2.a[1]) if d2.a[1] else rest, k)
                return select(c, e1, e2)
            break
        else:
            if base.op == "dict":
                return get(base, k)
            if base is not EMPTYDICT and not events:
                return get(base, k) if base.op != "hsym" else raw("get", base, k)
        if not events and base is not EMPTYDICT:
            return get(base, k)
    if d.op == "family":
        # per-index buckets filled in loops: family(n, log)
        n, log = d.a
        b = _family_bucket(log, k)
        if b is not None:
            return b
    if d.op == "select":
        return select(d.a[0], get(d.a[1], k), get(d.a[2], k))
    r = GET_HOOK[0](d, k)
    if r is not None:
        return r
    return raw("get", d, k)


def _grouped(d):
    """A table of lists by type, filled from a sequence of distinct things."""
    if d.op != "dict" or d.a[0] is not EMPTYDICT or len(d.a[1]) != 1 or d.a[1][0].op != "for":
        return False
    body = d.a[1][0].a[1].a[1]
    if body.op != "dict" or len(body.a[1]) != 1 or body.a[1][0].op != "app":
        return False
    k, v = body.a[1][0].a
    return k is mk("type", v) and v.op == "index" and v.a[1] is raw("bv", d.a[1][0].a[1].a[0])


def _family_bucket(log, k):
    """Items appended to bucket k by a log of (possibly nested) loops of app(i, v)."""
    segs = []
    for e in log.a[1]:
        if e.op == "app":
            if e.a[0] is k:
                segs.append(raw("one", e.a[1]))
            elif _is_lit(e.a[0]) and _is_lit(k):
                continue
            else:
                return None
        elif e.op == "for":
            n, lam = e.a
            bv = raw("bv", lam.a[0])
            body = lam.a[1]
            if body.op == "dict" and len(body.a[1]) == 1 and body.a[1][0].op == "app" and body.a[1][0].a[0] is bv:
                # this loop runs over the bucket index itself
                segs.append(raw("one", open_(lam, k).a[1][0].a[1]))
            else:
                s = fresh("b")
                inner = _family_bucket(open_(lam, s), k)
                if inner is None:
                    return None
                segs.append(mk("for", n, close(s, inner)))
        else:
            return None
    return mk("list", tuple(segs))


@cons("in")
def in_(k, d):
    if d is FALSE:  # an empty mapping, or none
        return FALSE
    if d.op == "select" and d.a[1] is d.a[0] and _no_items(d.a[2]):
        return and_(not_(eq(d.a[0], NONE)), in_(k, d.a[0]))
    if d.op == "dict":
        base, events = d.a
        for e in reversed(events):
            if e.op in ("set", "app", "ensure"):
                if e.a[0] is k:
                    return TRUE
                if not (_is_lit(e.a[0]) and _is_lit(k)):
                    return raw("in", k, d)
            else:
                return raw("in", k, d)
        if base is EMPTYDICT:
            return FALSE
        return in_(k, base)
    if d.op in ("keys", "setof"):
        return in_(k, d.a[0])
    if d.op == "list" and len(d.a[0]) == 1 and d.a[0][0].op == "spread":
        return in_(k, d.a[0][0].a[0])
    items = list_items(d)
    if items is not None:
        if all(_is_lit(x) for x in items) and _is_lit(k):
            return TRUE if k in items else FALSE
        return or_(*[eq(k, x) for x in items])
    return raw("in", k, d)


# --------------------------------------------------------------------------------------------------------------------
# Batches (vmap), trees, arrays

ROW_HOOK = [lambda x, i: None]


@cons("vmap")
def vmap(lam):
    body = lam.a[1]
    bv = raw("bv", lam.a[0])
    if body.op == "row" and body.a[1] is bv and bv not in body.a[0].fs:
        return body.a[0]
    if body.op == "list":
        pass
    return raw("vmap", lam)


@cons("row")
def row(x, i):
    if x.op == "vmap":
        return open_(x.a[0], i)
    if x.op == "list":
        out = []
        for s in x.a[0]:
            if s.op == "one":
                out.append(raw("one", row(s.a[0], i)))
            elif s.op == "for":
                q = fresh("r")
                b = open_(s.a[1], q)
                out.append(mk("for", s.a[0], close(q, row(b, i))))
            else:
                return raw("row", x, i)
        return mk("list", tuple(out))
    if x.op == "api" and x.a[0].endswith(".build_variable_value_tuple") and len(x.a[1]) == 2:
        # a tuple of batches is the batch of tuples
        return mk("api", x.a[0], (x.a[1][0], row(x.a[1][1], i)))
    if x.op == "obj":
        r = ROW_HOOK[0](x, i)
        if r is not None:
            return r
    if x.op == "reshape":
        # a (count, dim) view of a contiguous slice: row i is the i-th block
        src, dims = x.a
        it = list_items(dims)
        if it is not None and len(it) == 2:
            if src.op == "slice":
                return slice_(src.a[0], add(src.a[1], mul(i, it[1])), it[1])
            return slice_(src, mul(i, it[1]), it[1])
    return raw("row", x, i)


@cons("ravel")
def ravel(x):
    if x.op in ("ravel", "reshape"):
        return ravel(x.a[0]) if x.op == "ravel" else ravel(x.a[0])
    if x.op == "slice" or x.op == "spmv":
        return x
    if x.op == "permuted":
        return raw("variant", "ravel", frozenset([("axes", const(str(x.a[0])))]), ravel(x.a[1]))
    if x.op == "arr":
        return arr_regroup(x, None)
    if ndim(x) == 1:
        return x
    if x.op == "concat" and x.a[1] is ZERO and False:
        return x
    return raw("ravel", x)


@cons("reshape")
def reshape(x, dims):
    it = list_items(dims)
    if x.op in ("ravel", "reshape") and it is not None:
        return reshape(x.a[0], dims)
    if it is not None and len(it) == 1 and int_of(it[0]) == -1:
        return ravel(x)
    if it is not None:
        negs = [i for i, d in enumerate(it) if int_of(d) == -1]
        if len(negs) == 1:
            total = None
            if x.op == "slice":
                total = x.a[2]
            elif x.op == "arr":
                total = mul(*x.a[0]) if x.a[0] else None
            if total is not None:
                others = mul(*[d for i, d in enumerate(it) if i != negs[0]])
                it = list(it)
                it[negs[0]] = div(total, others)
                dims = mklist(it)
        if x.op == "arr":
            r = arr_regroup(x, it)
            if r is not None:
                return r
    r = _flat_positions(x, dims)
    if r is not None:
        return r
    if it is not None and len(it) == 2 and x.op == "list" and length(x) is it[0]:
        rows = _elements(x)
        if rows and all(r.op == "list" and length(r) is it[1] for r in rows):
            return x
    if it is not None and len(it) == 2 and x.op == "list":
        rows = _rows_of(x, it[1])
        if rows is not None and length(rows) is it[0]:
            return rows
    return raw("reshape", x, dims)


def _rows_of(l, n):
    """The entries of nested loops as rows of n each."""
    if length(l) is n:
        return mk("list", (raw("one", l),))
    if len(l.a[0]) != 1 or l.a[0][0].op != "for":
        return None
    count, body = l.a[0][0].a
    i = fresh("i", ("scal",))
    inner = open_(body, i)
    rows = _rows_of(inner, n) if inner.op == "list" else None
    return None if rows is None else mk("list", (mk("for", count, close(i, rows)),))


def _elements(l):
    """A representative of every segment's elements; None when one is not explicit."""
    out = []
    for s in l.a[0]:
        if s.op == "one":
            out.append(s.a[0])
            continue
        body = open_(s.a[1], fresh("e", ("scal",))) if s.op == "for" else None
        inner = _elements(body) if body is not None and body.op == "list" else None
        if inner is None:
            return None
        out.extend(inner)
    return out


def _flat_positions(x, dims):
    """An (m, n) matrix filled through its flat form, at n * row + column."""
    if x.op != "upd" or x.a[0].op != "zeros" or len(x.a[1]) != 1 or x.a[1][0].op != "st":
        return None
    it = list_items(dims)
    if it is not None and len(it) != 2:
        return None
    m, n = mk("index", dims, ZERO), mk("index", dims, ONE)
    mode, idx, val = x.a[1][0].a
    flat = list_items(x.a[0].a[0])
    if flat is None or len(flat) != 1 or flat[0] is not mul(m, n) or idx.op != "poly":
        return None
    rows, cols = [], []
    for mono, c in to_poly(idx).items():
        d = dict(mono)
        (rows if d.get(n) == 1 else cols).append((mono, c))
    if not rows or not cols:
        return None
    row = div(from_poly(dict(rows)), n)
    return mk("upd", mk("zeros", dims), (mk("st", mode, raw("ixs", (row, from_poly(dict(cols)))), val),))


@cons("concat")
def concat(l, axis):
    items = list_items(l)
    if items is not None and len(items) == 1:
        return items[0]
    # the leaves of a tree, each flattened, one after the other
    if l.op == "list" and len(l.a[0]) == 1 and l.a[0][0].op == "for" and axis is ZERO:
        n, lam = l.a[0][0].a
        b = list_items(lam.a[1])
        bv = raw("bv", lam.a[0])
        if b is not None and len(b) == 1 and b[0].op == "ravel":
            y = b[0].a[0]
            if y.op == "index" and y.a[1] is bv and y.a[0].op == "leaves" and bv not in y.a[0].fs and n is length(y.a[0]):
                return raw("flat", *y.a[0].a)
    k = int_of(axis)
    if k is not None and k < 0 and l.op == "list" and l.a[0]:
        # count the axis from the front when the number of dimensions is known
        s = l.a[0][0]
        e = s.a[0] if s.op == "one" else None
        if s.op == "for":
            b = list_items(s.a[1].a[1])
            e = b[0] if b else None
        if e is not None and e.op == "reshape" and list_items(e.a[1]) is not None:
            return mk("concat", l, num(len(list_items(e.a[1])) + k))
    # both ends of an array around a new block
    if items is not None and len(items) == 3 and axis is ZERO and items[0].op == "slice" and items[2].op == "slice":
        (x, p, a), (y, b, m) = items[0].a, items[2].a
        if x is y and p is ZERO and add(b, m) is length(x):
            return mk("upd", x, (mk("st", "set", raw("slx", a, sub(b, a)), items[1]),))
    # nested concatenation along the same axis is one concatenation
    if l.op == "list":
        segs = []
        changed = False
        for s in l.a[0]:
            if s.op == "one" and s.a[0].op == "concat" and s.a[0].a[1] is axis and s.a[0].a[0].op == "list":
                segs.extend(s.a[0].a[0].a[0])
                changed = True
            elif s.op == "for":
                body = s.a[1].a[1]
                if body.op == "list" and len(body.a[0]) == 1 and body.a[0][0].op == "one":
                    y = body.a[0][0].a[0]
                    if y.op == "concat" and y.a[1] is axis and y.a[0].op == "list":
                        q = fresh("c")
                        inner = open_(s.a[1], q).a[0][0].a[0].a[0]
                        segs.append(mk("for", s.a[0], close(q, inner)))
                        changed = True
                        continue
                segs.append(s)
            else:
                segs.append(s)
        if changed:
            return concat(mk("list", tuple(segs)), axis)
        if len(l.a[0]) == 1 and l.a[0][0].op == "for" and axis is ZERO:
            # concatenation of equal-length index arrays
            n, lam = l.a[0][0].a
            q = fresh("c")
            it = list_items(open_(lam, q))
            if it is not None and len(it) == 1 and it[0].op == "arr" and not any(q in z.fs for z in it[0].a[0]):
                a = it[0]
                groups = a.a[1]
                g2 = [tuple([0] + [k + 1 for k in groups[0]])] + [tuple(k + 1 for k in g) for g in groups[1:]]
                return mk("arr", (n,) + a.a[0], tuple(g2), close(q, a.a[2]))
    return raw("concat", l, axis)


# index-function arrays: arr(sizes, groups, lam i0. lam i1. ... element)


def arr_make(sizes, groups, fn):
    """fn receives one symbol per base axis."""
    syms = [fresh("x") for _ in sizes]
    body = fn(*syms)
    for s in reversed(syms):
        body = close(s, body)
    return mk("arr", tuple(sizes), tuple(tuple(g) for g in groups), body)


def arr_elem(a, syms):
    b = a.a[2]
    for s in syms:
        b = open_(b, s)
    return b


def arange(start, n):
    return arr_make([n], [[0]], lambda i: add(start, i))


@cons("arr")
def arr(sizes, groups, body):
    # drop unit base axes from groups with several axes
    sizes = tuple(sizes)
    if any(z is ONE for z in sizes):
        syms = [fresh("x") for _ in sizes]
        b = body
        for s in syms:
            b = open_(b, s)
        drop = set()
        for g in groups:
            ones = [i for i in g if sizes[i] is ONE]
            if len(g) > 1:
                keep = [i for i in g if sizes[i] is not ONE]
                drop |= set(ones if keep else ones[1:])
        if drop:
            b = subst(b, {syms[i]: ZERO for i in drop})
            keepi = [i for i in range(len(sizes)) if i not in drop]
            ren = {o: k for k, o in enumerate(keepi)}
            groups = tuple(tuple(ren[i] for i in g if i in ren) for g in groups)
            sizes2 = tuple(sizes[i] for i in keepi)
            for i in reversed(keepi):
                b = close(syms[i], b)
            return arr(sizes2, groups, b)
        # a unit axis has index zero
        m = {syms[i]: ZERO for i in range(len(sizes)) if sizes[i] is ONE}
        if any(s in b.fs for s in m):
            b = subst(b, m)
            for s in reversed(syms):
                b = close(s, b)
            body = b
    # merge adjacent axes of one group that are only used as i * size + j
    for g in groups:
        for p, q in zip(g, g[1:]):
            syms = [fresh("x") for _ in sizes]
            b = body
            for s in syms:
                b = open_(b, s)
            m = fresh("m")
            # element depends on i_p, i_q only through i_p * size_q + i_q
            b2 = subst(b, {syms[q]: sub(m, mul(syms[p], sizes[q]))})
            if syms[p] not in b2.fs and (syms[p] in b.fs or syms[q] in b.fs):
                ns = list(sizes)
                ns[p] = mul(sizes[p], sizes[q])
                keepi = [i for i in range(len(sizes)) if i != q]
                ren = {o: k for k, o in enumerate(keepi)}
                g2 = tuple(tuple(ren[i] for i in gg if i in ren) for gg in groups)
                ss = list(syms)
                ss[p] = m
                for i in reversed(keepi):
                    b2 = close(ss[i], b2)
                return arr(tuple(ns[i] for i in keepi), g2, b2)
    return raw("arr", sizes, groups, body)


def arr_regroup(a, dims):
    """Reshape an index-function array. dims None means flatten."""
    sizes, groups, body = a.a
    if dims is None:
        return mk("arr", sizes, (tuple(range(len(sizes))),), body)
    # greedy: consume base axes for each target dimension, splitting a base axis when needed
    syms = [fresh("x") for _ in sizes]
    b = body
    for s in syms:
        b = open_(b, s)
    axes = [(syms[i], sizes[i]) for i in range(len(sizes))]
    new_axes = []
    new_groups = []
    pos = 0
    for d in dims:
        if d is ONE:
            s = fresh("x")
            new_axes.append((s, ONE))
            new_groups.append([len(new_axes) - 1])
            continue
        g = []
        prod = ONE
        guard = 0
        while prod is not d:
            guard += 1
            if pos >= len(axes) or guard > 8:
                return None
            s, z = axes[pos]
            if z is ONE:
                b = subst(b, {s: ZERO})
                pos += 1
                continue
            want = div(d, prod)
            if z is want:
                new_axes.append((s, z))
                g.append(len(new_axes) - 1)
                prod = mul(prod, z)
                pos += 1
                continue
            quot = div(z, want)
            if not _has_neg(quot):
                # split: s = s_hi * rest + s_lo
                hi, lo = fresh("x"), fresh("x")
                b = subst(b, {s: add(mul(hi, quot), lo)})
                new_axes.append((hi, want))
                g.append(len(new_axes) - 1)
                prod = mul(prod, want)
                axes[pos] = (lo, quot)
                continue
            if not _has_neg(div(want, z)):
                new_axes.append((s, z))
                g.append(len(new_axes) - 1)
                prod = mul(prod, z)
                pos += 1
                continue
            return None
        new_groups.append(g)
    while pos < len(axes):
        if axes[pos][1] is not ONE:
            return None
        b = subst(b, {axes[pos][0]: ZERO})
        pos += 1
    for s, _ in reversed(new_axes):
        b = close(s, b)
    return mk("arr", tuple(z for _, z in new_axes), tuple(tuple(g) for g in new_groups), b)


def _has_neg(p):
    return any(e < 0 or e.denominator != 1 for m, c in to_poly(p).items() for _, e in m) or any(
        c.denominator != 1 for c in to_poly(p).values()
    )


# --------------------------------------------------------------------------------------------------------------------
# Printing


def pretty(t, depth=12):
    if isinstance(t, (tuple, frozenset)):
        return "(" + ", ".join(pretty(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    o, a = t.op, t.a
    p = lambda x: pretty(x, depth - 1)
    if o == "sym":
        return a[0]
    if o == "bv":
        return f"i{a[0]}"
    if o == "num":
        return str(a[0]) if a[0].denominator == 1 else str(float(a[0]))
    if o == "const":
        return repr(a[1]) if a[0] == "str" else str(a[1])
    if o == "poly":
        parts = []
        for m, c in sorted(a[0], key=lambda mc: _dig_arg(mc[0])):
            fs = []
            for at, e in sorted(m, key=lambda x: digest(x[0])):
                s = p(at)
                if at.op in ("poly", "select"):
                    s = f"({s})"
                fs.append(s if e == 1 else f"{s}^{e}")
            body = "*".join(fs)
            if c == 1 and body:
                parts.append(body)
            elif c == -1 and body:
                parts.append("-" + body)
            else:
                cs = str(c) if c.denominator == 1 else str(float(c))
                parts.append(cs + ("*" + body if body else ""))
        return " + ".join(parts)
    if o == "lam":
        return f"λi{a[0]}. {p(a[1])}"
    if o == "attr":
        return f"{p(a[0])}.{a[1]}"
    if o in ("index", "get"):
        return f"{p(a[0])}[{p(a[1])}]"
    if o == "slice":
        return f"{p(a[0])}[{p(a[1])} :+ {p(a[2])}]"
    if o == "list":
        return "[" + ", ".join(p(s) for s in a[0]) + "]"
    if o == "one":
        return p(a[0])
    if o == "spread":
        return "*" + p(a[0])
    if o == "for":
        lam = a[1]
        return f"for i{lam.a[0]}<{p(a[0])}: {p(lam.a[1])}"
    if o == "obj":
        return f"{a[0].split('.')[-1]}(" + ", ".join(f"{f}={p(v)}" for f, v in a[1]) + ")"
    if o == "and":
        return "(" + " and ".join(sorted(p(x) for x in a[0])) + ")"
    if o == "or":
        return "(" + " or ".join(sorted(p(x) for x in a[0])) + ")"
    if o == "not":
        return f"not {p(a[0])}"
    if o == "gt0":
        return f"({p(a[0])} > 0)"
    if o == "ge0":
        return f"({p(a[0])} >= 0)"
    if o == "eq0":
        return f"({p(a[0])} == 0)"
    if o == "eq":
        return "(" + " == ".join(sorted(p(x) for x in a[0])) + ")"
    if o == "select":
        return f"({p(a[1])} if {p(a[0])} else {p(a[2])})"
    if o in ("ext", "cls"):
        return a[0].split(".")[-1] if o == "cls" else a[0]
    if o == "matmul":
        return "(" + " @ ".join(p(x) for x in a[0]) + ")"
    if o == "spmv":
        return f"({p(a[0])} @ {p(a[1])})"
    if o == "api":
        return f"{a[0]}(" + ", ".join(p(x) for x in a[1]) + ")"
    if o == "call":
        return f"{p(a[0])}(" + ", ".join([p(x) for x in a[1]] + [f"{k}={p(v)}" for k, v in a[2]]) + ")"
    return f"{o}(" + ", ".join(p(x) for x in a) + ")"
