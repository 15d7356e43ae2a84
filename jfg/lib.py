"""Models of the external functions used by the analysed program, as operations on normal forms."""

import ast
from fractions import Fraction

from . import terms as tm
from .interp import CURRENT, Effect, Frame, TERM_TYPE
from .program import canonical_ext
from .terms import (EMPTYDICT, FALSE, NONE, ONE, TRUE, ZERO, T, absval, add, and_, arr_elem, arr_make, close, const, div, eq,
                    fresh, index, int_of, length, list_items, lt, max_, min_, mk, mklist, mul, neg, not_, num, open_, or_,
                    power, raw, select, sub, subst)

SAFE_DTYPES = ("float32", "float64", "int32", "int64", "float_", "int_", "float", "int", "double", "bool", "bool_", "uint32", "uint64")

# --------------------------------------------------------------------------------------------------------------------
# sequences


def range_list(start, stop, step):
    if step is not ONE:
        s = int_of(step)
        if s == -1:
            n = sub(start, stop)
            i = fresh("i", ("scal",))
            return tm.map_list(n, i, sub(start, i))
        a, b = int_of(start), int_of(stop)
        if s and a is not None and b is not None:
            return mklist([num(k) for k in range(a, b, s)])
        return raw("range", start, stop, step)
    n = sub(stop, start)
    i = fresh("i", ("scal",))
    return tm.map_list(n, i, add(start, i))


def map_term(l, fn):
    """[fn(x) for x in l] on list terms."""
    if l.op == "list":
        segs = []
        for s in l.a[0]:
            if s.op == "one":
                segs.append(raw("one", fn(s.a[0])))
            elif s.op == "for":
                i = fresh("i", ("scal",))
                segs.append(mk("for", s.a[0], close(i, map_term(open_(s.a[1], i), fn))))
            elif s.op == "spread":
                segs.append(mk("spread", map_term(s.a[0], fn)))
            elif s.op == "if":
                segs.append(mk("if", s.a[0], map_term(s.a[1], fn), map_term(s.a[2], fn)))
            else:
                return raw("opaque", "map", next(tm._uid), ())
        return mk("list", tuple(segs))
    if l.op == "select":
        return select(l.a[0], map_term(l.a[1], fn), map_term(l.a[2], fn))
    i = fresh("i", ("scal",))
    return tm.map_list(length(l), i, fn(index(l, i)))


def zip_terms(it, seqs):
    seqs = [it.seq(s) for s in seqs]
    ns = [length(s) for s in seqs]
    n = None
    for x in ns:
        if int_of(x) is not None:
            n = x if n is None or int_of(n) is None or int_of(x) < int_of(n) else n
    if n is None:
        n = ns[0]
        for x in ns[1:]:
            # prefer the length that is not a bare unknown
            pass
    i = fresh("i", ("scal",))
    return tm.map_list(n, i, mklist([index(s, i) for s in seqs]))


def items_of(d):
    ks = mk("keys", d)
    i = fresh("i", ("scal",))
    return tm.map_list(length(ks), i, mklist([index(ks, i), mk("get", d, index(ks, i))]))


def values_of(d):
    ks = mk("keys", d)
    i = fresh("i", ("scal",))
    return tm.map_list(length(ks), i, mk("get", d, index(ks, i)))


# --------------------------------------------------------------------------------------------------------------------
# arrays given by an index function


def arr_lift(it, fn, ops):
    """Element-wise operation with broadcasting over index-function arrays and scalars."""
    arrs = [o for o in ops if o.op == "arr"]
    nd = max(len(a.a[1]) for a in arrs)
    dims = [None] * nd  # for each output dimension: list of (symbol, size)
    opened = {}
    remap = {}
    for a in arrs:
        sizes, groups, _ = a.a
        syms = [fresh("x") for _ in sizes]
        off = nd - len(groups)
        sub_map = {}
        for g, grp in enumerate(groups):
            cur = [(syms[i], sizes[i]) for i in grp]
            unit = all(z is ONE for _, z in cur)
            d = dims[off + g]
            if unit:
                for s, _ in cur:
                    sub_map[s] = ZERO
                continue
            if d is None:
                dims[off + g] = cur
            else:
                common = refine(d, cur)
                if common is None:
                    return None
                dims[off + g], m = common
                for s in list(remap):
                    remap[s] = subst(remap[s], m)
                remap.update(m)
        opened[a] = (syms, sub_map)
    elems = []
    for o in ops:
        if o.op == "arr":
            syms, m = opened[o]
            e = subst(subst(arr_elem(o, syms), m), remap)
            elems.append(e)
        else:
            elems.append(o)
    sizes, groups, order = [], [], []
    for d in dims:
        if d is None:
            s = fresh("x")
            d = [(s, ONE)]
        g = []
        for s, z in d:
            g.append(len(sizes))
            sizes.append(z)
            order.append(s)
        groups.append(tuple(g))
    body = fn(*elems)
    for s in reversed(order):
        body = close(s, body)
    return mk("arr", tuple(sizes), tuple(groups), body)


def refine(d, e):
    """Common refinement of two ways to split one axis: (axes, what the symbols of both are in terms of it)."""
    d, e = list(d), list(e)
    axes, m = [], {}
    while d and e:
        (s, p), (t, q) = d.pop(0), e.pop(0)
        if p is q:
            axes.append((s, p))
            m[t] = s
            continue
        for (u, a), rest, (v, b), other in (((s, p), d, (t, q), e), ((t, q), e, (s, p), d)):
            r = quotient(a, b)
            if r is not None:
                low = fresh("x")
                m[u] = add(mul(v, r), low)
                axes.append((v, b))
                rest.insert(0, (low, r))
                break
        else:
            return None
    if d or e:
        return None
    for _ in range(len(m)):
        m = {k: subst(x, m) for k, x in m.items()}
    return axes, m


def quotient(a, b):
    """a / b for sizes where that is a size again."""
    p = tm.to_poly(div(a, b))
    if len(p) != 1:
        return None
    ((mono, c),) = p.items()
    return div(a, b) if c.denominator == 1 and c > 0 and all(k > 0 and k.denominator == 1 for _, k in mono) else None


def zeros_arr(x):
    """An explicit-shape array of zeros as an index function."""
    dims = list_items(x.a[0]) if x.op == "zeros" and x.a[0].op == "list" else None
    return tm.arr_make(dims, [[k] for k in range(len(dims))], lambda *s: ZERO) if dims else x


def arith(it, fn, a, b):
    if a.op == "arr" and b.op == "zeros":
        b = zeros_arr(b)
    if b.op == "arr" and a.op == "zeros":
        a = zeros_arr(a)
    if a.op == "arr" or b.op == "arr":
        ok = all(x.op == "arr" or tm.is_scalar(x) or it.ty(x) in (("scal",), None) or x.op in ("num", "poly", "sym") for x in (a, b))
        if ok:
            r = arr_lift(it, fn, [a, b])
            if r is not None:
                return r
    # arrays written as explicit lists
    if a.op == "list" and b.op != "list" and list_items(a) is not None:
        return mklist([fn(x, b) for x in list_items(a)])
    if b.op == "list" and a.op != "list" and list_items(b) is not None:
        return mklist([fn(a, x) for x in list_items(b)])
    return fn(a, b)


def arr_map(it, fn, a):
    if a.op == "arr":
        return arr_lift(it, fn, [a])
    if a.op == "list" and list_items(a) is not None:
        return mklist([fn(x) for x in list_items(a)])
    return fn(a)


def arr_getitem(a, ixs):
    """a[...] for index-function arrays with full slices, new axes and integer positions."""
    sizes, groups, _ = a.a
    syms = [fresh("x") for _ in sizes]
    body = arr_elem(a, syms)
    out_axes, out_groups = [], []
    g = 0
    n_real = sum(1 for x in ixs if x is not NONE and not (x.op == "const" and x.a[0] == "ellipsis"))
    for x in ixs:
        if x.op == "const" and x.a[0] == "ellipsis":
            k = len(groups) - n_real
            for _ in range(k):
                out_groups.append(_push(out_axes, [(syms[i], sizes[i]) for i in groups[g]]))
                g += 1
            continue
        if x is NONE:
            out_groups.append(_push(out_axes, [(fresh("x"), ONE)]))
            continue
        if g >= len(groups):
            return None
        if x.op == "sl" and x.a[0] in (NONE, ZERO) and x.a[1] is NONE and x.a[2] in (NONE, ONE):
            out_groups.append(_push(out_axes, [(syms[i], sizes[i]) for i in groups[g]]))
            g += 1
            continue
        if x.op == "sl":
            if len(groups[g]) != 1 or x.a[2] not in (NONE, ONE):
                return None
            i = groups[g][0]
            lo = ZERO if x.a[0] is NONE else x.a[0]
            hi = sizes[i] if x.a[1] is NONE else x.a[1]
            s = fresh("x")
            body = subst(body, {syms[i]: add(s, lo)})
            out_groups.append(_push(out_axes, [(s, sub(hi, lo))]))
            g += 1
            continue
        # integer
        if len(groups[g]) == 1:
            k = x
            ki = int_of(k)
            if ki is not None and ki < 0:
                k = add(sizes[groups[g][0]], k)
            body = subst(body, {syms[groups[g][0]]: k})
            g += 1
            continue
        return None
    while g < len(groups):
        out_groups.append(_push(out_axes, [(syms[i], sizes[i]) for i in groups[g]]))
        g += 1
    if not out_groups:
        return body
    for s, _ in reversed(out_axes):
        body = close(s, body)
    return mk("arr", tuple(z for _, z in out_axes), tuple(out_groups), body)


def _push(axes, new):
    g = []
    for x in new:
        g.append(len(axes))
        axes.append(x)
    return tuple(g)


def broadcast_to(it, a, shape):
    dims = list_items(shape) if shape.op == "list" else None
    if a.op == "arr" and dims is not None:
        sizes, groups, _ = a.a
        syms = [fresh("x") for _ in sizes]
        body = arr_elem(a, syms)
        axes, og = [], []
        off = len(dims) - len(groups)
        if off < 0:
            return raw("broadcast", a, shape)
        for k, d in enumerate(dims):
            if k < off:
                og.append(_push(axes, [(fresh("x"), d)]))
                continue
            g = groups[k - off]
            if all(sizes[i] is ONE for i in g):
                body = subst(body, {syms[i]: ZERO for i in g})
                og.append(_push(axes, [(fresh("x"), d)]))
            else:
                og.append(_push(axes, [(syms[i], sizes[i]) for i in g]))
        for s, _ in reversed(axes):
            body = close(s, body)
        return mk("arr", tuple(z for _, z in axes), tuple(og), body)
    return raw("broadcast", a, shape)


@tm.cons("pick")
def pick(i, xs):
    k = int_of(i)
    if k is not None and -len(xs) <= k < len(xs):
        return xs[k]
    if all(x is xs[0] for x in xs):
        return xs[0]
    return raw("pick", i, xs)


@tm.cons("stack")
def stack(l, axis):
    items = list_items(l)
    if items is not None and items and all(x.op == "arr" for x in items):
        it = CURRENT[0]
        k = len(items)
        r = arr_lift(it, lambda *e: raw("picktmp", tuple(e)), items)
        if r is not None:
            sizes, groups, _ = r.a
            syms = [fresh("x") for _ in sizes]
            e = arr_elem(r, syms)
            if e.op == "picktmp":
                q = fresh("x")
                body = pick(q, e.a[0])
                nd = len(groups)
                ax = int_of(axis)
                pos = ax if ax >= 0 else nd + 1 + ax
                axes = [(s, z) for s, z in zip(syms, sizes)] + [(q, num(k))]
                og = [tuple(g) for g in groups]
                og.insert(pos, (len(sizes),))
                # axes must be numbered in reading order
                order = [i for g in og for i in g]
                ren = {o: j for j, o in enumerate(order)}
                og = tuple(tuple(ren[i] for i in g) for g in og)
                axes = [axes[o] for o in order]
                for s, _ in reversed(axes):
                    body = close(s, body)
                return mk("arr", tuple(z for _, z in axes), og, body)
    if l.op == "list" and len(l.a[0]) == 1 and l.a[0][0].op == "for" and axis is ZERO:
        n, lam = l.a[0][0].a
        q = fresh("x")
        body = list_items(open_(lam, q))
        if body is not None and len(body) == 1 and body[0].op == "arr" and not any(q in z.fs for z in body[0].a[0]):
            a = body[0]
            og = ((0,),) + tuple(tuple(i + 1 for i in g) for g in a.a[1])
            return mk("arr", (n,) + a.a[0], og, close(q, a.a[2]))
        if body is not None and len(body) == 1 and body[0].op != "arr":
            # rows computed one by one: a batch
            pass
    return raw("stack", l, axis)


def runs_of_numbers(x):
    """A list of numbers made of consecutive runs of positions: the concatenation of the runs."""

    def runs(l):
        out = []
        for s in l.a[0]:
            if s.op != "for":
                return None
            i = fresh("x")
            b = open_(s.a[1], i)
            if b.op != "list":
                return None
            items = list_items(b)
            if items is not None:
                if len(items) != 1 or items[0].op not in ("poly", "sym") or i in sub(items[0], i).fs:
                    return None
                out.append(raw("one", tm.arange(sub(items[0], i), s.a[0])))
            else:
                inner = runs(b)
                if inner is None:
                    return None
                out.append(mk("for", s.a[0], close(i, mk("list", tuple(inner)))))
        return out

    if not any(s.op == "for" and s.a[1].a[1].op == "list" and list_items(s.a[1].a[1]) is None for s in x.a[0]):
        return None
    r = runs(x)
    return None if r is None else mk("concat", mk("list", tuple(r)), ZERO)


def rectangular(x):
    """A list of numbers filled by nested loops of fixed lengths: an array of one axis over all of them."""
    sizes, syms = [], []
    while True:
        if x.op != "list" or len(x.a[0]) != 1:
            return None
        s = x.a[0][0]
        if s.op == "one":
            break
        if s.op != "for" or any(i in s.a[0].fs for i in syms):
            return None
        sizes.append(s.a[0])
        syms.append(fresh("x", ("scal",)))
        x = open_(s.a[1], syms[-1])
    e = s.a[0]
    if len(sizes) < 2 or not tm.is_scalar(e):
        return None
    for i in reversed(syms):
        e = close(i, e)
    return mk("arr", tuple(sizes), (tuple(range(len(sizes))),), e)


def as_array(it, x):
    """np.array / asarray of x."""
    if x.op == "list":
        segs = x.a[0]
        if segs:
            s0 = segs[0]
            e = s0.a[0] if s0.op == "one" else None
            if s0.op == "for" and s0.a[1].a[1].op == "list" and s0.a[1].a[1].a[0]:
                inner = s0.a[1].a[1].a[0][0]
                e = inner.a[0] if inner.op == "one" else None
            if e is not None and e.op == "arr":
                return stack(x, ZERO)
            r = rectangular(x) or runs_of_numbers(x)
            if r is not None:
                return r
            if e is not None and len(segs) == 1 and s0.op == "for" and tm.is_scalar(e) and not (e.op == "attr"):
                # a list of numbers computed from the position
                i = fresh("x")
                b = list_items(open_(s0.a[1], i))
                if b is not None and len(b) == 1 and b[0].op in ("poly", "sym", "get", "api"):
                    return mk("arr", (s0.a[0],), ((0,),), close(i, b[0]))
    return x


# --------------------------------------------------------------------------------------------------------------------
# array operations


def permute(x, axes):
    """Axes in another order; flattened, the same numbers in another order."""
    if None in axes or sorted(axes) != list(range(len(axes))) or len(axes) < 3 or tm.ndim(x) not in (None, len(axes)):
        return None
    if x.op == "permuted":
        axes, x = [x.a[0][k] for k in axes], x.a[1]
    if axes == sorted(axes):
        return x
    return raw("permuted", tuple(axes), x)


def transpose(it, x):
    if x.op == "coo":
        v, r, c, sh = x.a
        return mk("coo", v, c, r, mklist([index(sh, ONE), index(sh, ZERO)]))
    if x.op == "csc":
        return raw("csr", transpose(it, x.a[0]))
    return mk("transpose", x)


tm.CONS["coo"] = lambda v, r, c, s: raw("coo", v, r, c, s)


def matmul(it, a, b):
    c, _ = it.cls_of(a)
    if c is not None and it.p.find_method(c, "__matmul__") is not None:
        f = it.p.find_method(c, "__matmul__")
        if it.short(f) in it.keep:
            return mk("spmv", a, b)
        return it.call_method(a, "__matmul__", [b], {})
    if a.op == "vmap" and it.cls_of(a)[0] is not None:
        return mk("spmv", a, b)
    if it.is_group(a) and not it.is_group(b) and it.ty(b) == ("arr",):
        return raw("gapply", a, b)
    return mk("matmul", (a, b))


@tm.cons("zeros")
def zeros(shape):
    if shape.op not in ("list", "shape"):
        ty = CURRENT[0].ty(shape)
        if not (ty and ty[0] in ("list", "tup")):
            shape = mklist([shape])
    return raw("zeros", shape)


@tm.cons("ones")
def ones(shape):
    if shape.op not in ("list", "shape"):
        ty = CURRENT[0].ty(shape)
        if not (ty and ty[0] in ("list", "tup")):
            shape = mklist([shape])
    return raw("ones", shape)


@tm.cons("shape")
def shape(x):
    it = CURRENT[0]
    if x.op in ("zeros", "ones"):
        return x.a[0]
    if x.op == "upd":
        return shape(x.a[0])
    if x.op == "eye":
        return mklist([x.a[0], x.a[0]])
    if x.op == "reshape" and list_items(x.a[1]) is not None:
        if not any(int_of(d) == -1 for d in list_items(x.a[1])):
            return x.a[1]
    if x.op == "slice":
        return mklist([x.a[2]])
    if x.op == "arr":
        sizes, groups, _ = x.a
        return mklist([mul(*[sizes[i] for i in g]) if g else ONE for g in groups])
    if x.op == "abs":
        return shape(x.a[0])
    if x.op == "coo":
        return x.a[3]
    if x.op in ("csc", "csr"):
        return shape(x.a[0])
    if x.op == "poly" and len(x.a[0]) == 1:
        (m, c), = x.a[0]
        arrs = [a for a, e in m if not tm.is_scalar(a)]
        if len(arrs) == 1:
            return shape(arrs[0])
    if x.op == "attr" and x.a[1] == "storage":
        c, _ = it.cls_of(x.a[0])
        if c is not None and c.name == "VariableAssignments":
            # the storage vector has the dimension its layout states (asserted by the constructors)
            return mklist([mk("attr", mk("attr", x.a[0], "storage_layout"), "dim")])
    if x.op == "spmv":
        return mklist([index(mk("attr", x.a[0], "shape"), ZERO)])
    if it is not None and it.ndims.get(x) == 1:
        return mklist([length(x)])
    return raw("shape", x)


@tm.cons("gather")
def gather(x, idx):
    if idx.op == "arr":
        sizes, groups, _ = idx.a
        if len(sizes) == 1 and len(groups) == 1:
            i = fresh("x")
            e = arr_elem(idx, [i])
            d = sub(e, i)
            if i not in d.fs:
                return mk("slice", x, d, sizes[0])
    if idx.op == "concat" and idx.a[1] is ZERO:
        return mk("concat", map_term(idx.a[0], lambda y: gather(x, y)), ZERO)
    if idx.op == "upd" and idx.a[0].op == "cast":
        return raw("cast", idx.a[0].a[0], gather(x, mk("upd", idx.a[0].a[1], idx.a[1])))
    if idx.op == "cast" and idx.a[0] != "int":
        return raw("cast", idx.a[0], gather(x, idx.a[1]))
    if idx.op == "upd" and all(_writes_arrays(e) for e in idx.a[1]):
        # an index table filled block by block: gather block by block
        return mk("upd", raw("gathered", idx.a[0]), tuple(_map_events(e, lambda v: gather(x, v)) for e in idx.a[1]))
    if idx.op == "select":
        return select(idx.a[0], gather(x, idx.a[1]), gather(x, idx.a[2]))
    if idx.op == "list":
        r = runs_of_numbers(idx)
        if r is not None:
            return gather(x, r)
    if x.op == "select":
        return select(x.a[0], gather(x.a[1], idx), gather(x.a[2], idx))
    return raw("gather", x, idx)


def _writes_arrays(e):
    if e.op == "st":
        return e.a[0] == "set"
    if e.op == "for":
        b = e.a[1].a[1]
        return b.op == "updlist" and all(_writes_arrays(x) for x in b.a[0])
    return False


def _map_events(e, fn):
    if e.op == "st":
        return mk("st", e.a[0], e.a[1], fn(e.a[2]))
    i = fresh("u")
    b = open_(e.a[1], i)
    return mk("for", e.a[0], close(i, raw("updlist", tuple(_map_events(x, fn) for x in b.a[0]))))


_row0 = tm.CONS["row"]


def row(x, i):
    if x.op == "gather":
        return gather(x.a[0], _row(x.a[1], i))
    if x.op == "concat" and x.a[1].op == "num" and x.a[1].a[0] < 0:
        return mk("concat", map_term(x.a[0], lambda y: _row(y, i)), x.a[1])
    if x.op == "replace":
        return raw("row", x, i)
    if x.op == "arr" and len(x.a[1]) > 1 and len(x.a[1][0]) == 1:
        return arr_getitem(x, [i])
    return _row0(x, i)


def _row(x, i):
    return mk("row", x, i)


tm.CONS["row"] = row


def getitem(it, base, idx):
    r = getitem_direct(it, base, idx)
    if r.op == "getitem" and base.op == "select":
        alt = [getitem(it, v, idx) for v in base.a[1:]]
        if any(v.op != "getitem" for v in alt):
            return select(base.a[0], *alt)
    return r


def getitem_direct(it, base, idx):
    if base.op == "cast" and base.a[0] != "int":
        return raw("cast", base.a[0], getitem(it, base.a[1], idx))
    if base.op == "variant" and base.a[0] == "reshape":
        return raw("variant", *base.a[:2], getitem(it, base.a[2], idx))
    if base.op == "select" and (it.is_seq(base.a[1]) or it.is_seq(base.a[2])):
        return select(base.a[0], getitem(it, base.a[1], idx), getitem(it, base.a[2], idx))
    if idx.op == "sl":
        lo, hi, st = idx.a
        if st in (NONE, ONE):
            if lo is NONE and hi is NONE:
                return base
            n = None
            lo2 = ZERO if lo is NONE else lo
            li = int_of(lo2)
            if li is not None and li < 0:
                lo2 = add(length(base), lo2)
            if hi is NONE:
                hi2 = length(base)
            else:
                hi2 = hi
                h = int_of(hi2)
                if h is not None and h < 0:
                    hi2 = add(length(base), hi2)
            items = list_items(base)
            if items is not None:
                a, b = int_of(lo2), int_of(hi2)
                if a is not None and b is not None:
                    return mklist(items[max(a, 0) : max(b, 0)])
            if base.op == "list" and list_items(base) is None and lo2 is ZERO and int_of(hi2) is not None:
                k = int_of(hi2)
                if all(s.op == "one" for s in base.a[0][:k]) and len(base.a[0]) >= k:
                    return mk("list", base.a[0][:k])
            if base.op == "shape" or (base.op == "index" and it.is_seq(base)):
                pass
            ty = it.ty(base)
            if ty and ty[0] == "tup":
                a = int_of(lo2)
                b = len(ty[1]) if hi is NONE else int_of(hi2)
                if a is not None and b is not None:
                    return mklist([index(base, num(k)) for k in range(a, b)])
            a, b = int_of(lo2), int_of(hi2)
            if a is not None and b is not None and it.is_seq(base) and 0 <= b - a <= 4:
                return mklist([index(base, num(k)) for k in range(a, b)])
            return mk("slice", base, lo2, sub(hi2, lo2))
        if int_of(st) == -1 and lo is NONE and hi is NONE:
            return reverse(it, base)
        return raw("getitem", base, idx)
    if idx.op == "ixs":
        ixs = list(idx.a[0])
        if base.op == "arr":
            r = arr_getitem(base, ixs)
            if r is not None:
                return r
        full = lambda x: x.op == "sl" and x.a[0] in (NONE, ZERO) and x.a[1] is NONE and x.a[2] in (NONE, ONE)
        if len(ixs) == 2 and full(ixs[0]) and ixs[1] is NONE:
            return mk("newaxis", base, 1)
        if len(ixs) == 2 and ixs[0] is NONE and full(ixs[1]):
            return mk("newaxis", base, 0)
        if len(ixs) == 2 and ixs[0].op == "const" and ixs[0].a[0] == "ellipsis" and ixs[1] is NONE and tm.ndim(base) == 1:
            return mk("newaxis", base, 1)
        if all(full(x) for x in ixs):
            return base
        return raw("getitem", base, idx)
    if base.op == "arr":
        if idx.op != "arr":
            r = arr_getitem(base, [idx])
            if r is not None:
                return r
    if idx.op == "ellipsis" or (idx.op == "const" and idx.a[0] == "ellipsis"):
        return base
    if idx is NONE:
        return mk("newaxis", base, 0)
    t = it.ty(idx)
    if idx.op in ("arr", "upd", "concat", "gather") or (t and t[0] == "arr" and not tm.is_scalar(idx)) or idx.op == "list" or (idx.op == "row" and t and t[0] == "arr"):
        if idx.op == "list":
            idx = as_array(it, idx)
        return mk("gather", base, idx)
    if idx.op == "const" and idx.a[0] == "str":
        return mk("get", base, idx)
    return index(base, idx)


tm.CONS["newaxis"] = lambda x, k: raw("newaxis", x, k)


def known_items(it, x):
    """The elements of a sequence whose length is known, written out or from its type."""
    items = list_items(x)
    ty = it.ty(x)
    if items is None and ty and ty[0] == "tup":
        items = [index(x, num(k)) for k in range(len(ty[1]))]
    return items


def sort_key(it, x, key):
    """The key of the k-th element, as a function of k where the elements are known."""
    if key is NONE:
        return NONE
    if x.op in ("list", "keys", "uniq"):
        k = fresh("k", ("scal",))
        r = it.force(it.apply(key, [index(x, k)], {}))
        if isinstance(r, T):
            return close(k, it.canon(r))
    return it.canon(it.fn_term(key))


def reverse(it, x):
    items = list_items(x)
    if items is not None:
        return mklist(items[::-1])
    ty = it.ty(x)
    if ty and ty[0] == "tup":
        n = len(ty[1])
        return mklist([index(x, num(k)) for k in range(n - 1, -1, -1)])
    if x.op == "rev":
        return x.a[0]
    return raw("rev", x)


def reduce_(it, op, x, axis):
    if x.op == "list" and list_items(x) is not None and axis in ("all", ZERO):
        items = list_items(x)
        if op == "rmax":
            return max_(*items)
        if op == "rmin":
            return min_(*items)
    if x.op in ("ravel", "reshape") and axis == "all":
        x = x.a[0]
    if axis != "all" and tm.ndim(x) == 1 and int_of(axis) in (0, -1):
        axis = "all"
    return raw(op, x, axis)


def norm(it, x, ord_, axis):
    ax = axis_of(axis)
    if ord_ is None or ord_ is NONE or int_of(ord_) == 2:
        return power(mk("sum", power_el(x, 2), ax), Fraction(1, 2))
    if ord_.op == "const" and ord_.a[1] == "inf" or ord_.op == "ext" and ord_.a[0].endswith(".inf"):
        return reduce_(it, "rmax", absval(x), ax)
    if int_of(ord_) == 1:
        return mk("sum", absval(x), ax)
    return raw("norm", x, ord_, ax)


def power_el(x, k):
    if x.op == "list" and list_items(x) is not None:
        return mklist([power(y, k) for y in list_items(x)])
    return power(x, k)


def axis_of(a):
    if a is None or a is NONE:
        return "all"
    return a


def einsum(it, spec, ops):
    s = spec.replace(" ", "")
    if "->" not in s:
        ins = s.split(",")
        letters = sorted({c for c in s if c != ","})
        out = "".join(c for c in letters if s.count(c) == 1)
        s = s + "->" + out
    lhs, out = s.split("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        return it.opaque("einsum arity")
    if len(ops) == 1:
        a = ins[0]
        if a == out:
            return ops[0]
        if len(a) == 2 and out == a[::-1]:
            return transpose(it, ops[0])
        if len(a) == 1 and out == "":
            return mk("sum", ops[0], "all")
        if len(a) == 2 and out == "" and a[0] != a[1]:
            return mk("sum", ops[0], "all")
    if len(ops) == 2:
        (a, b), (x, y) = ins, ops
        for (a, b, x, y) in ((a, b, x, y), (b, a, y, x)):
            if len(a) == 2 and len(b) == 1 and a[1] == b and out == a[0]:
                return mk("matmul", (x, _vec(y)))
            if len(a) == 2 and len(b) == 1 and a[0] == b and out == a[1]:
                return mk("matmul", (transpose(it, x), _vec(y)))
            if len(a) == 2 and len(b) == 2 and a[1] == b[0] and out == a[0] + b[1]:
                return mk("matmul", (x, y))
            if len(a) == 2 and len(b) == 2 and a[0] == b[0] and out == a[1] + b[1]:
                return mk("matmul", (transpose(it, x), y))
            if len(a) == 2 and len(b) == 2 and a[1] == b[1] and out == a[0] + b[0]:
                return mk("matmul", (x, transpose(it, y)))
            if len(a) == 1 and len(b) == 2 and a == b[0] and out == b:
                return mul(mk("newaxis", x, 1), y)
            if len(a) == 1 and len(b) == 2 and a == b[1] and out == b:
                return mul(mk("newaxis", x, 0), y)
            if len(a) == 1 and a == b and out == a:
                return mul(x, y)
            if a == b and out == a:
                return mul(x, y)
            if len(a) == 1 and a == b and out == "":
                return mk("sum", mul(x, y), "all")
            if a == b and len(a) == 2 and out == "":
                return mk("sum", mul(x, y), "all")
    # canonical letters for anything else
    ren = {}
    for ch in s:
        if ch.isalpha() and ch not in ren:
            ren[ch] = chr(ord("a") + len(ren))
    return raw("einsum", "".join(ren.get(c, c) for c in s), tuple(ops))


def _vec(y):
    if y.op == "sym" and y not in tm.SYM_NDIM:
        tm.SYM_NDIM[y] = 1
    return y


# --------------------------------------------------------------------------------------------------------------------
# function transformations


def apply_vmap(it, f, args, kwargs):
    fn, in_axes, out_axes = f.a
    i = fresh("b", ("scal",))
    if out_axes not in (NONE, ZERO):
        return it.opaque("vmap out_axes")
    axes = list_items(in_axes) if in_axes.op == "list" else None

    def mapped(k, a):
        ax = in_axes if axes is None else (axes[k] if k < len(axes) else ZERO)
        if ax is NONE:
            return it.force(a)
        if ax is ZERO:
            return mk("row", it.force(a), i)
        return raw("rowax", ax, it.force(a), i)

    out = []
    for k, a in enumerate(args):
        if isinstance(a, tuple):
            out.append(("*", mk("row", it.force(a[1]), i)))
        else:
            out.append(mapped(k, a))
    kw = {k: mk("row", it.force(v), i) for k, v in kwargs.items()}
    r = it.force(it.apply(fn, out, kw))
    v = push_vmap(it, i, r)
    sizes = [n for n in (batch_size(it, a) for a in args) if n is not None]
    if sizes:
        it.vmap_size[v] = sizes[0]
    return v


def batch_size(it, a):
    """Number of rows of a mapped argument, when its shape is explicit."""
    if isinstance(a, tuple):
        return None
    a = it.force(a)
    if a in it.vmap_size:
        return it.vmap_size[a]
    if a.op == "reshape":
        sh = list_items(a.a[1])
        if sh and not any(int_of(d) == -1 for d in sh):
            if a.a[0].op == "slice":
                it.fits.append((a.a[0].a[2], mul(*sh), a))
            return sh[0]
        return None
    if a.op == "arr":
        sh = list_items(mk("shape", a))
        if sh:
            return sh[0]
    if a.op == "gather":
        return batch_size(it, a.a[1])
    return None


def push_vmap(it, i, r):
    """Batch of tuples = tuple of batches."""
    items = list_items(r)
    if items is not None:
        return mklist([push_vmap(it, i, x) for x in items])
    return mk("vmap", close(i, r))


def apply_jac(it, f, args, kwargs):
    fn, argnums = f.a
    if isinstance(argnums, T):
        k = int_of(argnums)
        if k is None:
            return it.opaque("jacobian argnums")
    else:
        k = 0
    if any(isinstance(a, tuple) for a in args) or k >= len(args):
        return it.opaque("jacobian call")
    at = it.force(args[k])
    s = fresh("d", it.ty(at))
    if at.op == "zeros" or it.ty(at) == ("arr",):
        tm.SYM_TYPE[s] = ("arr",)
        if at.op == "zeros" and list_items(at.a[0]) is not None:
            tm.SYM_NDIM[s] = len(list_items(at.a[0]))
    a2 = list(args)
    a2[k] = s
    body = it.canon(it.force(it.apply(fn, a2, kwargs)))
    return raw("jac", close(s, body), at)


def tree_map(it, f, trees, star):
    """trees: explicit list of terms, or a single list term when star."""
    if star:
        lst = trees
    else:
        lst = mklist(trees)
    L = fresh("L", ("list", ("arr",)))

    def call(l):
        if star:
            return it.force(it.apply(f, [("*", l)] if list_items(l) is None else list_items(l), {}))
        k = len(trees)
        return it.force(it.apply(f, [index(l, num(j)) for j in range(k)], {}))

    # push into trees whose structure is known
    first = index(lst, ZERO)
    c, exact = it.cls_of(first)
    if c is None:
        c, exact = it.cls_of(some_element(lst))
    if c is not None and (exact or it.p.is_leaf(c)) and it.p.is_dataclass(c):
        fields = it.p.all_fields(c)
        out = []
        for fd in fields:
            if fd.static:
                out.append((fd.name, mk("attr", first, fd.name)))
                continue
            ft = it.ann_type(fd.cls.module, fd.annotation)
            sub_l = map_term(lst, lambda x: mk("attr", x, fd.name))
            known = list_items(sub_l)
            if ft in (("arr",), ("scal",), ("bool",)) or known and any(it.boolish(x) or tm.is_scalar(x) for x in known):
                out.append((fd.name, call(sub_l)))
            else:
                out.append((fd.name, tree_map(it, f, sub_l, True) if star else tree_map(it, f, list_items(sub_l), False)))
        return mk("obj", c.qual, tuple(out))
    if not star and trees and all(t.op == "list" and list_items(t) is not None for t in trees) and len({len(list_items(t)) for t in trees}) == 1:
        # tuples of trees: component by component
        return mklist([tree_map(it, f, list(ts), False) for ts in zip(*(list_items(t) for t in trees))])
    if not star and trees and all(t.op == "list" for t in trees) and _array_like(it, index(trees[0], ZERO) if list_items(trees[0]) else index(trees[0], fresh("q"))):
        n = length(trees[0])
        i = fresh("i", ("scal",))
        return tm.map_list(n, i, call(mklist([index(t, i) for t in trees])))
    if not star and trees and all(it.ty(t) == ("list", ("arr",)) for t in trees):
        i = fresh("i", ("scal",))
        return tm.map_list(length(trees[0]), i, call(mklist([index(t, i) for t in trees])))
    if not star and len(trees) == 1 and _array_like(it, trees[0]):
        return call(lst)
    if not star and trees and all(_array_like(it, t) or tm.is_scalar(t) or it.ty(t) in (("scal",), ("bool",)) for t in trees):
        return call(lst)
    s = fresh("L", ("list", ("arr",)))
    body = it.canon(call(s))
    return mk("tree_map", lst, close(s, body))


def some_element(l):
    """A representative element of a list term."""
    if l.op == "list" and l.a[0]:
        s = l.a[0][0]
        if s.op == "one":
            return s.a[0]
        if s.op == "for":
            return some_element(open_(s.a[1], fresh("e", ("scal",))))
        if s.op == "spread":
            return some_element(s.a[0])
    return index(l, fresh("e", ("scal",)))


def _array_like(it, t):
    return t.op in ("concat", "reshape", "ravel", "matmul", "arr", "slice", "stack", "upd", "zeros", "poly", "spmv") or it.ty(t) == ("arr",)


@tm.cons("tree_map")
def _tree_map(lst, lam):
    # identity maps disappear
    body = lam.a[1]
    bv = raw("bv", lam.a[0])
    its = list_items(lst)
    if its is not None and len(its) == 1:
        t = its[0]
        if body.op == "index" and body.a[0] is bv and body.a[1] is ZERO:
            return t
        # fuse nested single-tree maps
        if t.op == "tree_map":
            inner = list_items(t.a[0])
            if inner is not None and len(inner) == 1:
                s = fresh("L")
                v = open_(t.a[1], s)
                return mk("tree_map", mklist(inner), close(s, open_(lam, mklist([v]))))
    return raw("tree_map", lst, lam)


@tm.cons("leaves")
def leaves(x):
    it = CURRENT[0]
    if x.op == "tree_map":
        its = list_items(x.a[0])
        if its is not None and len(its) == 1:
            l = leaves(its[0])
            return map_term(l, lambda y: open_(x.a[1], mklist([y])))
    if x.op == "replace":
        c, _ = it.cls_of(x.a[0])
        if c is not None:
            keep = tuple((f, v) for f, v in x.a[1] if not (it.p.find_field(c, f) is not None and it.p.find_field(c, f).static))
            if len(keep) != len(x.a[1]):
                return leaves(mk("replace", x.a[0], keep))
    if x.op == "leaves" or it is not None and it.ty(x) == ("list", ("arr",)):
        return x
    return raw("leaves", x)


# --------------------------------------------------------------------------------------------------------------------
# calls to external functions

NP_PREFIX = ("jax.numpy.", "numpy.")

IDENTITY = {
    "asarray", "copy", "ascontiguousarray", "atleast_1d", "float32", "float64", "int32", "int64", "array", "real_if_close", "asanyarray",
}


def ext_attr(it, d, name):
    full = canonical_ext(d + "." + name)
    if full in ("numpy.newaxis", "jax.numpy.newaxis"):
        return NONE
    if full in ("numpy.pi", "jax.numpy.pi", "math.pi"):
        return raw("ext", "pi")
    if full in ("numpy.inf", "jax.numpy.inf", "math.inf"):
        return const(float("inf"))
    return raw("ext", full)


def get_arg(args, kwargs, k, name, default=None):
    if k < len(args):
        return args[k]
    return kwargs.get(name, default)


def effect(it, kind, what, node, extra=None):
    loc = it.where(node) if node is not None else it.cur_loc
    it.effects.append(Effect(kind, what, and_(*it.pc), loc, it.stack[-1] if it.stack else "?", extra))


CONSOLE = ("sys.stdout.", "sys.stderr.", "termcolor.cprint", "tqdm.", "rich.", "pprint.pprint", "pprint.pp", "traceback.print_", "click.echo", "jax.experimental.host_callback.id_print")


def call_ext(it, d, args, kwargs, node, fr):
    if d.startswith(CONSOLE):
        effect(it, "print", d, node)
    if d.startswith("math.") or d == "jax.device_get":
        effect(it, "convert", d, node, tuple(it.force(a) for a in args if not isinstance(a, tuple)))
    for p in NP_PREFIX:
        if d.startswith(p):
            return call_np(it, d[len(p):], args, kwargs, node, d)
    if d.startswith("builtins."):
        return call_builtin(it, d[len("builtins."):], args, kwargs, node, fr)
    h = EXT.get(d)
    if h is not None:
        return h(it, args, kwargs, node)
    if d.startswith("jaxlie."):
        r = call_jaxlie(it, d, args, kwargs)
        if r is not None:
            return r
    if d.startswith("warnings.") or d.startswith("logging.") or d.startswith("time."):
        it.effects.append(Effect("log", d, and_(*it.pc), it.where(node) if node else it.cur_loc, it.stack[-1] if it.stack else "?"))
        return raw("call", raw("ext", d), (), frozenset())
    return generic(it, raw("ext", d), args, kwargs)


def generic(it, f, args, kwargs):
    return raw("call", f, tuple(it.canon_arg(a) for a in args), frozenset((k, it.canon_arg(v)) for k, v in kwargs.items()))


def F(it, a):
    return it.force(a)


def star_to_list(it, args):
    """Arguments of a variadic function as one list term."""
    segs = []
    for a in args:
        if isinstance(a, tuple):
            segs.append(raw("spread", it.force(a[1])))
        else:
            segs.append(raw("one", it.force(a)))
    return mk("list", tuple(segs))


def dtype_guard(it, kwargs, x, extra=None):
    d = kwargs.get("dtype") if extra is None else extra
    if d is None or d is NONE:
        return x
    name = None
    if d.op == "ext":
        name = d.a[0].split(".")[-1]
    elif d.op == "const":
        name = d.a[1]
    elif d.op == "attr" and d.a[1] == "dtype":
        one = d.a[0]
        if one.op == "index" and x.op in ("stack", "concat") and x.a[0] is one.a[0]:
            # the type of one item need not hold the others
            effect(it, "narrow", "the type of one of the items", None)
            return raw("cast", "item", x)
        return x
    if name in INTS:
        if x.op in ("zeros", "ones", "empty"):
            it.int_arrays.add(x)
            return x
        return x if integral(x) else raw("cast", "int", x)
    if name in SAFE_DTYPES:
        return x
    if name in NARROW:
        effect(it, "narrow", name, None)
    return raw("cast", name or d, x)


NARROW = ("int8", "int16", "uint8", "uint16", "short", "ushort", "byte", "ubyte", "float16", "half", "bfloat16")
def of_matrices(l):
    """A list all of whose items are known to have two axes."""
    if l.op != "list" or not l.a[0]:
        return False
    for s in l.a[0]:
        if s.op == "for":
            body = tm.open_(s.a[1], fresh("i"))
            if not of_matrices(body):
                return False
        elif s.op == "one":
            sh = list_items(s.a[0].a[1]) if s.a[0].op == "reshape" else list_items(mk("shape", s.a[0]))
            if sh is None or len(sh) != 2:
                return False
        else:
            return False
    return True


INTS = ("int32", "int64", "int", "int_", "uint32", "uint64")
FLOATS = ("float32", "float64", "float", "float_", "double", "inexact")


INTEGRAL_FIELDS = ("dim", "num_factors", "residual_dim", "iterations", "rows", "cols", "value_indices")


def integral(t):
    """Obviously integer valued."""
    if t.op == "num":
        return t.a[0].denominator == 1
    if t.op in ("arange", "len", "shape", "bv", "range", "zeros", "ones", "sum_dims", "row"):
        return True
    if t.op == "attr":
        return t.a[1] in INTEGRAL_FIELDS
    if t.op == "api":
        return t.a[0].endswith("_dim")
    if t.op in ("get", "index", "ravel", "reshape", "transpose", "concat", "list", "one", "for", "lam", "stack", "upd", "st", "cast"):
        if t.op == "get" and t.a[0].op == "attr" and "variable" in t.a[0].a[1]:
            return True
        return all(integral(x) for x in t.a if isinstance(x, T)) or (t.op == "index" and integral(t.a[0]))
    if t.op == "poly":
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and integral(at) for at, e in m) for m, c in t.a[0])
    if t.op == "select":
        return integral(t.a[1]) and integral(t.a[2])
    return False


def int_array(it, base, v):
    """A value stored into an array created with an integer dtype."""
    b = base
    while b.op == "upd":
        b = b.a[0]
    if b in it.int_arrays and isinstance(v, T) and not integral(v):
        return raw("cast", "int", v)
    return v


# functions that keep the shape of their argument and are not expressible by anything a specification uses
SAME_SHAPE_FN = {
    "tril", "triu", "flip", "flipud", "fliplr", "roll", "sort", "argsort", "round", "around", "rint", "floor", "ceil", "trunc", "fix",
    "nan_to_num", "sign", "sin", "cos", "tan", "tanh", "sinh", "cosh", "arcsin", "arccos", "arctan", "arctanh", "cbrt", "log2", "log10",
    "cumprod", "unwrap", "sinc",
}
UNMODELLED = ("call", "getitem", "broadcast", "squeeze", "tile", "repeat", "einsum", "cumsum")


# options that change what a function computes, with the value under which they change nothing
VARIANTS = {"order": ("C", "K", "A"), "upper": (False,), "initial": (), "where": (True,), "k": (0,), "offset": (0,), "ddof": (0,), "UPLO": ("L",), "symmetrize_input": (True,), "endpoint": (True,)}
HANDLED = {"tril", "triu", "clip", "meshgrid", "linspace"}


def unusual(it, name, args, kwargs):
    """Options of an array function that are not modelled and not at their default."""
    out = {}
    for k, v in kwargs.items():
        if k not in VARIANTS or name in SAME_SHAPE_FN or name in HANDLED:
            continue
        v = it.force(v)
        if not any(v is (num(d) if isinstance(d, int) and not isinstance(d, bool) else const(d) if not isinstance(d, bool) else (TRUE if d else FALSE)) for d in VARIANTS[k]) and v is not NONE:
            out[k] = it.canon(v)
    return out


def call_np(it, name, args, kwargs, node, full):
    odd = unusual(it, name, args, kwargs)
    if odd and not (set(odd) == {"where"} and name not in ("sum", "prod", "mean", "max", "min", "any", "all")):
        r = call_np(it, name, args, {k: v for k, v in kwargs.items() if k not in odd}, node, full)
        return r if r.op in UNMODELLED else raw("variant", name, frozenset(odd.items()), r)
    if "keepdims" in kwargs and it.force(kwargs["keepdims"]) is not FALSE:
        return generic(it, raw("ext", "np." + name), args, kwargs)
    r = call_np_direct(it, name, args, kwargs, node, full)
    if isinstance(r, T) and name in ("sum", "prod", "arange", "full", "full_like", "eye", "identity", "einsum", "cumsum", "mean", "linspace", "diag") and "dtype" in kwargs:
        r = dtype_guard(it, {"dtype": it.force(kwargs["dtype"])}, r)
    if isinstance(r, T) and r.op in UNMODELLED:
        # a conditional argument: take the function of either side
        for k, a in enumerate(args):
            x = None if isinstance(a, tuple) else it.force(a)
            if x is not None and x.op == "select":
                alt = [call_np(it, name, list(args[:k]) + [v] + list(args[k + 1 :]), kwargs, node, full) for v in x.a[1:]]
                if any(v.op not in UNMODELLED for v in alt):
                    return select(x.a[0], *alt)
                break
    return r


def call_np_direct(it, name, args, kwargs, node, full):
    is_np = full.startswith("numpy.")
    star = any(isinstance(a, tuple) for a in args)
    if star and name not in ("stack", "concatenate"):
        return generic(it, raw("ext", "np." + name), args, kwargs)
    A = [it.force(a) if not isinstance(a, tuple) else a for a in args]
    K = {k: it.force(v) for k, v in kwargs.items()}
    if "out" in K or "where" in K:
        return generic(it, raw("ext", "np." + name), args, kwargs)
    if is_np:
        it.effects.append(Effect("numpy", full, and_(*it.pc), it.where(node) if node is not None else it.cur_loc, it.stack[-1] if it.stack else "?", tuple(a for a in A if isinstance(a, T)) + tuple(K.values())))
    g = lambda k, n, d=None: A[k] if k < len(A) else K.get(n, d)
    if name in IDENTITY:
        x = g(0, "a", g(0, "object", NONE))
        x = as_array(it, x)
        return dtype_guard(it, K, x, g(1, "dtype"))
    if name in ("zeros", "empty"):
        if name == "empty":
            return dtype_guard(it, K, raw("empty", g(0, "shape")), g(1, "dtype"))
        return dtype_guard(it, K, zeros(g(0, "shape")), g(1, "dtype"))
    if name == "ones":
        return dtype_guard(it, K, ones(g(0, "shape")), g(1, "dtype"))
    if name in ("zeros_like",):
        return dtype_guard(it, K, zeros(shape(g(0, "a"))), g(1, "dtype"))
    if name == "ones_like":
        return dtype_guard(it, K, ones(shape(g(0, "a"))), g(1, "dtype"))
    if name in ("full",):
        v = g(1, "fill_value")
        return zeros(g(0, "shape")) if v is ZERO else mul(v, ones(g(0, "shape")))
    if name == "full_like":
        v = g(1, "fill_value")
        return zeros(shape(g(0, "a"))) if v is ZERO else mul(v, ones(shape(g(0, "a"))))
    if name in ("eye", "identity"):
        return raw("eye", g(0, "N", g(0, "n")))
    if name == "arange":
        if len(A) == 1:
            return tm.arange(ZERO, A[0])
        st = g(2, "step", ONE)
        if st is ONE:
            return tm.arange(A[0], sub(A[1], A[0]))
        return generic(it, raw("ext", "np.arange"), args, kwargs)
    if name == "where":
        if len(A) == 3:
            return select(A[0], A[1], A[2])
        return generic(it, raw("ext", "np.where"), args, kwargs)
    if name == "select" and g(0, "condlist") is not None and g(1, "choicelist") is not None:
        cs, vs = list_items(g(0, "condlist")), list_items(g(1, "choicelist"))
        if cs is not None and vs is not None:
            out = g(2, "default", ZERO)
            for c, v in reversed(list(zip(cs, vs))):
                out = select(c, v, out)
            return out
    if name in ("sum", "nansum"):
        if name == "nansum":
            return raw("nansum", A[0])
        x = g(0, "a")
        ax = axis_of(g(1, "axis"))
        if ax != "all" and x.op == "list" and list_items(x) is not None and ax is ZERO:
            ax = "all"
        if ax != "all" and tm.ndim(x) == 1 and int_of(ax) in (0, -1):
            ax = "all"
        return mk("sum", x, ax)
    if name == "prod":
        return raw("prod", g(0, "a"), axis_of(g(1, "axis")))
    if name == "mean":
        x = g(0, "a")
        return div(mk("sum", x, "all"), raw("size", x)) if axis_of(g(1, "axis")) == "all" else raw("mean", x, g(1, "axis"))
    if name in ("max", "amax"):
        return reduce_(it, "rmax", g(0, "a"), axis_of(g(1, "axis")))
    if name in ("min", "amin"):
        return reduce_(it, "rmin", g(0, "a"), axis_of(g(1, "axis")))
    if name == "maximum":
        return max_(A[0], A[1])
    if name == "minimum":
        return min_(A[0], A[1])
    if name == "clip":
        x, lo, hi = g(0, "a", g(0, "x")), g(1, "a_min", K.get("min")), g(2, "a_max", K.get("max"))
        r = x
        if lo is not None and lo is not NONE:
            r = max_(r, lo)
        if hi is not None and hi is not NONE:
            r = min_(r, hi)
        return r
    if name in ("any", "all"):
        x = A[0]
        items = list_items(x.a[0] if x.op == "stack" and all(tm.ndim(y) == 0 or it.boolish(y) for y in list_items(x.a[0]) or ()) else x)
        if items is not None:
            return or_(*items) if name == "any" else and_(*items)
        if it.boolish(x) and tm.ndim(x) in (0, None) and x.op in ("and", "or", "not", "gt0", "ge0", "eq0"):
            return raw(name, x)
        return raw(name, x)
    if name in ("logical_or", "bitwise_or"):
        return or_(A[0], A[1])
    if name in ("logical_and", "bitwise_and"):
        return and_(A[0], A[1])
    if name in ("logical_not", "invert", "bitwise_not"):
        return not_(A[0])
    if name in ("less",):
        return lt(A[0], A[1])
    if name == "less_equal":
        return tm.le(A[0], A[1])
    if name == "greater":
        return lt(A[1], A[0])
    if name == "greater_equal":
        return tm.le(A[1], A[0])
    if name in ("equal", "array_equal"):
        return eq(A[0], A[1]) if name == "equal" else raw("array_equal", frozenset((A[0], A[1])))
    if name == "not_equal":
        return not_(eq(A[0], A[1]))
    if name in ("abs", "absolute", "fabs"):
        return absval(A[0])
    if name == "negative":
        return neg(A[0])
    if name in ("add",):
        return arith(it, add, A[0], A[1])
    if name == "subtract":
        return arith(it, sub, A[0], A[1])
    if name == "multiply":
        return arith(it, mul, A[0], A[1])
    if name in ("divide", "true_divide"):
        return arith(it, div, A[0], A[1])
    if name in ("power", "float_power"):
        return power(A[0], A[1].a[0]) if A[1].op == "num" else raw("pow", A[0], A[1])
    if name == "sqrt":
        return power(A[0], Fraction(1, 2))
    if name == "rsqrt":
        return power(A[0], Fraction(-1, 2))
    if name == "square":
        return power_el(A[0], 2)
    if name == "reciprocal":
        return power(A[0], -1)
    if name == "exp":
        return tm.exp_(A[0])
    if name == "log":
        return tm.log(A[0])
    if name in ("dot", "matmul"):
        return matmul(it, A[0], A[1])
    if name in ("vdot", "inner"):
        return mk("sum", mul(A[0], A[1]), "all")
    if name == "tensordot" and int_of(g(2, "axes", num(2))) == 1:
        return matmul(it, A[0], A[1])
    if name == "einsum":
        if A and A[0].op == "const":
            return einsum(it, A[0].a[1], A[1:])
    if name == "transpose":
        if len(A) == 1 and "axes" not in K:
            return transpose(it, A[0])
        axes = A[1:] if len(A) > 2 else list_items(as_list(it, g(1, "axes"))) or []
        r = permute(A[0], [int_of(k) for k in axes])
        if r is not None:
            return r
    if name == "swapaxes":
        i, j = int_of(A[1]), int_of(A[2])
        if {i, j} in ({0, 1}, {-1, -2}) and tm.ndim(A[0]) == 2:
            return transpose(it, A[0])
        if {i, j} == {1, 2}:
            r = permute(A[0], [0, 2, 1])
            if r is not None:
                return r
    if name == "diag":
        p = tm.to_poly(A[0])
        if len(p) == 1:
            (m, k), = p.items()
            filled = [at for at, _ in m if at.op == "ones"]
            size = list_items(filled[0].a[0]) if len(m) == 1 and filled else None
            if size is not None and len(size) == 1:
                return mul(num(k), raw("eye", size[0]))
        return raw("diag", A[0])
    if name == "diagonal" and (int_of(g(2, "axis1", ZERO)), int_of(g(3, "axis2", ONE))) in ((-2, -1), (-1, -2)):
        return raw("diagonal", A[0])
    if name == "expand_dims":
        return mk("newaxis", A[0], int_of(g(1, "axis")))
    if name == "concatenate" or name == "hstack" or name == "append":
        if name == "append" and len(A) >= 2:
            return mk("concat", mklist([A[0], A[1]]), ZERO)
        l = A[0] if not isinstance(A[0], tuple) else it.force(A[0][1])
        ax = g(1, "axis", ZERO) if name != "hstack" or not of_matrices(l) else ONE
        return dtype_guard(it, K, mk("concat", l, ax))
    if name == "stack":
        l = A[0] if not isinstance(A[0], tuple) else it.force(A[0][1])
        return dtype_guard(it, K, stack(l, g(1, "axis", ZERO)))
    if name == "vstack":
        return mk("concat", A[0], ZERO) if of_matrices(A[0]) else stack(A[0], ZERO)
    if name == "column_stack" and of_matrices(A[0]):
        return mk("concat", A[0], ONE)
    if name == "column_stack" and list_items(A[0]) is not None:
        return stack(A[0], num(-1))
    if name == "tile":
        reps = g(1, "reps")
        r = list_items(reps)
        n = r[0] if r is not None and len(r) == 1 else reps
        if r is None or len(r) == 1:
            i = fresh("i")
            return mk("concat", tm.map_list(n, i, A[0]), ZERO)
        return raw("tile", A[0], reps)
    if name == "repeat":
        return repeat(it, A[0], g(1, "repeats"), g(2, "axis"))
    if name == "broadcast_to":
        return broadcast_to(it, A[0], g(1, "shape"))
    if name == "reshape":
        return mk("reshape", A[0], as_list(it, g(1, "newshape", K.get("shape"))))
    if name in ("ravel",):
        return mk("ravel", A[0])
    if name == "squeeze":
        return raw("squeeze", A[0], g(1, "axis", NONE))
    if name == "take":
        return getitem(it, A[0], g(1, "indices"))
    if name == "size":
        return raw("size", A[0])
    if name == "shape":
        return shape(A[0])
    if name == "ndim":
        return length(shape(A[0]))
    if name == "linalg.norm":
        return norm(it, g(0, "x"), g(1, "ord"), g(2, "axis"))
    if name == "linalg.inv":
        return mk("inv", A[0])
    if name == "linalg.cholesky":
        return raw("cholesky", A[0])
    if name == "linalg.det":
        return raw("det", A[0])
    if name == "linalg.slogdet":
        return mklist([raw("signdet", A[0]), tm.log(absval(raw("det", A[0])))])
    if name == "linalg.solve":
        return matmul(it, mk("inv", A[0]), A[1])
    if name in ("triu_indices", "tril_indices") and len(A) + len(K) == 1:
        return raw(name[:4], g(0, "n"))
    if name == "log1p":
        return tm.log(add(ONE, A[0]))
    if name == "expm1":
        return sub(tm.exp_(A[0]), ONE)
    if name in SAME_SHAPE_FN:
        x = g(0, "a", g(0, "m", g(0, "x")))
        rest = tuple(it.canon(a) for a in A[1:])
        if x is not None:
            if name == "tril" and x.op == "cholesky" and not rest and not (set(K) - {"m"}):
                return x
            if name in ("floor", "ceil", "round", "around", "rint", "trunc", "fix") and integral(x):
                return x
            return raw("fn", {"around": "round"}.get(name, name), x, rest, frozenset((k, it.canon(v)) for k, v in K.items() if v is not x))
    if name == "isnan":
        return raw("isnan", A[0])
    if name in ("isfinite", "isinf"):
        return raw(name, A[0])
    if name == "outer":
        return mul(mk("newaxis", A[0], 1), mk("newaxis", A[1], 0))
    if name == "cumsum":
        return cumsum(it, A[0])
    if name == "split" and len(A) == 2 and not K and A[1].op == "list" and list_items(A[1]) is not None:
        cuts = [ZERO] + list_items(A[1]) + [length(A[0])]
        return mklist([mk("slice", A[0], a, sub(b, a)) for a, b in zip(cuts, cuts[1:])])
    if name == "split":
        return generic(it, raw("ext", "np.split"), args, kwargs)
    if name == "meshgrid":
        return meshgrid(it, A, K)
    if name == "ix_" and len(A) == 2:
        return mklist([mk("newaxis", A[0], 1), mk("newaxis", A[1], 0)])
    if name == "array_split":
        pass
    return raw("call", raw("ext", "np." + name), tuple(it.canon(a) for a in A), frozenset((k, it.canon(v)) for k, v in K.items()))


def meshgrid(it, A, K):
    ij = K.get("indexing")
    if len(A) == 2 and all(a.op == "arr" and len(a.a[0]) == 1 for a in A):
        x, y = A
        nx, ny = x.a[0][0], y.a[0][0]
        if ij is not None and ij.op == "const" and ij.a[1] == "ij":
            return mklist([
                arr_make([nx, ny], [[0], [1]], lambda i, j: arr_elem(x, [i])),
                arr_make([nx, ny], [[0], [1]], lambda i, j: arr_elem(y, [j])),
            ])
        return mklist([
            arr_make([ny, nx], [[0], [1]], lambda i, j: arr_elem(x, [j])),
            arr_make([ny, nx], [[0], [1]], lambda i, j: arr_elem(y, [i])),
        ])
    return raw("call", raw("ext", "np.meshgrid"), tuple(A), frozenset(K.items()))


def repeat(it, a, reps, axis):
    if a.op == "arr":
        sizes, groups, _ = a.a
        nd = len(groups)
        if axis is None or axis is NONE:
            if nd != 1:
                a = tm.arr_regroup(a, None)
                sizes, groups, _ = a.a
            k = 0
        else:
            k = int_of(axis)
            k = k if k >= 0 else nd + k
        syms = [fresh("x") for _ in sizes]
        body = arr_elem(a, syms)
        axes, og = [], []
        for g, grp in enumerate(groups):
            cur = [(syms[i], sizes[i]) for i in grp]
            if g == k:
                cur = cur + [(fresh("x"), reps)]
            og.append(_push(axes, cur))
        for s, _ in reversed(axes):
            body = close(s, body)
        return mk("arr", tuple(z for _, z in axes), tuple(og), body)
    if a.op == "list" and list_items(a) is None and len(a.a[0]) == 1 and a.a[0][0].op == "for":
        pass
    return raw("repeat", a, reps, axis if axis is not None else NONE)


def cumsum(it, x):
    if x.op == "list" and len(x.a[0]) == 1 and x.a[0][0].op == "for":
        n, lam = x.a[0][0].a
        s, i = fresh("c"), fresh("i")
        body = list_items(open_(lam, s))
        if body is not None and len(body) == 1:
            return tm.map_list(n, i, tm.psum(add(i, ONE), close(s, body[0])))
    items = list_items(x)
    if items is not None:
        out, tot = [], ZERO
        for y in items:
            tot = add(tot, y)
            out.append(tot)
        return mklist(out)
    return raw("cumsum", x)


def as_list(it, x):
    if x.op in ("list", "shape"):
        return x
    ty = it.ty(x)
    if ty and ty[0] in ("list", "tup"):
        return x
    return mklist([x])


# -- jaxlie


def group_type(it, x):
    return mk("type", x)


@tm.cons("glog")
def glog(x):
    if x.op == "gexp":
        return x.a[1]
    if x.op == "ginv":
        return neg(glog(x.a[0]))
    if x.op == "gident":
        return ZERO
    return raw("glog", x)


def gexp(cls, v):
    if v.op == "glog":
        return v.a[0]
    return raw("gexp", cls, v)


def call_jaxlie(it, d, args, kwargs):
    if any(isinstance(a, tuple) for a in args):
        flat = []
        for a in args:
            if isinstance(a, tuple):
                s = it.force(a[1])
                items = list_items(s)
                if items is None:
                    return generic(it, raw("ext", d), args, kwargs)
                flat.extend(items)
            else:
                flat.append(a)
        args = flat
    A = [it.force(a) for a in args]
    K = {k: it.force(v) for k, v in kwargs.items()}
    last = d.split(".")[-1]
    if last == "rminus":
        a, b = (A + [K.get("x0"), K.get("x1")])[:2] if len(A) >= 2 else (K.get("a", K.get("x0")), K.get("b", K.get("x1")))
        if a is None or b is None:
            return None
        return glog(mk("matmul", (mk("ginv", a), b)))
    if last == "rplus":
        x = A[0] if A else K.get("transform", K.get("x"))
        v = A[1] if len(A) > 1 else K.get("delta")
        if x is None or v is None:
            return None
        if v.op == "num" and v is ZERO:
            return x
        return mk("matmul", (x, gexp(mk("type", x), v)))
    parts = d.split(".")
    if len(parts) >= 3:
        cls = raw("ext", ".".join(parts[:-1]))
        if last == "exp":
            return gexp(cls, A[0] if A else K.get("tangent"))
        if last == "identity":
            return raw("gident", cls)
        if parts[-2] == "SO3" and last == "from_quaternion_xyzw":
            q = A[0] if A else K.get("xyzw")
            return raw("so3", tuple(index(q, num(k)) for k in (3, 0, 1, 2)))
        if parts[-2] == "SE3" and last == "from_rotation_and_translation":
            R = A[0] if A else K.get("rotation")
            t = A[1] if len(A) > 1 else K.get("translation")
            w = R.a[0] if R.op == "so3" else tuple(index(mk("attr", R, "wxyz"), num(k)) for k in range(4))
            return raw("se3", w, tuple(index(t, num(k)) for k in range(3)))
        if parts[-2] == "SE2" and last == "from_rotation_and_translation":
            R = A[0] if A else K.get("rotation")
            t = A[1] if len(A) > 1 else K.get("translation")
            if R.op == "so2":
                return raw("se2", (index(t, ZERO), index(t, ONE), R.a[0]))
        if parts[-2] == "SO2" and last == "from_radians":
            return raw("so2", A[0] if A else K.get("theta"))
        if parts[-2] == "SE2" and last == "from_xy_theta":
            x = A[0] if len(A) > 0 else K.get("x")
            y = A[1] if len(A) > 1 else K.get("y")
            th = A[2] if len(A) > 2 else K.get("theta")
            return raw("se2", (x, y, th))
    if last == "SO3":
        w = A[0] if A else K.get("wxyz")
        if w is not None:
            return raw("so3", tuple(index(w, num(k)) for k in range(4)))
    if last == "SE3":
        v = A[0] if A else K.get("wxyz_xyz")
        if v is not None:
            return raw("se3", tuple(index(v, num(k)) for k in range(4)), tuple(index(v, num(k)) for k in range(4, 7)))
    return raw("call", raw("ext", d), tuple(it.canon(a) for a in A), frozenset((k, it.canon(v)) for k, v in K.items()))


# -- explicit table of other externals

EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f

    return deco


@ext("jax.jit", "jax_dataclasses.jit", "jax.checkpoint", "jax.remat", "typing.cast.<f>", "overrides.final", "overrides.overrides")
def _jit(it, args, kwargs, node):
    if not args:
        return raw("ext", "identity")
    return args[0]


@ext("identity")
def _identity(it, args, kwargs, node):
    return args[0]


@ext("jax.vmap")
def _vmap(it, args, kwargs, node):
    f = args[0] if args else kwargs.get("fun")
    if f is None:
        return it.opaque("vmap")
    ia = it.force(get_arg(args, kwargs, 1, "in_axes", ZERO))
    oa = it.force(get_arg(args, kwargs, 2, "out_axes", ZERO))
    return raw("vmapf", f, ia, oa)


@ext("jax.jacfwd", "jax.jacrev", "jax.jacobian")
def _jac(it, args, kwargs, node):
    an = get_arg(args, kwargs, 1, "argnums", ZERO)
    return raw("jacf", args[0], it.force(an))


@ext("functools.partial")
def _partial(it, args, kwargs, node):
    if any(isinstance(a, tuple) for a in args):
        return it.opaque("partial star")
    f = args[0]
    if f.op == "ext" and f.a[0] in ("jax.jit", "jax_dataclasses.jit"):
        return raw("ext", "identity")
    return raw("partial", f, tuple(args[1:]), tuple(sorted(kwargs.items(), key=lambda kv: kv[0])))


@ext("functools.lru_cache", "functools.cache")
def _cache(it, args, kwargs, node):
    if len(args) == 1 and args[0].op in ("func", "clo", "um", "bm"):
        return args[0]
    return raw("ext", "identity")


@ext("functools.reduce")
def _reduce(it, args, kwargs, node):
    f, l = args[0], it.force(it.seq(args[1]))
    items = list_items(l)
    if items is not None:
        acc = args[2] if len(args) > 2 else None
        for x in items:
            acc = x if acc is None else it.apply(f, [acc, x], {})
        return acc if acc is not None else it.opaque("reduce of empty")
    if len(args) > 2:
        s, i = fresh("s"), fresh("i")
        x = index(l, i)
        u = it.force(it.apply(f, [s, x], {}))
        inc = it._increment(u, s)
        if inc is not None and s not in inc.fs:
            return add(it.force(args[2]), tm.psum(length(l), close(i, inc)))
        return raw("fold", length(l), it.force(args[2]), close(s, close(i, u)))
    return it.opaque("reduce")


@ext("operator.add")
def _op_add(it, args, kwargs, node):
    return it.binop(ast.Add(), it.force(args[0]), it.force(args[1]))


@ext("operator.mul")
def _op_mul(it, args, kwargs, node):
    return it.binop(ast.Mult(), it.force(args[0]), it.force(args[1]))


@ext("math.sqrt", "jax.lax.sqrt")
def _sqrt(it, args, kwargs, node):
    return power(it.force(args[0]), Fraction(1, 2))


@ext("math.prod")
def _mprod(it, args, kwargs, node):
    items = list_items(it.force(it.seq(args[0])))
    if items is not None:
        return mul(*items)
    return generic(it, raw("ext", "math.prod"), args, kwargs)


@ext("itertools.chain")
def _chain(it, args, kwargs, node):
    segs = []
    for a in args:
        if isinstance(a, tuple):
            l = it.force(a[1])
            segs.append(mk("spread", flatten_list(it, l)))
        else:
            segs.append(mk("spread", it.force(it.seq(a))))
    return mk("list", tuple(segs))


@ext("itertools.chain.from_iterable")
def _chain2(it, args, kwargs, node):
    return flatten_list(it, it.force(it.seq(args[0])))


def flatten_list(it, l):
    if l.op == "list":
        segs = []
        for s in l.a[0]:
            if s.op == "one":
                segs.append(mk("spread", it.seq(s.a[0])))
            elif s.op == "for":
                i = fresh("i", ("scal",))
                segs.append(mk("for", s.a[0], close(i, flatten_list(it, open_(s.a[1], i)))))
            elif s.op == "spread":
                segs.append(mk("spread", flatten_list(it, s.a[0])))
            else:
                return it.opaque("flatten")
        return mk("list", tuple(segs))
    i = fresh("i", ("scal",))
    return mk("list", (mk("for", length(l), close(i, mk("list", (mk("spread", it.seq(index(l, i))),)))),))


@ext("itertools.accumulate")
def _accumulate(it, args, kwargs, node):
    l = it.force(it.seq(args[0]))
    if len(args) == 1:
        ini = kwargs.get("initial")
        r = cumsum(it, l)
        if ini is not None and ini is not NONE:
            ini = it.force(ini)
            n = length(l)
            i, s = fresh("i"), fresh("s")
            return tm.map_list(add(n, ONE), i, add(ini, tm.psum(i, close(s, index(l, s)))))
        return r
    return it.opaque("accumulate")


@ext("itertools.product")
def _product(it, args, kwargs, node):
    if len(args) == 1 and "repeat" in kwargs and int_of(kwargs["repeat"]) == 2:
        args = [args[0], args[0]]
    if len(args) == 2 and not any(isinstance(a, tuple) for a in args):
        a, b = it.force(it.seq(args[0])), it.force(it.seq(args[1]))
        return flatten_list(it, map_term(a, lambda x: map_term(b, lambda y: mklist([x, y]))))
    return it.opaque("product")


@ext("itertools.repeat")
def _irepeat(it, args, kwargs, node):
    if len(args) == 2:
        i = fresh("i")
        return tm.map_list(it.force(args[1]), i, it.force(args[0]))
    return it.opaque("repeat")


@ext("jax.tree_map")
def _tree_map_ext(it, args, kwargs, node):
    f = args[0]
    rest = args[1:]
    if rest and all(isinstance(a, tuple) for a in rest) and len(rest) == 1:
        return tree_map(it, f, it.force(rest[0][1]), True)
    if rest and any(isinstance(a, tuple) for a in rest):
        return tree_map(it, f, star_to_list(it, rest), True)
    return tree_map(it, f, [it.force(a) for a in rest], False)


@ext("jax.tree_leaves")
def _leaves(it, args, kwargs, node):
    return mk("leaves", it.force(args[0]))


@ext("jax.tree_structure")
def _treedef(it, args, kwargs, node):
    return mk("treedef", it.force(args[0]))


@ext("jax.tree_flatten")
def _tree_flatten(it, args, kwargs, node):
    x = it.force(args[0])
    return mklist([mk("leaves", x), mk("treedef", x)])


@ext("jax.tree_unflatten")
def _tree_unflatten(it, args, kwargs, node):
    d, l = it.force(args[0]), it.force(args[1])
    return raw("unflat", d, l)


@ext("jax.flatten_util.ravel_pytree")
def _ravel_pytree(it, args, kwargs, node):
    x = it.force(args[0])
    return mklist([raw("flat", x), raw("unflatf", x)])


@ext("jax.lax.stop_gradient")
def _stop(it, args, kwargs, node):
    return raw("stop_gradient", it.force(args[0]))


@ext("jax.lax.cond")
def _cond(it, args, kwargs, node):
    args = list(args)
    c = it.force(args[0])
    f, g = args[1], args[2]
    ops = args[3:]
    if "operand" in kwargs:
        ops = [kwargs["operand"]]
    a = it.force(it.apply(f, ops, {}))
    b = it.force(it.apply(g, ops, {}))
    return select_tree(c, a, b)


def select_tree(c, a, b):
    it = CURRENT[0]
    ca, ea = it.cls_of(a)
    if ca is not None and ea and a is not b and it.p.is_dataclass(ca):
        fs = it.p.all_fields(ca)
        return mk("obj", ca.qual, tuple((f.name, select(c, mk("attr", a, f.name), mk("attr", b, f.name)) if not f.static else mk("attr", a, f.name)) for f in fs))
    return select(c, a, b)


def one_of(x):
    items = list_items(x)
    if items is not None:
        return items[0] if len(items) == 1 else None
    return None


def block_of(it, x, start, size):
    return mk("slice", x, start, size)


@ext("jax.lax.dynamic_slice")
def _dynamic_slice(it, args, kwargs, node):
    x, lo, n = (it.force(get_arg(args, kwargs, k, m)) for k, m in enumerate(("operand", "start_indices", "slice_sizes")))
    lo, n = one_of(lo), one_of(n)
    if lo is None or n is None:
        return generic(it, raw("ext", "jax.lax.dynamic_slice"), args, kwargs)
    return block_of(it, x, lo, n)


@ext("jax.lax.slice")
def _lax_slice(it, args, kwargs, node):
    x, lo, hi = (it.force(get_arg(args, kwargs, k, m)) for k, m in enumerate(("operand", "start_indices", "limit_indices")))
    st = it.force(get_arg(args, kwargs, 3, "strides", NONE))
    lo, hi = one_of(lo), one_of(hi)
    if lo is None or hi is None or st is not NONE:
        return generic(it, raw("ext", "jax.lax.slice"), args, kwargs)
    return block_of(it, x, lo, sub(hi, lo))


@ext("jax.lax.dynamic_slice_in_dim")
def _dynamic_slice_in_dim(it, args, kwargs, node):
    x, lo, n = (it.force(get_arg(args, kwargs, k, m)) for k, m in enumerate(("operand", "start_index", "slice_size")))
    if it.force(get_arg(args, kwargs, 3, "axis", ZERO)) is not ZERO:
        return generic(it, raw("ext", "jax.lax.dynamic_slice_in_dim"), args, kwargs)
    return block_of(it, x, lo, n)


@ext("jax.lax.slice_in_dim")
def _slice_in_dim(it, args, kwargs, node):
    x, lo, hi = (it.force(get_arg(args, kwargs, k, m)) for k, m in enumerate(("operand", "start_index", "limit_index")))
    st, ax = it.force(get_arg(args, kwargs, 3, "stride", ONE)), it.force(get_arg(args, kwargs, 4, "axis", ZERO))
    if ax is not ZERO or st is not ONE:
        return generic(it, raw("ext", "jax.lax.slice_in_dim"), args, kwargs)
    return getitem(it, x, raw("sl", lo, hi, NONE))


@ext("jax.lax.dynamic_index_in_dim", "jax.lax.index_in_dim")
def _index_in_dim(it, args, kwargs, node):
    x, k = (it.force(get_arg(args, kwargs, j, m)) for j, m in enumerate(("operand", "index")))
    ax, keep = it.force(get_arg(args, kwargs, 2, "axis", ZERO)), it.force(get_arg(args, kwargs, 3, "keepdims", tm.TRUE))
    if ax is not ZERO:
        return generic(it, raw("ext", "jax.lax.dynamic_index_in_dim"), args, kwargs)
    return index(x, k) if keep is tm.FALSE else block_of(it, x, k, ONE)


@ext("jax.ops.segment_sum")
def _segment_sum(it, args, kwargs, node):
    A = [it.force(a) for a in args]
    K = {k: it.force(v) for k, v in kwargs.items()}
    data, ids, n = (A[k] if k < len(A) else K.get(w) for k, w in enumerate(("data", "segment_ids", "num_segments")))
    if data is None or ids is None or n is None or len(A) > 3 or set(K) - {"data", "segment_ids", "num_segments"}:
        return generic(it, raw("ext", "jax.ops.segment_sum"), args, kwargs)
    return mk("upd", mk("zeros", mklist([n])), (mk("st", "add", norm_idx(ids), data),))


@ext("jax.lax.dynamic_update_slice", "jax.lax.dynamic_update_slice_in_dim")
def _dynamic_update_slice(it, args, kwargs, node):
    x, u = (it.force(get_arg(args, kwargs, j, m)) for j, m in enumerate(("operand", "update")))
    lo = get_arg(args, kwargs, 2, "start_indices", None)
    lo = it.force(lo if lo is not None else kwargs.get("start_index"))
    if it.is_seq(lo) or lo.op == "list":
        lo = one_of(lo)
    if lo is None or it.force(get_arg(args, kwargs, 3, "axis", ZERO)) is not ZERO:
        return generic(it, raw("ext", "jax.lax.dynamic_update_slice"), args, kwargs)
    return mk("upd", x, (mk("st", "set", raw("slx", lo, length(u)), int_array(it, x, u)),))


LAX_AS_NP = {"add": "add", "sub": "subtract", "mul": "multiply", "div": "divide", "max": "maximum", "min": "minimum", "neg": "negative", "abs": "abs", "exp": "exp", "log": "log", "dot": "dot", "square": "square", "sqrt": "sqrt", "rsqrt": "rsqrt", "lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal", "eq": "equal", "ne": "not_equal", "bitwise_and": "logical_and", "bitwise_or": "logical_or", "bitwise_not": "logical_not"}


def _lax_as_np(name):
    def f(it, args, kwargs, node):
        return call_np(it, name, args, kwargs, node, "jax.numpy." + name)

    return f


for _k, _v in LAX_AS_NP.items():
    EXT["jax.lax." + _k] = _lax_as_np(_v)


@ext("jax.lax.concatenate")
def _lax_concatenate(it, args, kwargs, node):
    return mk("concat", it.force(args[0]), it.force(get_arg(args, kwargs, 1, "dimension", ZERO)))


@ext("jax.lax.select")
def _lax_select(it, args, kwargs, node):
    return select(it.force(args[0]), it.force(args[1]), it.force(args[2]))


@ext("jax.lax.while_loop")
def _while(it, args, kwargs, node):
    c = get_arg(args, kwargs, 0, "cond_fun")
    b = get_arg(args, kwargs, 1, "body_fun")
    init = it.force(get_arg(args, kwargs, 2, "init_val"))
    s = fresh("s", it.ty(init))
    cond = it.force(it.apply(c, [s], {}))
    body = it.force(it.apply(b, [s], {}))
    t = raw("while", init, close(s, cond), close(s, body))
    if it.ty(init) is not None:
        TERM_TYPE[t] = it.ty(init)
    return t


@ext("jax.lax.fori_loop")
def _fori(it, args, kwargs, node):
    lo = it.force(get_arg(args, kwargs, 0, "lower"))
    hi = it.force(get_arg(args, kwargs, 1, "upper"))
    f = get_arg(args, kwargs, 2, "body_fun")
    init = it.force(get_arg(args, kwargs, 3, "init_val"))
    s, i = fresh("s", it.ty(init)), fresh("i", ("scal",))
    u = it.force(it.apply(f, [add(lo, i), s], {}))
    t = raw("fold", sub(hi, lo), init, close(s, close(i, u)))
    if it.ty(init) is not None:
        TERM_TYPE[t] = it.ty(init)
    return t


@ext("jax.lax.scan")
def _scan(it, args, kwargs, node):
    f = get_arg(args, kwargs, 0, "f")
    init = it.force(get_arg(args, kwargs, 1, "init"))
    xs = it.force(get_arg(args, kwargs, 2, "xs", NONE))
    n = get_arg(args, kwargs, 3, "length", None)
    s, i = fresh("s", it.ty(init)), fresh("i", ("scal",))
    x = NONE if xs is NONE else mk("row", xs, i)
    r = it.force(it.apply(f, [s, x], {}))
    u = index(r, ZERO)
    nn = it.force(n) if n is not None and n is not NONE else length(xs)
    t = raw("fold", nn, init, close(s, close(i, u)))
    if it.ty(init) is not None:
        TERM_TYPE[t] = it.ty(init)
    y = index(r, ONE)
    return mklist([t, NONE if y is NONE else it.opaque("scan outputs")])


@ext("jax.experimental.host_callback.call")
def _hcb_call(it, args, kwargs, node):
    it.effects.append(Effect("host-callback", "call", and_(*it.pc), it.where(node), it.stack[-1] if it.stack else "?"))
    f = args[0]
    r = it.apply(f, [args[1] if len(args) > 1 else kwargs["arg"]], {})
    return r


@ext("jax.pure_callback", "jax.experimental.io_callback")
def _pure_callback(it, args, kwargs, node):
    it.effects.append(Effect("host-callback", "call", and_(*it.pc), it.where(node), it.stack[-1] if it.stack else "?"))
    kw = {k: v for k, v in kwargs.items() if k not in ("vectorized", "ordered", "vmap_method", "sharding")}
    return it.apply(args[0], list(args[2:]), kw)


@ext("jax.experimental.host_callback.id_tap", "jax.experimental.host_callback.id_print")
def _id_tap(it, args, kwargs, node):
    it.effects.append(Effect("host-callback", "tap", and_(*it.pc), it.where(node), it.stack[-1] if it.stack else "?", tuple(it.force(a) for a in args[1:] if not isinstance(a, tuple))))
    f = args[0]
    if len(args) >= 2 and f.op in ("clo", "func", "bm", "partial", "um"):
        it.apply(f, [args[1], NONE], {})
    if "result" in kwargs:
        return kwargs["result"]
    return args[1] if len(args) > 1 else args[0]


@ext("jax.debug.print", "jax.debug.callback")
def _debug_print(it, args, kwargs, node):
    it.effects.append(Effect("host-callback", "debug", and_(*it.pc), it.where(node), it.stack[-1] if it.stack else "?"))
    it.effects.append(Effect("print", "debug", and_(*it.pc), it.where(node), it.stack[-1] if it.stack else "?"))
    if args and args[0].op in ("clo", "func", "bm", "partial", "um"):
        it.apply(args[0], args[1:], kwargs)
    return NONE


@ext("jax.device_get", "jax.device_put", "jax.block_until_ready")
def _device(it, args, kwargs, node):
    return args[0]


@ext("jax.scipy.sparse.linalg.cg", "scipy.sparse.linalg.cg")
def _cg(it, args, kwargs, node):
    names = ["A", "b", "x0"]
    d = {n: a for n, a in zip(names, args)}
    d.update(kwargs)
    b = it.force(d["b"])
    x = fresh("x", ("arr",))
    tm.SYM_NDIM[x] = 1

    def fn(f):
        if f is None or f is NONE:
            return NONE
        if f.op in ("clo", "func", "bm", "um", "partial"):
            return close(x, it.force(it.apply(f, [x], {})))
        return it.force(f)

    t = raw(
        "cg", fn(d.get("A")), b, it.force(d.get("x0", NONE)), it.force(d.get("tol", num("0.00001" and Fraction(1, 100000)))),
        it.force(d.get("atol", ZERO)), it.force(d.get("maxiter", NONE)), fn(d.get("M", NONE)),
    )
    return mklist([t, NONE])


@ext("jax.scipy.linalg.solve_triangular", "scipy.linalg.solve_triangular")
def _solve_tri(it, args, kwargs, node):
    a, b = it.force(args[0]), it.force(args[1])
    tr = kwargs.get("trans")
    low = kwargs.get("lower", FALSE)
    if low is TRUE and (tr is None or tr is ZERO):
        return matmul(it, mk("inv", a), b) if b.op != "eye" else mk("inv", a)
    return generic(it, raw("ext", "solve_triangular"), args, kwargs)


@ext("scipy.sparse.coo_matrix", "scipy.sparse.coo_array")
def _coo(it, args, kwargs, node):
    return sparse_matrix(it, "coo", args, kwargs)


@ext("scipy.sparse.csc_matrix", "scipy.sparse.csc_array")
def _csc(it, args, kwargs, node):
    return sparse_matrix(it, "csc", args, kwargs)


@ext("scipy.sparse.csr_matrix", "scipy.sparse.csr_array")
def _csr(it, args, kwargs, node):
    return sparse_matrix(it, "csr", args, kwargs)


def sparse_matrix(it, kind, args, kwargs):
    x = it.force(args[0])
    sh = kwargs.get("shape", args[1] if len(args) > 1 else None)
    items = list_items(x)
    if items is not None and len(items) == 2:
        r, c = index(items[1], ZERO), index(items[1], ONE)
        x = raw("coo", items[0], r, c, raw("fitted", r, c) if sh is None or sh is NONE else it.force(sh))
    if x.op == "coo" and kind != "coo":
        return raw(kind, x)
    if x.op == kind:
        return x
    return generic(it, raw("ext", "scipy.sparse." + kind + "_matrix"), args, kwargs)


@ext("sksparse.cholmod.analyze_AAt")
def _analyze(it, args, kwargs, node):
    return raw("cholsym", it.force(args[0]), frozenset((k, it.force(v)) for k, v in kwargs.items()))


@ext("sksparse.cholmod.cholesky_AAt")
def _cholesky_AAt(it, args, kwargs, node):
    a = it.force(get_arg(args, kwargs, 0, "A"))
    beta = it.force(get_arg(args, kwargs, 1, "beta", ZERO))
    om = kwargs.get("ordering_method")
    return raw("cholfac", raw("cholsym", a, frozenset((("ordering_method", it.force(om)),)) if om is not None else frozenset()), a, beta)


@ext("jax_dataclasses.replace")
def _replace(it, args, kwargs, node):
    if "**" in kwargs:
        return it.opaque("replace **")
    return it.replace_fields(args[0], dict(kwargs))


@ext("jax_dataclasses.copy_and_mutate")
def _cam(it, args, kwargs, node):
    return raw("ctxmut", it.force(args[0]))


@ext("typing.cast")
def _cast(it, args, kwargs, node):
    return args[1]


@ext("tqdm.auto.tqdm", "tqdm.tqdm", "tqdm.std.tqdm", "copy.deepcopy", "copy.copy", "frozendict.frozendict", "types.MappingProxyType")
def _ident(it, args, kwargs, node):
    if not args:
        return it.alloc("dict", mk("dict", EMPTYDICT, tuple(mk("set", const(k), v) for k, v in kwargs.items())))
    x = args[0]
    if x.op == "ref":
        k = it.heap_kind[x.a[0]]
        st = it.heap[x.a[0]]
        if st.op == "family":
            return it.force(x)
        return it.alloc(k, it.force(st))
    if x.op == "list" and getattr(node, "func", None) is not None and ast.unparse(node.func).endswith("frozendict"):
        return make_dict(it, args, kwargs)
    return x


def is_pair_seg(s):
    return False


@ext("collections.defaultdict")
def _defaultdict(it, args, kwargs, node):
    return it.alloc("dict", mk("dict", EMPTYDICT, ()))


@ext("collections.OrderedDict", "weakref.WeakKeyDictionary", "weakref.WeakValueDictionary")
def _od(it, args, kwargs, node):
    return make_dict(it, args, kwargs)


@ext("collections.deque")
def _deque(it, args, kwargs, node):
    return it.alloc("list", it.force(it.seq(args[0])) if args else mk("list", ()))


@ext("collections.Counter")
def _counter(it, args, kwargs, node):
    if args:
        return raw("counter", it.force(it.seq(args[0])))
    return it.opaque("Counter")


def make_dict(it, args, kwargs):
    ev = []
    base = EMPTYDICT
    if args:
        x = args[0]
        if x.op == "ref" and it.heap_kind[x.a[0]] == "dict":
            return it.alloc("dict", it.force(x))
        t = it.ty(x)
        if t and t[0] == "dict":
            return it.alloc("dict", it.force(x))
        l = it.force(it.seq(x))
        for s in dict_events(it, l):
            ev.append(s)
    for k, v in kwargs.items():
        ev.append(mk("set", const(k), v))
    return it.alloc("dict", mk("dict", base, tuple(ev)))


def dict_events(it, l):
    out = []
    if l.op == "list":
        for s in l.a[0]:
            if s.op == "one":
                out.append(mk("set", index(s.a[0], ZERO), index(s.a[0], ONE)))
            elif s.op == "for":
                i = fresh("i", ("scal",))
                out.append(mk("for", s.a[0], close(i, mk("dict", raw("nil"), tuple(dict_events(it, open_(s.a[1], i)))))))
            elif s.op == "if":
                out.append(mk("if", s.a[0], mk("dict", raw("nil"), tuple(dict_events(it, s.a[1]))), mk("dict", raw("nil"), tuple(dict_events(it, s.a[2])))))
            elif s.op == "spread":
                out.extend(dict_events(it, s.a[0]))
        return out
    i = fresh("i", ("scal",))
    x = index(l, i)
    return [mk("for", length(l), close(i, mk("dict", raw("nil"), (mk("set", index(x, ZERO), index(x, ONE)),))))]


# -- builtins


def call_builtin(it, name, args, kwargs, node, fr):
    star = any(isinstance(a, tuple) for a in args)
    if name == "len":
        x = args[0]
        if x.op == "ref":
            st = it.heap[x.a[0]]
            if st.op == "family":
                return st.a[0]
            if it.heap_kind[x.a[0]] == "dict":
                return length(mk("keys", it.force(st)))
        x = it.force(x)
        if x.op == "dict":
            return length(mk("keys", x))
        t = it.ty(x)
        if t and t[0] == "dict":
            return length(mk("keys", x))
        if x.op in ("zeros", "upd", "arr"):
            return index(shape(x), ZERO)
        return length(x)
    if name == "range":
        A = [it.force(a) for a in args]
        effect(it, "convert", "range", node, tuple(A))
        if len(A) == 1:
            return range_list(ZERO, A[0], ONE)
        return range_list(A[0], A[1], A[2] if len(A) > 2 else ONE)
    if name == "enumerate":
        s = it.seq(args[0])
        st = it.force(get_arg(args, kwargs, 1, "start", ZERO))
        i = fresh("i", ("scal",))
        items = list_items(s)
        if items is not None:
            return mklist([mklist([add(st, num(k)), x]) for k, x in enumerate(items)])
        if s.op == "list" and not (len(s.a[0]) == 1 and s.a[0][0].op == "for" and _single(s.a[0][0])):
            return enum_segs(it, s, st)
        return tm.map_list(length(s), i, mklist([add(st, i), index(s, i)]))
    if name == "zip":
        if star:
            if len(args) == 1 and isinstance(args[0], tuple):
                return it.opaque("zip(*)")
            return it.opaque("zip star")
        return zip_terms(it, args)
    if name == "map":
        f = args[0]
        if len(args) == 2:
            l = it.seq(args[1])
            return map_term(l, lambda x: it.apply(f, [x], {}))
        l = zip_terms(it, args[1:])
        k = len(args) - 1
        return map_term(l, lambda x: it.apply(f, [index(x, num(j)) for j in range(k)], {}))
    if name == "filter":
        f = args[0]
        l = it.seq(args[1])
        return filter_term(it, l, lambda x: it.truth(it.force(it.apply(f, [x], {}))) if f is not NONE else it.truth(x))
    if name in ("list", "tuple"):
        if not args:
            return it.alloc("list", mk("list", ())) if name == "list" else mk("list", ())
        x = args[0]
        if x.op == "ref" and it.heap[x.a[0]].op == "family":
            return x
        s = it.seq(x)
        if name == "tuple" or s.op != "list":
            return s
        return it.alloc("list", s)
    if name == "iter":
        return it.seq(args[0])
    if name == "next":
        return index(it.force(args[0]), ZERO)
    if name == "dict":
        return make_dict(it, args, kwargs)
    if name in ("set", "frozenset"):
        s = mk("setof", it.force(it.seq(args[0]))) if args else mk("setof", mk("list", ()))
        return it.alloc("set", s) if name == "set" else s
    if name == "sorted":
        x = it.force(it.seq(args[0]))
        key = kwargs.get("key", NONE)
        rv = it.force(kwargs.get("reverse", FALSE))
        if key is NONE and rv in (TRUE, FALSE):
            items = known_items(it, x)
            if items is not None and len(items) <= 2:
                effect(it, "convert", "builtin sorted", node, tuple(items))
                if len(items) == 2:
                    items = [min_(*items), max_(*items)]
                return it.alloc("list", mklist(items if rv is FALSE else items[::-1]))
        return raw("sorted", x, sort_key(it, x, key), rv)
    if name == "reversed":
        return reverse(it, it.force(it.seq(args[0])))
    if name == "sum":
        x = it.force(it.seq(args[0]))
        st = it.force(get_arg(args, kwargs, 1, "start", ZERO))
        if st.op == "list":
            return mk("list", (mk("spread", st), mk("spread", flatten_list(it, x))))
        return add(st, sum_list(x))
    if name in ("max", "min"):
        f = max_ if name == "max" else min_
        if len(args) == 1 and not star:
            x = it.force(it.seq(args[0]))
            items = known_items(it, x)
            if not kwargs:
                effect(it, "convert", "builtin " + name, node, tuple(items) if items else (x,))
            if items:
                return f(*items)
            return raw("r" + name, it.force(args[0]), "all")
        if kwargs:
            return generic(it, raw("ext", "builtins." + name), args, kwargs)
        items = [it.force(a) for a in args]
        effect(it, "convert", "builtin " + name, node, tuple(items))
        return f(*items)
    if name in ("any", "all"):
        x = it.force(it.seq(args[0]))
        items = list_items(x)
        effect(it, "convert", "builtin " + name, node, tuple(items) if items is not None else (x,))
        if items is not None:
            return or_(*items) if name == "any" else and_(*items)
        return raw(name, x)
    if name == "abs":
        return absval(it.force(args[0]))
    if name in ("int", "float", "bool", "str"):
        if not args:
            return {"int": ZERO, "float": ZERO, "bool": FALSE, "str": const("")}[name]
        x = it.force(args[0])
        if name != "str":
            effect(it, "convert", name, node, (x,))
        if name == "float" and x.op == "const" and x.a[0] == "str" and x.a[1].strip("+").lower() in ("inf", "nan", "-inf"):
            return const(float(x.a[1]))
        if name == "str":
            return raw("str", x)
        t = it.ty(x)
        if x.op in ("num", "poly", "psum", "len") or t in (("scal",), ("arr",), ("bool",)) or tm.is_scalar(x) or it.boolish(x) or x.op in ("get",):
            if name == "int" and x.op == "num" and x.a[0].denominator != 1:
                return num(int(x.a[0]))
            if name == "int" and x.op == "poly" and tm._has_neg(x):
                return raw("int", x)
            return x if name != "bool" else it.truth(x)
        return raw(name, x)
    if name == "isinstance":
        return isinstance_(it, it.force(args[0]), args[1])
    if name == "issubclass":
        return raw("issub", it.force(args[0]), it.force(args[1]))
    if name == "type":
        return mk("type", it.force(args[0]))
    if name == "hasattr":
        return raw("hasattr", it.force(args[0]), it.force(args[1]))
    if name == "getattr":
        n = it.force(args[1])
        if n.op == "const":
            x = args[0]
            v = it.get_attr(x, n.a[1], fr, node)
            if len(args) > 2:
                xf = it.force(x)
                c, _ = it.cls_of(xf)
                if c is None:
                    return select(raw("hasattr", xf, n), it.force(v), it.force(args[2]))
            return v
        return raw("getattr", it.force(args[0]), n)
    if name == "setattr":
        it.effects.append(Effect("setattr", tm.pretty(it.force(args[0]), 4), and_(*it.pc), it.where(node), it.stack[-1] if it.stack else "?", (it.force(args[0]), it.force(args[1]), it.force(args[2]))))
        return NONE
    if name == "print":
        it.effects.append(Effect("print", "print", and_(*it.pc), it.where(node), it.stack[-1] if it.stack else "?"))
        return NONE
    if name in ("id", "hash"):
        return raw("ident" if name == "id" else "hash", it.force(args[0]))
    if name == "object":
        return raw("new", raw("ext", "builtins.object"), ("id", next(tm._uid)))
    if name == "slice":
        A = [it.force(a) for a in args]
        if len(A) == 1:
            A = [NONE, A[0], NONE]
        if len(A) == 2:
            A = A + [NONE]
        return raw("slice_obj", *A)
    if name == "divmod":
        a, b = it.force(args[0]), it.force(args[1])
        return mklist([raw("floordiv", a, b), raw("mod", a, b)])
    if name == "round":
        A = [it.force(a) for a in args if not isinstance(a, tuple)]
        if len(A) == len(args) and not kwargs and A:
            return A[0] if integral(A[0]) else raw("fn", "round", A[0], tuple(A[1:]), frozenset())
        return generic(it, raw("ext", "builtins.round"), args, kwargs)
    if name == "open":
        return raw("call", raw("ext", "builtins.open"), (it.force(args[0]),), frozenset())
    if name == "callable":
        return raw("callable", it.force(args[0]))
    if name in ("object.__setattr__",):
        x = args[0]
        if x.op == "ref" and it.heap_kind[x.a[0]] == "obj":
            it.heap[x.a[0]] = it.replace_fields(it.heap[x.a[0]], {it.force(args[1]).a[1]: args[2]})
        else:
            it.effects.append(Effect("setattr", tm.pretty(it.force(x), 4), and_(*it.pc), it.where(node), it.stack[-1] if it.stack else "?", (it.force(x), it.force(args[1]), it.force(args[2]))))
        return NONE
    if name == "object.__hash__":
        return raw("ident", it.force(args[0]))
    if name == "dict.fromkeys":
        l = it.force(it.seq(args[0]))
        v = it.force(args[1]) if len(args) > 1 else NONE
        return it.alloc("dict", mk("dict", EMPTYDICT, tuple(dict_events(it, map_term(l, lambda x: mklist([x, v]))))))
    if name == "exit" or name == "vars" or name == "locals":
        return it.opaque(name)
    return generic(it, raw("ext", "builtins." + name), args, kwargs)


def _single(f):
    b = f.a[1].a[1]
    return b.op == "list" and len(b.a[0]) == 1 and b.a[0][0].op == "one"


def enum_segs(it, l, start):
    """enumerate() over a list with several segments: positions are running lengths."""
    segs = []
    pos = start
    for s in l.a[0]:
        if s.op == "one":
            segs.append(raw("one", mklist([pos, s.a[0]])))
            pos = add(pos, ONE)
        elif s.op == "for":
            i, j = fresh("i", ("scal",)), fresh("j")
            inner = open_(s.a[1], i)
            p = add(pos, tm.psum(i, close(j, length(open_(s.a[1], j)))))
            segs.append(mk("for", s.a[0], close(i, enum_segs(it, inner, p))))
            pos = add(pos, tm.psum_len(s))
        elif s.op == "spread":
            i = fresh("i", ("scal",))
            segs.append(mk("spread", tm.map_list(length(s.a[0]), i, mklist([add(pos, i), index(s.a[0], i)]))))
            pos = add(pos, length(s.a[0]))
        elif s.op == "if" and s.a[1].op == "list" and s.a[2].op == "list":
            segs.append(mk("if", s.a[0], enum_segs(it, s.a[1], pos), enum_segs(it, s.a[2], pos)))
            pos = add(pos, select(s.a[0], length(s.a[1]), length(s.a[2])))
        else:
            return it.opaque("enumerate")
    return mk("list", tuple(segs))


def sum_list(x):
    if x.op == "list":
        out = []
        for s in x.a[0]:
            if s.op == "one":
                out.append(s.a[0])
            elif s.op == "for":
                i = fresh("i")
                out.append(tm.psum(s.a[0], close(i, sum_list(open_(s.a[1], i)))))
            elif s.op == "spread":
                out.append(sum_list(s.a[0]))
            elif s.op == "if":
                out.append(select(s.a[0], sum_list(s.a[1]), sum_list(s.a[2])))
        return add(*out)
    i = fresh("i")
    return tm.psum(length(x), close(i, index(x, i)))


def filter_term(it, l, pred):
    if l.op == "list":
        segs = []
        for s in l.a[0]:
            if s.op == "one":
                segs.append(mk("if", pred(s.a[0]), mk("list", (s,)), mk("list", ())))
            elif s.op == "for":
                i = fresh("i", ("scal",))
                segs.append(mk("for", s.a[0], close(i, filter_term(it, open_(s.a[1], i), pred))))
            elif s.op == "spread":
                segs.append(mk("spread", filter_term(it, s.a[0], pred)))
            else:
                return it.opaque("filter")
        return mk("list", tuple(segs))
    i = fresh("i", ("scal",))
    x = index(l, i)
    return mk("list", (mk("for", length(l), close(i, mk("list", (mk("if", pred(x), mklist([x]), mk("list", ())),)))),))


def isinstance_(it, x, c):
    if c.op == "list":
        return or_(*[isinstance_(it, x, k) for k in list_items(c)])
    while x.op in ("row", "replace"):
        x = x.a[0]
    if c.op == "cls":
        xc, exact = it.cls_of(x)
        if xc is not None:
            target = it.p.classes[c.a[0]]
            if target in it.p.mro(xc):
                return TRUE
            if exact:
                return FALSE
            # unrelated branches of the class hierarchy
            if xc not in it.p.mro(target) and not any(target in it.p.mro(s) for s in it.p.subclasses.get(xc.qual, [])):
                return raw("isinst", x, c)
        if x.op == "select":
            return select(x.a[0], isinstance_(it, x.a[1], c), isinstance_(it, x.a[2], c))
    if c.op == "ext" and c.a[0] in ("builtins.tuple", "builtins.list") and x.op == "list":
        return TRUE
    if c.op == "ext" and c.a[0] == "builtins.int" and (x.op == "num" or it.ty(x) == ("scal",)):
        return TRUE
    return raw("isinst", x, it.force(c))


# --------------------------------------------------------------------------------------------------------------------
# methods of values


def call_value_method(it, x, name, args, kwargs, node):
    xf = it.force(x)
    if xf.op == "select":
        # containers or arrays chosen by a condition
        a = call_value_method(it, xf.a[1], name, args, kwargs, node)
        b = call_value_method(it, xf.a[2], name, args, kwargs, node)
        return select(xf.a[0], it.force(a), it.force(b))
    if any(isinstance(a, tuple) for a in args):
        if name not in ("join",):
            return raw("mcall", xf, name, tuple(it.canon_arg(a) for a in args), frozenset())
    A = [it.force(a) for a in args]
    K = {k: it.force(v) for k, v in kwargs.items()}
    g = lambda k, n, d=None: A[k] if k < len(A) else K.get(n, d)
    if xf.op == "ext":
        return call_ext(it, xf.a[0] + "." + name, args, kwargs, node, None)
    if xf.op == "atidx":
        mode = {"set": "set", "add": "add", "mul": "mul", "multiply": "mul", "min": "min", "max": "max", "divide": "div"}.get(name)
        if mode is None:
            if name == "get":
                return getitem(it, xf.a[0], xf.a[1])
            return it.opaque("at." + name)
        extra = tuple(sorted(k for k in K if k in ("mode",)))
        odd = frozenset((k, K[k]) for k in ("unique_indices", "indices_are_sorted") if K.get(k, FALSE) is not FALSE)
        if odd and norm_idx(xf.a[1]).op != "slx":
            # promises about the positions that need not hold
            return raw("variant", "at." + name, odd, mk("upd", xf.a[0], (mk("st", mode, norm_idx(xf.a[1]), A[0] if A else K.get("values")),)))
        if name in ("set", "add") and extra and K["mode"].op == "const" and K["mode"].a[1] == "drop":
            return mk("upd", xf.a[0], (mk("st", "drop-" + mode, norm_idx(xf.a[1]), A[0]),))
        return mk("upd", xf.a[0], (mk("st", mode, norm_idx(xf.a[1]), int_array(it, xf.a[0], A[0] if A else K.get("values"))),))
    # dictionary views of typed mappings
    t = it.ty(xf)
    isdict = xf.op == "dict" or (t and t[0] == "dict")
    if name == "keys" and not A:
        return mk("keys", xf)
    if name == "values" and not A and (isdict or t is None):
        return values_of(xf)
    if name == "items" and not A:
        return items_of(xf)
    if name == "get" and (isdict or t is None) and A and xf.op != "sym_ext":
        return select(mk("in", A[0], xf), mk("get", xf, A[0]), A[1] if len(A) > 1 else NONE)
    if name == "copy" and not A:
        return xf
    if name in ("flatten", "ravel", "reshape"):
        o = g(0, "order") if name != "reshape" else K.get("order")
        if o is not None and o.op == "const" and o.a[1] == "F":
            return raw("variant", name, frozenset((("order", o),)), mk("ravel", xf) if name != "reshape" else mk("reshape", xf, as_list(it, A[0]) if len(A) == 1 else mklist(A)))
    if name in ("flatten", "ravel"):
        return mk("ravel", xf)
    if name == "reshape":
        if len(A) == 1:
            return mk("reshape", xf, as_list(it, A[0]))
        return mk("reshape", xf, mklist(A))
    if name in ("sum", "max", "min", "any", "all", "dot", "mean", "prod", "squeeze", "transpose", "repeat", "clip", "take", "cumsum", "swapaxes") and not it.is_group(xf):
        if name == "transpose" and not A:
            return transpose(it, xf)
        return call_np(it, name, [xf] + A, K, node, "jax.numpy." + name)
    if name == "astype":
        return dtype_guard(it, {}, xf, g(0, "dtype"))
    if name in ("tolist", "item", "tobytes", "__float__", "__int__", "__bool__", "__array__", "block_until_ready"):
        effect(it, "convert", "." + name + "()", node, (xf,))
    if name in ("tolist", "block_until_ready", "toarray", "todense"):
        if name in ("toarray", "todense"):
            return raw("dense", xf)
        return xf
    if name == "item" and not A:
        return xf
    if name == "tobytes":
        return raw("bytes", xf)
    if name == "tocsc":
        return raw("csc", xf) if xf.op != "csc" else xf
    if name == "getcol" and len(A) == 1:
        return raw("getcol", xf, A[0])
    if name == "tocoo":
        return xf
    if name == "conj" or name == "conjugate":
        return xf
    if name in ("inverse",) and (it.is_group(xf) or t is None):
        return mk("ginv", xf)
    if name == "multiply" and it.is_group(xf):
        return mk("matmul", (xf, A[0]))
    if name == "log" and not A:
        return glog(xf)
    if name == "adjoint" and not A:
        return raw("Ad", xf)
    if name == "identity" and not A:
        return raw("gident", xf)
    if name == "exp" and len(A) == 1:
        return gexp(xf, A[0])
    if name == "cholesky_AAt_inplace" or name == "cholesky_AAt":
        return raw("cholfac", sym_part(xf), A[0] if A else K.get("A"), g(1, "beta", ZERO))
    if name in ("solve_A", "__call__") and xf.op == "cholfac":
        return raw("cholsolve", xf, A[0] if A else K.get("b"))
    if name in CHOL_PARTS and len(A) == 1 and xf.op in ("cholfac", "cholsym"):
        # apply_Pt (L D L^T)^-1 apply_P is the solution
        x = A[0]
        if name == "apply_Pt" and x.op == "cholpart" and x.a[0] == "solve_LDLt" and x.a[2].op == "cholpart" and x.a[2].a[0] == "apply_P" and x.a[1] is xf and x.a[2].a[1] is xf:
            return raw("cholsolve", xf, x.a[2].a[2])
        return raw("cholpart", name, xf, x)
    if name == "solve_A" and (xf.op == "cholsym" or xf.op == "get" and xf.a[0].op == "global"):
        return raw("cholpart", "without factorisation", xf, A[0] if A else K.get("b"))
    if name == "L" and xf.op == "cholfac":
        return raw("cholL", xf)
    if name == "tree_flatten":
        pass
    if name == "__contains__":
        return mk("in", A[0], xf)
    if name == "index" and A:
        return raw("position", xf, A[0])
    if name == "union":
        return raw("union", frozenset([xf] + A))
    if name == "append" or name == "extend" or name == "update" or name == "setdefault" or name == "pop" or name == "clear" or name == "add":
        it.mutate(xf, name, node)
        return NONE
    if name in TEXT:
        r = text_method(xf, name, A, K)
        if r is not None:
            return r
    return raw("mcall", xf, name, tuple(it.canon(a) for a in A), frozenset((k, it.canon(v)) for k, v in K.items()))


TEXT = ("split", "partition", "strip", "lstrip", "rstrip")


def text_method(x, name, A, K):
    """First word and rest of a line; the words of the rest are the words of the line but the first."""
    words = lambda y, args=(): raw("mcall", y, "split", args, frozenset())
    if x.op == "restof":
        if name.endswith("strip") and not A:
            return x
        if name == "split" and not A and not K:
            s = words(x.a[0])
            return mk("slice", s, ONE, sub(length(s), ONE))
        return None
    sep = A[0] if A else K.get("sep", NONE)
    if sep is not NONE and not (sep.op == "const" and sep.a[1] == " "):
        return None
    if name == "partition" and len(A) == 1:
        return mklist([index(words(x), ZERO), A[0], raw("restof", x)])
    if name == "split" and (A[1] if len(A) > 1 else K.get("maxsplit")) is ONE:
        return mklist([index(words(x), ZERO), raw("restof", x)])
    return None


CHOL_PARTS = ("solve_LDLt", "solve_LD", "solve_DLt", "solve_L", "solve_Lt", "solve_D", "apply_P", "apply_Pt")


def sym_part(x):
    """A numeric factorization is refreshed in place: only the symbolic analysis is reused."""
    if x.op == "cholfac":
        return x.a[0]
    return x


def norm_idx(idx):
    """start/length form for slices used as update targets."""
    if idx.op == "sl" and idx.a[2] in (NONE, ONE):
        lo = ZERO if idx.a[0] is NONE else idx.a[0]
        if idx.a[1] is NONE:
            return raw("slx", lo, NONE)
        return raw("slx", lo, sub(idx.a[1], lo))
    if idx.op == "arr" and len(idx.a[0]) == 1:
        i = fresh("x")
        e = arr_elem(idx, [i])
        d = sub(e, i)
        if i not in d.fs:
            return raw("slx", d, idx.a[0][0])
    if idx.op == "ixs" and len(idx.a[0]) == 1:
        return norm_idx(idx.a[0][0])
    if idx.op == "list" and list_items(idx) is not None:
        return raw("ixs", tuple(list_items(idx)))
    return idx


tm.CONS["st"] = lambda mode, idx, v: raw("st", mode, norm_idx(idx), v)


# --------------------------------------------------------------------------------------------------------------------
# mutable containers


def container_method(it, ref, name, args, kwargs, node):
    if ref.op == "slot":
        base, k = ref.a
        if name in ("append", "extend"):
            st = it.heap[base.a[0]]
            if name == "append":
                evs = (mk("app", k, it.force_keep(args[0]) if hasattr(it, "force_keep") else args[0]),)
            else:
                l = it.force(it.seq(args[0]))
                evs = tuple(ext_events(it, k, l))
            if st.op == "family":
                log = st.a[1]
                it.heap[base.a[0]] = raw("family", st.a[0], raw("dict", log.a[0], log.a[1] + evs))
            else:
                if st.op != "dict":
                    st = raw("dict", st, ())
                it.heap[base.a[0]] = mk("dict", st.a[0], st.a[1] + evs)
            return NONE
        if name in ("cholesky_AAt_inplace",):
            v = call_value_method(it, it.force(ref), name, args, kwargs, node)
            st = it.heap[base.a[0]]
            if st.op != "dict":
                st = raw("dict", st, ())
            it.heap[base.a[0]] = mk("dict", st.a[0], st.a[1] + (mk("set", k, v),))
            it.effects.append(Effect("inplace", name, and_(*it.pc), it.where(node) if node is not None else it.cur_loc, it.stack[-1] if it.stack else "?"))
            return NONE
        if name in ("insert", "pop", "clear", "remove", "sort", "reverse", "update"):
            it.heap[base.a[0]] = it.opaque("bucket mutated by " + name)
            return it.opaque(name)
        return dispatch_value(it, it.force(ref), name, args, kwargs, node)
    i = ref.a[0]
    kind = it.heap_kind[i]
    st = it.heap[i]
    if kind == "dict":
        if name == "keys":
            return mk("keys", it.force(st))
        if name == "values":
            return values_of(it.force(st))
        if name == "items":
            return items_of(it.force(st))
        if name == "get":
            k = it.force(args[0])
            s = it.force(st)
            v = mk("get", s, k)
            d = it.force(args[1]) if len(args) > 1 else NONE
            return select(mk("in", k, s), v, d)
        if name == "setdefault":
            k = it.force(args[0])
            v = args[1] if len(args) > 1 else NONE
            vf = it.deref(v)
            if st.op != "dict":
                st = raw("dict", st, ())
            if vf.op == "list" and not vf.a[0]:
                return raw("slot", ref, k)
            if i in it.ext_objs.values():
                it.effects.append(Effect("store", it._ext_name(ref), and_(*it.pc), it.where(node), it.stack[-1] if it.stack else "?", (k, v, it._ext_term(ref))))
            it.heap[i] = mk("dict", st.a[0], st.a[1] + (mk("if", mk("in", k, it.force(st)), mk("dict", raw("nil"), ()), mk("dict", raw("nil"), (mk("set", k, v),))),))
            return raw("slot", ref, k)
        if name == "update":
            if st.op != "dict":
                st = raw("dict", st, ())
            evs = []
            for a in args:
                x = it.force(a)
                t = it.ty(x)
                if x.op == "dict" and x.a[0] is EMPTYDICT:
                    evs.extend(x.a[1])
                elif x.op == "dict" or (t and t[0] == "dict"):
                    evs.extend(dict_events(it, items_of(x)))
                else:
                    evs.extend(dict_events(it, it.seq(a)))
            for k, v in kwargs.items():
                evs.append(mk("set", const(k), v))
            it.heap[i] = mk("dict", st.a[0], st.a[1] + tuple(evs))
            return NONE
        if name == "copy":
            return it.alloc("dict", it.force(st))
        if name == "__contains__":
            return mk("in", it.force(args[0]), it.force(st))
        if name in ("pop", "clear", "popitem"):
            it.heap[i] = it.opaque("dict." + name)
            return it.opaque("dict." + name)
        return dispatch_value(it, it.force(ref), name, args, kwargs, node)
    if kind == "set":
        if name in ("add", "update") and st.op == "setof" and len(args) == 1:
            old = st.a[0].a[0] if st.a[0].op == "list" else (raw("spread", st.a[0]),)
            x = it.force(args[0]) if name == "add" else it.force(it.seq(args[0]))
            it.heap[i] = mk("setof", mk("list", old + (raw("one" if name == "add" else "spread", x),)))
            return NONE
        if name in ("add", "update", "discard", "remove", "pop", "clear", "difference_update", "intersection_update", "symmetric_difference_update"):
            it.heap[i] = it.opaque("set." + name)
            return it.opaque("set." + name)
        if name == "copy":
            return it.alloc("set", it.force(st))
        return dispatch_value(it, it.force(ref), name, args, kwargs, node)
    # lists
    if name == "append":
        if st.op not in ("list",):
            st = raw("list", (raw("spread", st),))
        it.heap[i] = raw("list", st.a[0] + (raw("one", args[0]),))
        return NONE
    if name == "extend":
        it.list_extend(ref, args[0])
        return NONE
    if name == "insert":
        if st.op != "list":
            st = raw("list", (raw("spread", st),))
        k = int_of(it.force(args[0]))
        if k == 0:
            it.heap[i] = raw("list", (raw("one", args[1]),) + st.a[0])
            return NONE
        it.heap[i] = it.opaque("list.insert")
        return NONE
    if name == "copy":
        return it.alloc("list", it.force(st))
    if name in ("pop", "remove", "clear", "sort"):
        if name == "clear":
            it.heap[i] = mk("list", ())
            return NONE
        if name == "sort":
            it.heap[i] = raw("sorted", it.force(st), sort_key(it, it.force(st), kwargs.get("key", NONE)), it.force(kwargs.get("reverse", FALSE)))
            return NONE
        if name == "pop" and not args and list_items(st):
            its = list_items(st)
            it.heap[i] = mklist(its[:-1])
            return its[-1]
        it.heap[i] = it.opaque("list." + name)
        return it.opaque("list." + name)
    if name == "reverse":
        it.heap[i] = reverse(it, it.force(st))
        return NONE
    return dispatch_value(it, it.force(ref), name, args, kwargs, node)


def dispatch_value(it, x, name, args, kwargs, node):
    c, _ = it.cls_of(x)
    if c is not None and it.p.find_method(c, name) is not None:
        return it.call_method(x, name, args, kwargs, node)
    return call_value_method(it, x, name, args, kwargs, node)


def ext_events(it, k, l):
    if l.op == "list":
        for s in l.a[0]:
            if s.op == "one":
                yield mk("app", k, s.a[0])
            elif s.op == "for":
                i = fresh("i", ("scal",))
                yield mk("for", s.a[0], close(i, raw("dict", raw("nil"), tuple(ext_events(it, k, open_(s.a[1], i))))))
            elif s.op == "spread":
                i = fresh("i", ("scal",))
                yield mk("for", length(s.a[0]), close(i, raw("dict", raw("nil"), (mk("app", k, index(s.a[0], i)),))))
    else:
        i = fresh("i", ("scal",))
        yield mk("for", length(l), close(i, raw("dict", raw("nil"), (mk("app", k, index(l, i)),))))


def list_extend(it, ref, v):
    st = it.heap[ref.a[0]]
    if st.op != "list":
        st = raw("list", (raw("spread", st),))
    it.heap[ref.a[0]] = mk("list", st.a[0] + (mk("spread", it.seq(v)),)) if False else raw("list", st.a[0] + _segs(it.seq(v)))


def _segs(l):
    return l.a[0] if l.op == "list" else (raw("spread", l),)
