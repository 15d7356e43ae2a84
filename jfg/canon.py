"""Canonical forms that rest on facts established elsewhere (the layout partition of P01, checked preconditions)."""

from . import terms as tm
from .terms import TRUE, T, ZERO, close, fresh, index, list_items, mk, open_, raw, subst


def member_of_made_layout(t):
    """A variable listed by StorageLayout.make(keys(d)) is a key of d, which is a mapping then."""
    if t.op == "eq" and tm.NONE in t.a[0] and any(x.op == "sym" for x in t.a[0]):
        return tm.FALSE
    if t.op == "in" and t.a[0].op == "index" and t.a[0].a[0].op == "keys":
        m = t.a[0].a[0].a[0]
        if m.op == "attr" and m.a[1] == "index_from_variable" and m.a[0].op == "api" and m.a[0].a[0] == "StorageLayout.make":
            src = next((x for x in tm.iter_terms(m.a[0].a[1:])), None)
            d = t.a[1]
            if src is d or (src is not None and src.op == "keys" and src.a[0] is d):
                return TRUE
    return None


def cover(ctx, run, layout, flag=None, same=()):
    """Writing every block of a layout is the concatenation of the written values.

    flag: known value of layout.local_flag, or None. same: further layouts over the same variable set."""

    def probe(lay, k):
        return list_items(ctx.run_spec(run, "cover_vars", {"layout": lay, "k": k}).value)

    def probe_types(lay, k):
        return list_items(ctx.run_spec(run, "cover_types", {"layout": lay, "k": k}).value)

    def f(t):
        if t.op == "fold":
            t = some_written(t)
        if t is None or t.op != "upd" or len(t.a[1]) != 1 or t.a[1][0].op != "for":
            return None
        n, lam = t.a[1][0].a
        s = fresh("k", ("scal",))
        body = open_(lam, s)
        if body.op != "updlist" or len(body.a[0]) != 1:
            return None
        st = body.a[0][0]
        if st.op != "st" or st.a[0] != "set" or st.a[1].op != "slx":
            return None
        start, size = st.a[1].a[:2]
        val = st.a[2]
        base = t.a[0]
        while base.op == "gathered":
            base = base.a[0]
        sh = list_items(mk("shape", base))
        for lay in (layout,) + tuple(same):
            v, cnt, own, dsel, ld, pd, dim = probe(lay, s)
            tv, tcnt, tdim, tstart, tn, tsel, tld, tpd = probe_types(lay, s)
            if sh != [probe(layout, s)[6]]:
                return None
            if n is cnt:
                v2, _, start2, dsel2, ld2, pd2, _ = probe(layout, s)
                target = list_items(ctx.run_spec(run, "cover_at", {"layout": layout, "v": v}).value)[0]
                if start is target and (size is dsel_for(lay, layout, dsel, ld, pd, flag) or size is dsel):
                    if lay is not layout:
                        val = replace1(val, v, v2)
                    return mk("concat", mk("list", (mk("for", probe(layout, s)[1], close(s, tm.mklist([val]))),)), ZERO)
                if lay is layout and start is target and dimension_only(size, ld, pd):
                    return raw("misfit", n, close(s, tm.mklist([start, size, val])))
                if lay is layout and elsewhere(start, target, v):
                    return raw("misfit", n, close(s, tm.mklist([start, size, val])))
            if lay is layout and n is tcnt and start is tstart and size in [tm.mul(tn, x) for x in sized(flag, tsel, tld, tpd)]:
                return mk("concat", mk("list", (mk("for", tcnt, close(s, tm.mklist([val]))),)), ZERO)
            if lay is layout and n is tcnt and start is tstart and any(size is tm.mul(tn, x) for x in (tsel, tld, tpd)):
                return raw("misfit", n, close(s, tm.mklist([start, size, val])))
        return None

    def elsewhere(start, target, v):
        """The start of the variable's block in another layout."""
        return start.op == "get" and target.op == "get" and start.a[1] is target.a[1] and start.a[0] is not target.a[0] and all(x.a[0].op == "attr" and x.a[0].a[1] == "index_from_variable" for x in (start, target))

    def dimension_only(size, ld, pd):
        """A block length made of the two dimensions of a variable, chosen by a flag, and nothing else."""
        if size in (ld, pd):
            return True
        return size.op == "select" and all(dimension_only(x, ld, pd) for x in size.a[1:3])

    def sized(flag, sel, ld, pd):
        out = [sel]
        if flag is False:
            out.append(pd)
        if flag is True:
            out.append(ld)
        return out

    def dsel_for(lay, layout, dsel, ld, pd, flag):
        if flag is False:
            return pd
        if flag is True:
            return ld
        return dsel

    def replace1(val, a, b):
        from .compare import replace_terms

        return replace_terms(val, {a: b})

    return f


def some_written(t):
    """A loop that writes a block or leaves it: blocks being disjoint, one not written is as it was before the loop."""
    n, init, lam = t.a
    acc, i = fresh("acc"), fresh("k", ("scal",))
    u = open_(open_(lam, acc), i)
    if u.op != "select" or acc not in u.a[1:]:
        return None
    w = u.a[2] if u.a[1] is acc else u.a[1]
    if w.op != "upd" or w.a[0] is not acc or len(w.a[1]) != 1:
        return None
    st = w.a[1][0]
    if st.op != "st" or st.a[0] != "set" or st.a[1].op != "slx" or acc in u.a[0].fs or acc in st.fs:
        return None
    kept = mk("slice", init, *st.a[1].a[:2])
    val = tm.select(u.a[0], kept, st.a[2]) if u.a[1] is acc else tm.select(u.a[0], st.a[2], kept)
    return raw("upd", init, (raw("for", n, close(i, raw("updlist", (raw("st", "set", st.a[1], val, *st.a[3:]),)))),))


def cover_stacks(ctx, run):
    """Writing the block of every stack, one after the other, is the concatenation of the blocks (rows of P06)."""

    def f(t):
        if t.op != "upd" or len(t.a[1]) != 1 or t.a[1][0].op != "for":
            return None
        n, lam = t.a[1][0].a
        s = fresh("k", ("scal",))
        body = open_(lam, s)
        if body.op != "updlist" or len(body.a[0]) != 1:
            return None
        st = body.a[0][0]
        if st.op != "st" or st.a[0] != "set" or st.a[1].op != "slx":
            return None
        count, dim, total = list_items(ctx.run_spec(run, "cover_stacks", {"graph": run.params()[0], "k": s}).value)
        start, size = st.a[1].a[:2]
        sh = list_items(mk("shape", t.a[0]))
        if n is not count or size is not dim or start is not tm.psum(s, close(s, dim)):
            return None
        if sh not in ([total], [tm.psum(n, close(s, dim))]):
            return None
        return mk("concat", mk("list", (mk("for", n, close(s, tm.mklist([st.a[2]]))),)), ZERO)

    return f


def leaf_shape(t):
    """Leaves without a shape attribute are Python scalars, whose shape is ()."""
    if t.op == "select" and t.a[0].op == "hasattr" and t.a[1].op == "shape" and t.a[1].a[0] is t.a[0].a[0] and list_items(t.a[2]) == []:
        return t.a[1]
    return None


def group_key(t):
    """A grouping key may be finer than (structure, leaf shapes) but not coarser: keep the two required parts."""
    if t.op == "list":
        items = list_items(t)
        if items and len(items) > 2:
            td = [x for x in items if x.op == "treedef"]
            sh = [x for x in items if x.op == "list" and x.a[0] and x.a[0][0].op == "for" and list_items(x.a[0][0].a[1].a[1]) and list_items(x.a[0][0].a[1].a[1])[0].op == "shape"]
            if len(td) == 1 and len(sh) == 1:
                return tm.mklist([td[0], sh[0]])
    return None
