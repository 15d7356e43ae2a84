"""Obligations about the g2o loader.

The loader is analysed once, with an unreachable pose limit. For each kind of line the tokens of a line are then replaced
by a tag and that many symbolic tokens, and what the line contributes to the factors and the initial poses is read off.
"""

from . import terms as tm
from .compare import find_foreign, replace_terms
from .ob import obligation
from .program import AnalysisError
from .terms import FALSE, TRUE, ZERO, T, fresh, int_of, list_items, mk

LINES = {"VERTEX_SE2": 5, "EDGE_SE2": 12, "VERTEX_SE3:QUAT": 9, "EDGE_SE3:QUAT": 31}
RULE = "what one line of each kind contributes (normal form with symbolic tokens) equals its specification"


class Loader:
    def __init__(self, c):
        self.c = c
        limit = fresh("limit", ("scal",))
        tm.UNBOUNDED.add(limit)
        f, _ = c.func("scripts._g2o_utils.parse_g2o")
        names = [a.arg for a in f.node.args.args]
        given = {names[1]: limit} if len(names) > 1 else {}
        self.run = c.analyse("scripts._g2o_utils.parse_g2o", given=given)
        self.value = self.run.value
        self.factors = mk("attr", self.value, "factors")
        self.poses = mk("attr", self.value, "initial_poses")
        self.tokens = {n: tuple(fresh(f"token{k}", ("str",)) for k in range(m)) for n, m in LINES.items()}

    def at(self, t, line, count=2):
        """A term about one line of the file, for a line of the given kind (or an unknown kind of that many tokens)."""
        toks = self.tokens.get(line) or tuple(fresh(f"token{k}", ("str",)) for k in range(count))
        items = tm.mklist([tm.const(line)] + list(toks[1:]))
        texts = set()
        for _ in range(4):
            m = {}
            for x in tm.walk(t):
                for p in parts_in(x):
                    n = most_splits(p)
                    m[p] = items if n is None or n >= len(toks) - 1 else tm.mklist(list_items(items)[:n] + [fresh("unsplit", ("str",))])
                    m[tm.length(p)] = tm.num(len(toks) if n is None else min(len(toks), n + 1))
                    for y in tm.walk(p):
                        if y.op == "mcall" and y.a[1] == "split":
                            texts |= {y.a[0], stripped(y.a[0])}
            if not m:
                break
            t = replace_terms(t, m)
        # the text of the line is not empty
        empty = tm.const("")
        m = {}
        for x in tm.walk(t):
            if x.op == "eq" and any(k is empty for k in tm.iter_terms(x.a)) and any(stripped(k) in texts for k in tm.iter_terms(x.a)):
                m[x] = FALSE
            elif x.op == "mcall" and x.a[1] == "strip" and stripped(x) in texts:
                m[x] = TRUE
            elif x.op == "mcall" and x.a[1] in ("startswith", "endswith") and text_of(x.a[0]) is not None and len(x.a[2]) == 1:
                k = text_of(x.a[2][0])
                ks = [k] if k is not None else [text_of(y) for y in list_items(x.a[2][0]) or [None]] if x.a[2][0].op == "list" else [None]
                if None not in ks:
                    m[x] = tm.const(getattr(text_of(x.a[0]), x.a[1])(tuple(ks)))
        return replace_terms(t, m) if m else t


def text_of(x):
    return x.a[1] if x.op == "const" and isinstance(x.a[1], str) else None


def most_splits(p):
    """How often a line is split at most, if limited."""
    for y in tm.walk(p):
        if y.op == "mcall" and y.a[1] == "split":
            n = y.a[2][1] if len(y.a[2]) > 1 else dict(y.a[3]).get("maxsplit")
            n = tm.int_of(n) if n is not None else None
            if n is not None and n >= 0:
                return n
    return None


def stripped(x):
    while x.op == "mcall" and x.a[1] == "strip":
        x = x.a[0]
    return x


def parts_in(x):
    """Token lists: what the line tags are looked up in."""
    if x.op in ("eq", "eq0", "in"):
        ks = list(tm.iter_terms(x.a))
        if any(tag(k) for k in ks):
            for k in ks:
                if k.op == "index" and k.a[1] is ZERO and k.a[0].op != "list":
                    yield k.a[0]
                elif k.op == "index" and k.a[1] is ZERO and list_items(k.a[0]) is None:
                    yield k.a[0]
    if x.op == "mcall" and x.a[1] == "startswith" and len(x.a[2]) == 1 and x.a[0].op == "index" and x.a[0].a[1] is ZERO:
        k = text_of(x.a[2][0])
        if k and any(n.startswith(k) for n in LINES) and (x.a[0].a[0].op != "list" or list_items(x.a[0].a[0]) is None):
            yield x.a[0].a[0]


def tag(k):
    if k.op == "const" and isinstance(k.a[1], str):
        return k.a[1] in LINES
    if k.op == "list":
        return any(tag(x) for s in k.a[0] for x in tm.iter_terms(s.a))
    return False


def loader(c):
    if "g2o" not in c.__dict__:
        c.g2o = Loader(c)
    return c.g2o


def contribution(L, t, line, count=2):
    """Segments one line adds to a list, as a list of items (None: not understood)."""
    out = []
    if t.op != "list":
        return None
    for s in t.a[0]:
        if s.op == "for":
            i = fresh("line", ("scal",))
            body = L.at(tm.open_(s.a[1], i), line, count)
            items = list_items(body) if body.op == "list" else None
            if items is None:
                return None
            out.extend(items)
        elif s.op != "one":
            return None
    return out


def events(L, t, line):
    """(key, value) pairs one line adds to a dictionary."""
    if t.op != "dict":
        return None
    out = []
    for e in t.a[1]:
        if e.op == "for":
            i = fresh("line", ("scal",))
            body = L.at(tm.open_(e.a[1], i), line)
            r = plain_events(body)
            if r is None:
                return None
            out.extend(r)
        else:
            return None
    return out


def plain_events(d):
    if d.op != "dict":
        return None
    out = []
    for e in d.a[1]:
        if e.op == "set":
            out.append((e.a[0], e.a[1]))
        elif e.op == "if" and e.a[0] in (TRUE, FALSE):
            r = plain_events(e.a[1] if e.a[0] is TRUE else e.a[2])
            if r is None:
                return None
            out.extend(r)
        else:
            return None
    return out


def is_new(t, name):
    return t.op == "new" and t.a[0].op == "cls" and t.a[0].a[0].endswith("." + name)


@obligation("g2o.vertices", "P25", RULE)
def g2o_vertices(c):
    L = loader(c)
    where = c.where(L.run.f)
    for line, var, spec in (("VERTEX_SE2", "SE2Variable", "g2o_pose_2d"), ("VERTEX_SE3:QUAT", "SE3Variable", "g2o_pose_3d")):
        name = f"scripts._g2o_utils.parse_g2o ({line})"
        ev = events(L, L.poses, line)
        if ev is None:
            c.undecided(line, name, where, "initial poses not understood")
            continue
        if len(ev) != 1:
            c.violated(line + ":count", name, where, f"a vertex line adds {len(ev)} initial poses")
            continue
        k, v = ev[0]
        if k.op == "new":
            if is_new(k, var):
                c.holds(line + ":variable", name, where, f"a new {var}")
            else:
                c.violated(line + ":variable", name, where, f"the variable is not a new {var}", k)
        else:
            c.undecided(line + ":variable", name, where, "variable not understood")
        want = c.run_spec(L.run, spec, {"p": tm.mklist([tm.const(line)] + list(L.tokens[line][1:]))}).value
        c.compare(L.run, line + ":pose", v, [want], False, name)


def entry(m, i, j, n):
    """Entry (i, j) of a matrix term of fixed size, or None."""
    if m.op in ("zeros", "empty"):
        return ZERO
    if m.op == "ones":
        return tm.ONE
    if m.op == "transpose" and len([x for x in tm.iter_terms(m.a)]) == 1:
        return entry(m.a[0], j, i, n)
    if m.op == "eye":
        return tm.ONE if i == j else ZERO
    if m.op == "upd":
        r = entry(m.a[0], i, j, n)
        for s in m.a[1]:
            if s.op != "st" or s.a[0] not in ("set", "add"):
                return None
            hit = cell(s.a[1], i, j, n)
            if hit is None:
                return None
            if hit is False:
                continue
            v = s.a[2]
            if hit is not True:
                items = list_items(v) if v.op in ("list",) else None
                v = items[hit] if items is not None and hit < len(items) else tm.index(v, tm.num(hit))
            if s.a[0] == "set":
                r = v
            elif r is not None:
                r = tm.add(r, v)
        return r
    if m.op in ("triu_part", "tril_part"):
        keep = i <= j if m.op == "triu_part" else i >= j
        return entry(m.a[0], i, j, n) if keep else ZERO
    if m.op == "diag" and m.a[0].op == "diag":
        return entry(m.a[0].a[0], i, i, n) if i == j else ZERO
    if m.op == "diagm":
        return entry(m.a[0], i, i, n) if i == j else ZERO
    if m.op == "poly":
        tot = ZERO
        for mono, k in m.a[0]:
            term = tm.num(k)
            for at, e in mono:
                if e.denominator != 1 or e < 0:
                    return None
                x = entry(at, i, j, n)
                if x is None:
                    return None
                for _ in range(int(e)):
                    term = tm.mul(term, x)
            tot = tm.add(tot, term)
        return tot
    if m.op == "list":
        rows = list_items(m)
        if rows is not None and i < len(rows):
            row = list_items(rows[i]) if rows[i].op == "list" else None
            if row is not None and j < len(row):
                return row[j]
    if m.op in ("arr", "stack") and isinstance(m.a[0], T):
        return entry(m.a[0], i, j, n)
    return None


def cell(ix, i, j, n):
    """Position of cell (i, j) in what an index selects: number, True (the cell itself), False (not selected), None (unknown)."""
    if ix.op == "triu":
        if int_of(ix.a[0]) != n:
            return None
        return sum(n - r for r in range(i)) + (j - i) if i <= j else False
    if ix.op == "tril":
        if int_of(ix.a[0]) != n:
            return None
        return sum(r + 1 for r in range(i)) + j if i >= j else False
    its = list_items(ix) if ix.op == "list" else None
    if its is not None and len(its) == 2:
        a, b = int_of(its[0]), int_of(its[1])
        if a is not None and b is not None:
            return True if (a, b) == (i, j) else False
        # (columns, rows) of the upper triangle
        if its[0].op == "index" and its[1].op == "index" and its[0].a[0] is its[1].a[0] and its[0].a[0].op in ("triu", "tril"):
            u, v = int_of(its[0].a[1]), int_of(its[1].a[1])
            if (u, v) == (0, 1):
                return cell(its[0].a[0], i, j, n)
            if (u, v) == (1, 0):
                return cell(its[0].a[0], j, i, n)
    return None


@obligation("g2o.edges", "P25", RULE)
def g2o_edges(c):
    L = loader(c)
    where = c.where(L.run.f)
    for line, spec, n, first in (("EDGE_SE2", "g2o_between_2d", 3, 6), ("EDGE_SE3:QUAT", "g2o_between_3d", 6, 10)):
        name = f"scripts._g2o_utils.parse_g2o ({line})"
        toks = L.tokens[line]
        p = tm.mklist([tm.const(line)] + list(toks[1:]))
        items = contribution(L, L.factors, line)
        if items is None:
            cond = skipping(L, L.factors, line)
            if cond is not None:
                c.violated(line + ":count", name, where, "an edge line adds a factor only depending on the numbers it holds", cond)
            else:
                c.undecided(line, name, where, "factors not understood")
            continue
        if len(items) != 1:
            c.violated(line + ":count", name, where, f"an edge line adds {len(items)} factors")
            continue
        f = items[0]
        k, _ = L.run.it.cls_of(f)
        if k is None:
            c.undecided(line + ":factor", name, where, "factor not understood")
            continue
        if k.name != "BetweenFactor":
            c.violated(line + ":factor", name, where, f"an edge line adds a {k.name}")
            continue
        endpoints(c, L, line, name, f, p)
        want = c.run_spec(L.run, spec, {"p": p}).value
        c.compare(L.run, line + ":between", mk("attr", f, "T_a_b"), [want], False, name)
        information(c, L, line, name, f, p, n, first)


def skipping(L, t, line):
    """A test of nothing but the line's own tokens that decides whether the line adds anything."""
    toks = set(L.tokens[line])
    for s in t.a[0] if t.op == "list" else ():
        if s.op != "for":
            continue
        body = L.at(tm.open_(s.a[1], fresh("line", ("scal",))), line)
        for x in body.a[0] if body.op == "list" else ():
            if x.op != "if" or [] not in [list(k.a[0]) for k in x.a[1:] if k.op == "list"]:
                continue
            syms = {y for y in tm.walk(x.a[0]) if y.op == "sym"}
            if syms and syms <= toks and not any(y.op in ("opaque", "mcall", "bv", "hc") for y in tm.walk(x.a[0])):
                return x.a[0]
    return None


def endpoints(c, L, line, name, f, p):
    where = c.where(L.run.f)
    vs = mk("attr", f, "variables")
    items = list_items(vs) if vs.op == "list" else None
    if items is None or len(items) != 2 or any(x.op not in ("index", "get") for x in items):
        return c.undecided(line + ":variables", name, where, "variables not understood")
    wants = [c.run_spec(L.run, "g2o_end", {"p": p, "k": tm.num(k)}).value for k in (1, 2)]
    keys = [x.a[1] for x in items]
    if items[0].a[0] is not items[1].a[0]:
        return c.undecided(line + ":variables", name, where, "the two ends come from different collections")
    for k, (got, want) in enumerate(zip(keys, wants)):
        c.compare(L.run, f"{line}:variable{k}", got, [want], False, name)


def information(c, L, line, name, f, p, n, first):
    where = c.where(L.run.f)
    noise = mk("attr", f, "noise_model")
    k, _ = L.run.it.cls_of(noise)
    part = line + ":information"
    if k is None:
        return c.undecided(part, name, where, "noise model not understood")
    if k.name != "Gaussian":
        return c.violated(part, name, where, f"an edge gets {k.name} noise, which drops the off-diagonal information", noise)
    s = mk("attr", noise, "sqrt_precision_matrix")
    loc = c.locate(L.run, s)
    if s.op == "cholesky":
        return c.violated(part, name, loc, "the lower factor L satisfies L Lt = information, so S must be its transpose", s)
    if not (s.op == "transpose" and s.a[0].op == "cholesky"):
        return c.undecided(part, name, loc, "square root not understood")
    m = s.a[0].a[0]
    pos = 0
    at = {}
    for i in range(n):
        for j in range(i, n):
            at[i, j] = at[j, i] = pos
            pos += 1
    bad = []
    for (i, j), q in sorted(at.items()):
        got = entry(m, i, j, n)
        if got is None or find_foreign_entry(got):
            return c.undecided(part, name, loc, "information matrix not understood")
        want = c.run_spec(L.run, "g2o_number", {"p": p, "k": tm.num(first + q)}).value
        if got is not want:
            bad.append((i, j, got, want))
    if bad and all(i < j and got is ZERO for i, j, got, _ in bad):
        # numpy's factorisation reads the lower triangle only
        c.undecided(part, name, loc, "the upper triangle is left out")
    elif bad:
        i, j, got, want = bad[0]
        c.violated(part, name, loc, f"entry ({i}, {j}) of the information matrix (and {len(bad) - 1} more)", got, want)
    else:
        c.holds(part, name, loc, f"all {n * n} entries of the information matrix match, S = cholesky(.)^T")


def find_foreign_entry(t):
    return any(x.op in ("opaque", "call", "mcall") for x in tm.walk(t))


@obligation("g2o.anchor", "P25", RULE)
def g2o_anchor(c):
    L = loader(c)
    name = "scripts._g2o_utils.parse_g2o"
    where = c.where(L.run.f)
    fs = L.factors
    if fs.op != "list":
        return c.undecided("count", name, where, "factors not understood")
    ones = [s.a[0] for s in fs.a[0] if s.op == "one"]
    if any(s.op not in ("one", "for") for s in fs.a[0]):
        return c.undecided("count", name, where, "factors not understood")
    if len(ones) != 1:
        return c.violated("count", name, where, f"{len(ones)} factors are added outside the lines of the file, instead of one prior")
    f = ones[0]
    k, _ = L.run.it.cls_of(f)
    if k is None or k.name != "PriorFactor":
        return c.violated("prior", name, where, "the factor added outside the lines of the file is not a prior", f) if k else c.undecided("prior", name, where, "not understood")
    vs = mk("attr", f, "variables")
    items = list_items(vs) if vs.op == "list" else None
    if items is None or len(items) != 1:
        return c.undecided("variable", name, where, "variable of the prior not understood")
    v = items[0]
    mu = mk("attr", f, "mu")
    loc = c.locate(L.run, f)
    if v.op == "select":
        others = [x for x in choices(v) if x.op == "index" and int_of(x.a[1]) not in (None, 0)]
        if others:
            c.violated("variable", name, loc, "the prior may be on another pose than the first", v)
        else:
            c.undecided("variable", name, loc, "variable of the prior not understood")
    elif v.op == "index" and v.a[0].op == "keys" and v.a[0].a[0] is L.poses and v.a[1] is ZERO:
        c.holds("variable", name, loc, "the first pose")
    elif v.op == "index" and v.a[0].op == "list":
        ix = int_of(v.a[1])
        if ix is None:
            c.undecided("variable", name, loc, "variable of the prior not understood")
        elif ix != 0:
            c.violated("variable", name, loc, f"the prior is on pose {ix}, not on the first", v)
        else:
            ok = True
            for line, var in (("VERTEX_SE2", "SE2Variable"), ("VERTEX_SE3:QUAT", "SE3Variable")):
                got = contribution(L, v.a[0], line)
                if got is None:
                    c.undecided("list:" + line, name, loc, "list of poses not understood")
                elif len(got) != 1 or (got[0].op == "new" and not is_new(got[0], var)):
                    c.violated("list:" + line, name, loc, "a vertex line does not add exactly its variable to the list of poses")
                else:
                    c.holds("list:" + line, name, loc, "adds its variable")
            for line in ("EDGE_SE2", "EDGE_SE3:QUAT"):
                got = contribution(L, v.a[0], line)
                if got:
                    c.violated("list:" + line, name, loc, "an edge line adds to the list of poses")
            c.holds("variable", name, loc, "the first pose")
    else:
        c.undecided("variable", name, loc, "variable of the prior not understood")
    noise = mk("attr", f, "noise_model")
    k, _ = L.run.it.cls_of(noise)
    w = mk("attr", noise, {"DiagonalGaussian": "sqrt_precision_diagonal", "Gaussian": "sqrt_precision_matrix"}.get(k.name, "?")) if k is not None and k.name in ("DiagonalGaussian", "Gaussian") else None
    if w is not None and (w is ZERO or w.op == "zeros" or w.op == "poly" and all(any(at.op == "zeros" for at, _ in m) for m, _ in w.a[0])):
        c.violated("weight", name, loc, "the prior has no weight", w)
    if mu.op == "get" and mu.a[0] is L.poses and mu.a[1] is v:
        c.holds("mu", name, loc, "the initial value of that pose")
    elif mu.op == "get" and mu.a[0] is L.poses and mu.a[1].op == "index" and v.op == "index" and mu.a[1].a[0] is v.a[0]:
        c.violated("mu", name, loc, "the prior's value is the initial value of another pose", mu)
    elif mu.op in ("se2", "se3", "gident", "ginv", "gmul", "gexp"):
        c.violated("mu", name, loc, "the prior's value is not the initial value of the pose", mu)
    else:
        c.undecided("mu", name, loc, "value of the prior not understood")


def choices(t):
    return [y for x in t.a[1:] for y in choices(x)] if t.op == "select" else [t]


def open_anyway(L, t, k, count):
    """A test that is open for the line the tag resembles as well, so it is not what rejects the tag."""
    known = k[: -len("_MORE")]
    return LINES.get(known) == count and L.at(t, known) not in (TRUE, FALSE)


@obligation("g2o.unknown", "P25", "a line whose tag is none of the known ones reaches a rejection, whatever its length")
def g2o_unknown(c):
    L = loader(c)
    name = "scripts._g2o_utils.parse_g2o"
    where = c.where(L.run.f)
    tests = [(pc, loc) for pc, _what, loc in L.run.raises]
    tests += [(tm.and_(pc, tm.not_(cond)), loc) for pc, cond, loc, _q in L.run.asserts]
    # unknown tags: one that resembles none, each known one made longer, and every other text the rejections mention
    tags = ["SOMETHING_ELSE"] + [n + "_MORE" for n in sorted(LINES)]
    tags += sorted({text_of(x) for t, _ in tests for x in tm.walk(t) if text_of(x)} - set(LINES) - {" "})
    for count in sorted(set(LINES.values()) | {2}):
        found = unsure = False
        missed = None
        for k in tags:
            rejected = False
            for t, loc in tests:
                r = L.at(t, k, count)
                if r is TRUE:
                    rejected = True
                    where = f"{loc[0]}:{loc[1]}"
                elif r is not FALSE and not open_anyway(L, t, k, count):
                    unsure = True
            if k == tags[0]:
                found = rejected
                if not found:
                    break
            elif not rejected and not unsure:
                missed = missed or k
        if found and missed:
            c.violated(str(count), name, where, f"a line of {count} tokens with the unknown tag {missed} is not rejected")
        elif found:
            c.holds(str(count), name, where, "rejected")
        elif contribution(L, L.factors, "SOMETHING_ELSE", count):
            c.violated(str(count), name, where, f"a line of {count} tokens with an unknown tag adds a factor")
        elif unsure:
            c.undecided(str(count), name, where, "rejection not understood")
        else:
            c.violated(str(count), name, where, f"no rejection is reached for a line of {count} tokens with an unknown tag")


@obligation("g2o.ids", "P25", "the vertex number named by an edge is the number the vertex line gives")
def g2o_ids(c):
    L = loader(c)
    name = "scripts._g2o_utils.parse_g2o"
    for line in ("VERTEX_SE2", "VERTEX_SE3:QUAT"):
        number = L.tokens[line][1]
        where = c.where(L.run.f)
        tests = []
        for pc, cond, loc, _q in L.run.asserts:
            if L.at(pc, line) is FALSE:
                continue
            r = L.at(tm.and_(pc, cond), line)
            if number in r.fs:
                tests.append((r, loc))
        for pc, _what, loc in L.run.raises:
            r = L.at(tm.not_(pc), line)
            if number in r.fs:
                tests.append((r, loc))
        ev = events(L, L.poses, line)
        if tests:
            r, loc = tests[0]
            where = f"{loc[0]}:{loc[1]}"
            if len(tests) == 1 and r.op in ("ge0", "gt0"):
                c.violated(line, name, where, "the number of a vertex is only bounded, not tied to its position", r)
            else:
                c.holds(line, name, where, "checked against its position")
        elif any(number in x.fs for x in tm.walk(L.value) if x.op == "sym") or uses(L, number, line):
            c.undecided(line, name, where, "use of the vertex number not understood")
        elif ev is None:
            c.undecided(line, name, where, "initial poses not understood")
        else:
            c.violated(line, name, where, "the vertex number is neither checked nor used, so edges may refer to other vertices than they name")


def uses(L, number, line):
    """The number of a vertex occurs in something the edges look their vertices up in."""
    for t in (L.factors, L.poses):
        for x in tm.walk(t):
            if x.op == "for":
                body = L.at(tm.open_(x.a[1], fresh("line", ("scal",))), line)
                if number in body.fs:
                    return True
    return False


@obligation("g2o.lines", "P25", "every line of the file, and every word of a line, is taken once and in order")
def g2o_lines(c):
    L = loader(c)
    name = "scripts._g2o_utils.parse_g2o"
    where = c.where(L.run.f)
    seen = 0
    done = set()
    # the token lists line tags are looked up in; elsewhere taking part of the words is the point
    words = {p.a[0][0] for x in tm.walk(L.factors) for p in parts_in(x) if p.op == "list" and len(p.a[0]) == 1}
    for x in list(tm.walk(L.factors)) + list(tm.walk(L.poses)):
        if x.op != "for" or x in done:
            continue
        done.add(x)
        i = fresh("at", ("scal",))
        body = tm.open_(x.a[1], i)
        for y in tm.walk(body):
            if y.op != "index" or i not in y.a[1].fs or i in y.a[0].fs:
                continue
            src, at = y.a
            while src.op == "slice":
                src, at = src.a[0], tm.add(at, src.a[1])
            if src.op == "sorted" and text_list(src.a[0]):
                seen += 1
                c.violated("order", name, c.locate(L.run, src), "the lines of the file are not taken in order")
            what = text_list(src)
            if not what:
                continue
            seen += 1
            off = tm.sub(at, i)
            n = tm.sub(x.a[0], tm.length(src))
            if what[0] == "w" and x not in words:
                continue
            if off is not ZERO:
                c.violated("order", name, c.locate(L.run, src), f"the {what} are not taken in order from the first", at)
            elif n is not ZERO:
                c.violated("all", name, c.locate(L.run, src), f"not all the {what} are taken", x.a[0], tm.length(src))
    if not seen:
        c.undecided("", name, where, "lines of the file not understood")
    elif not any(r.ob is c.ob and r.status == "violated" for r in c.results):
        c.holds("", name, where, f"{seen} uses of a line or word by its own position")


def text_list(t):
    """What a term lists: the lines of the file or the words of a line."""
    if t.op == "list" and len(t.a[0]) == 1 and t.a[0][0].op == "for":
        i = fresh("at", ("scal",))
        body = list_items(tm.open_(t.a[0][0].a[1], i))
        if body is None or len(body) != 1:
            return None
        b = stripped(body[0])
        return text_list(b.a[0]) if b.op == "index" and b.a[1] is i else None
    if t.op == "mcall" and t.a[1] in ("readlines", "splitlines"):
        return "lines of the file"
    if t.op == "mcall" and t.a[1] == "split":
        return "words of a line" if any(y.op == "mcall" and y.a[1] in ("readlines", "splitlines") for y in tm.walk(t.a[0])) else "lines of the file"
    if t.op == "call" and "open" in str(t.a[0]):
        return "lines of the file"
    return None
