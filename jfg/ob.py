"""Obligations: running the analyser on a target, comparing with a specification, and recording the outcome."""

import signal
import threading
import traceback
from contextlib import contextmanager

from . import terms as tm
from .compare import Comparer, assume, find_foreign, orient, replace_terms, vocabulary
from .interp import Interp
from .program import AnalysisError, Program
from .terms import FALSE, TRUE, T, fresh, raw

HOLDS, VIOLATED, UNDECIDED = "holds", "violated", "undecided"

# Public operations that stay atoms unless they are the function under analysis.
KEEP = {
    "SparseCooMatrix.__matmul__",
    "VariableBase.flatten",
    "VariableBase.unflatten",
    "VariableBase.get_parameter_dim",
    "VariableBase.canonical_instance",
    "StorageLayout.make",
    "VariableAssignments.update_storage_layout",
    "VariableAssignments.manifold_retract",
    "StackedFactorGraph.compute_whitened_residual_vector",
    "StackedFactorGraph.compute_whitened_residual_jacobian",
    "FactorBase.build_variable_value_tuple",
    "SparseCovariance.__getitem__",
}

REGISTRY = []


class Obligation:
    def __init__(self, name, props, rule, fn):
        self.name, self.props, self.rule, self.fn = name, props, rule, fn


def obligation(name, props, rule):
    def deco(fn):
        REGISTRY.append(Obligation(name, tuple(props.split()), rule, fn))
        return fn

    return deco


class Result:
    def __init__(self, ob, part, target, where, status, detail="", got="", want=""):
        self.ob, self.part, self.target, self.where = ob, part, target, where
        self.status, self.detail, self.got, self.want = status, detail, got, want

    @property
    def key(self):
        return self.ob.name + (":" + self.part if self.part else "")

    def as_dict(self):
        d = {"obligation": self.key, "rule": self.ob.rule, "construct": self.target, "where": self.where, "status": self.status}
        if self.detail:
            d["detail"] = self.detail
        if self.got:
            d["actual"] = self.got
        if self.want:
            d["expected"] = self.want
        return d


class Run:
    """One analysed function: its result term and everything recorded on the way."""

    def __init__(self, it, f, args, value):
        self.it, self.f, self.args, self.value = it, f, args, value
        self.asserts, self.raises, self.effects = list(it.asserts), list(it.raises), list(it.effects)
        self.iterated = list(it.iterated)
        self.branches = list(it.branches)
        self.loc = dict(it.loc)
        self.visited = dict(it.visited)
        self.memo_calls = list(it.memo_calls)
        self.vmap_size = dict(it.vmap_size)
        self.fits = list(it.fits)
        self.leaf_reads = list(it.leaf_reads)

    def params(self):
        return list(self.args.values())

    def accepts(self):
        """Conditions (universally closed over loop indices) under which nothing is raised, one per rejecting test."""
        out = []
        for pc, c, l, _q in self.asserts:
            for cc in quantified(c):
                out.append((alpha(has_elements(tm.or_(tm.not_(pc), cc)), self.params()), l))
        for pc, _w, l in self.raises:
            out.append((alpha(tm.not_(pc), self.params()), l))
        return out


def has_elements(a):
    """What is said of every element of a sequence need not mention that the sequence may be empty."""
    if a.op != "or":
        return a

    def empty(x):
        y = x.a[0] if x.op == "not" else x
        if y.op != ("gt0" if x.op == "not" else "eq0") or y.a[0].op != "len":
            return False
        return any(z.op == "index" and z.a[0] is y.a[0].a[0] and z.a[1].op == "sym" for o in a.a[0] if o is not x for z in tm.walk(o))

    return tm.or_(*(x for x in a.a[0] if not empty(x)))


def refuses(a, params):
    """Names the input that an acceptance condition restricts by itself, if that shuts out valid input."""
    flag = a.a[0] if a.op == "not" else a
    if any(flag is p for p in params):
        return "flag"
    if flag.op not in ("gt0", "ge0", "eq0"):
        return None
    p = tm.to_poly(flag.a[0])
    atoms = {x for m in p for x, _ in m}
    if len(atoms) != 1 or any(k != 1 for m in p for _, k in m):
        return None
    x = next(iter(atoms))
    if not is_count(x, params):
        return None
    coef, const = next(c for m, c in p.items() if m), p.get(frozenset(), 0)
    # an empty collection may be refused, nothing else
    def accepted(n):
        v = coef * n + const
        v = v > 0 if flag.op == "gt0" else v >= 0 if flag.op == "ge0" else v == 0
        return v == (flag is a)

    tried = {1, 2, 3, 10**6} | ({int(-const / coef) + d for d in (-1, 0, 1)})
    return "count" if any(n >= 1 and not accepted(n) for n in tried) else None


def is_count(x, params):
    """The length of a collection that is given, or a number of things in it."""
    if x.op == "len":
        y = x.a[0]
    elif x.op == "attr" and x.a[1] in ("residual_dim", "num_factors", "dim", "count"):
        y = x.a[0]
    else:
        return False
    while y.op in ("attr", "keys", "values", "items"):
        y = y.a[0]
    return any(y is p for p in params)


LOOP = [fresh(f"each{k}", ("scal",)) for k in range(12)]


def quantified(c):
    """Conjuncts of an assertion; all(... for ...) is opened."""
    if c.op == "and":
        out = []
        for x in c.a[0]:
            out.extend(quantified(x))
        return out
    if c.op == "all" and isinstance(c.a[0], T) and c.a[0].op == "list":
        return [x for s in c.a[0].a[0] for x in seg_conds(s)]
    return [c]


def seg_conds(s):
    if s.op == "one":
        return quantified(s.a[0])
    if s.op == "for":
        i = fresh("i", ("scal",))
        body = tm.open_(s.a[1], i)
        return [x for y in (body.a[0] if body.op == "list" else ()) for x in seg_conds(y)]
    if s.op == "if":
        out = []
        for k, c in ((1, tm.not_(s.a[0])), (2, s.a[0])):
            if s.a[k].op == "list":
                out.extend(tm.or_(c, x) for y in s.a[k].a[0] for x in seg_conds(y))
        return out
    return [raw("opaque", "assertion", 0)]


def alpha(t, params):
    """Rename symbols introduced during the analysis (loop indices) canonically."""
    keep = set()
    for p in params:
        keep |= {x for x in p.fs if x.op == "sym"}
    m = {}
    for x in ordered(t):
        if x.op == "sym" and x not in keep and x not in m and x not in LOOP and len(m) < len(LOOP):
            m[x] = LOOP[len(m)]
    return tm.subst(t, m) if m else t


def ordered(t, seen=None):
    """Subterms in a deterministic structural order."""
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in tm.iter_terms(t.a):
        yield from ordered(x, seen)


def local_value(t):
    """Part of a value made here, as opposed to part of something handed in or kept at module level."""
    while t.op in ("attr", "index", "get", "getitem", "slice") and isinstance(t.a[0], T):
        t = t.a[0]
    return t.op in ("list", "dict", "arr", "new", "replace", "select", "upd", "tree_map", "api", "concat", "stack", "fold", "opaque")


class Ctx:
    def __init__(self, root, spec_source, overlay=None):
        self.program = Program(root, overlay=overlay)
        self.spec = self.program.add_source("jfgspec", spec_source)
        self.results = []
        self.ob = None
        self.visited = set()
        self.calls = 0
        self.terms = 0
        self.undecided_notes = []

    # -- anchors

    def cls(self, dotted):
        return self.program.public_class(dotted)

    def func(self, dotted):
        """Resolve a public function or Class.method (through the MRO)."""
        p = self.program
        r = p.resolve_dotted(dotted)
        if r and r[0] == "func":
            return p.funcs[r[1]], None
        head, _, name = dotted.rpartition(".")
        c = p.public_class(head)
        f = p.find_method(c, name)
        if f is None:
            raise AnalysisError(f"anchor {dotted} not found")
        return f, c

    def where(self, f):
        return f"{f.module.rel}:{f.node.lineno}"

    # -- analysis

    def interp(self, keep=(), drop=(), target=None):
        k = (KEEP | set(keep)) - set(drop)
        if target is not None:
            k.discard((target.cls.name + "." if target.cls else "") + target.name)
        it = Interp(self.program, k)
        return it

    def analyse(self, dotted, spec=None, keep=(), drop=(), given=None, prepare=None):
        """Analyse a public function; parameter types come from the specification's signature when there is one."""
        f, c = self.func(dotted)
        it = self.interp(keep, drop, f)
        args = self.arguments(it, f, c, spec, given or {})
        if prepare:
            prepare(it, args)
        v = it.run_function(f, args)
        run = Run(it, f, args, v)
        self.note(run)
        return run

    def note(self, run):
        for q in run.visited:
            m = self.program.funcs.get(q)
            if m is None or m.module is not self.spec:
                self.visited.add(q)
        self.calls += run.it.calls

    def spec_func(self, name):
        return self.program.funcs["jfgspec." + name]

    def arguments(self, it, f, c, spec, given):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        own = it.param_types(f)
        sty = []
        sdef = set()
        if spec is not None:
            s = self.spec_func(spec)
            sa = s.node.args
            st = it.param_types(s)
            sty = [st.get(x.arg) for x in sa.posonlyargs + sa.args + sa.kwonlyargs]
        out = {}
        n = 0
        nd = len(a.defaults)
        pos = a.posonlyargs + a.args
        for k, x in enumerate(pos + a.kwonlyargs):
            nm = x.arg
            ty = own.get(nm)
            if k == 0 and c is not None and f.kind in ("method", "property"):
                ty = ("cls", c.qual, True) if not getattr(it, "open_self", False) else ("cls", c.qual, False)
                if not self.program.is_concrete(c):
                    ty = ("cls", c.qual, False)
            elif k == 0 and c is not None and f.kind == "class":
                if self.program.is_concrete(c) and nm not in given:
                    out[nm] = raw("cls", c.qual)
                    continue
                ty = ("type", ("cls", c.qual, False))
            elif k < len(sty) and sty[k] is not None:
                ty = sty[k]
            if nm in given:
                out[nm] = given[nm]
                continue
            if spec is not None and k >= len(sty):
                d = None
                if k < len(pos):
                    j = k - (len(pos) - nd)
                    d = a.defaults[j] if j >= 0 else None
                else:
                    d = a.kw_defaults[k - len(pos)]
                if d is None:
                    raise AnalysisError(f"{f.qual}: unexpected required parameter {nm}")
                from .interp import Frame

                out[nm] = it.eval(d, Frame(f.module))
                continue
            out[nm] = fresh(nm, ty)
        if a.vararg:
            ty = None
            if spec is not None and s.node.args.vararg:
                ty = it.ann_type(s.module, s.node.args.vararg.annotation)
            else:
                ty = it.ann_type(f.module, a.vararg.annotation)
            out[a.vararg.arg] = given.get(a.vararg.arg) or fresh(a.vararg.arg, ("list", ty))
        return out

    def run_spec(self, run, name, extra=None):
        """Evaluate a specification function on the parameters of an analysed function."""
        it = run.it
        s = self.spec_func(name)
        a = s.node.args
        snames = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        vals = []
        fa = run.f.node.args
        for x in fa.posonlyargs + fa.args + fa.kwonlyargs:
            vals.append(run.args[x.arg])
        env = {}
        for k, nm in enumerate(snames):
            if extra and nm in extra:
                env[nm] = extra[nm]
            elif k < len(vals):
                env[nm] = vals[k]
            else:
                raise AnalysisError(f"{run.f.qual}: parameter {nm} is gone")
        if a.vararg:
            env[a.vararg.arg] = run.args[fa.vararg.arg] if fa.vararg else None
            if env[a.vararg.arg] is None:
                raise AnalysisError(f"{run.f.qual}: variadic parameter is gone")
        it.asserts, it.raises, it.effects, it.iterated, it.branches, it.vmap_size, it.fits, it.leaf_reads = [], [], [], [], [], {}, [], []
        v = it.run_function(s, env)
        return Run(it, s, env, v)

    # -- outcomes

    def record(self, part, target, where, status, detail="", got=None, want=None):
        g = tm.pretty(got, 14) if isinstance(got, T) else (got or "")
        w = tm.pretty(want, 14) if isinstance(want, T) else (want or "")
        r = Result(self.ob, part, target, where, status, detail, g[:1500], w[:1500])
        self.results.append(r)
        return r

    def holds(self, part, target, where, detail=""):
        return self.record(part, target, where, HOLDS, detail)

    def violated(self, part, target, where, detail, got=None, want=None):
        return self.record(part, target, where, VIOLATED, detail, got, want)

    def undecided(self, part, target, where, detail):
        return self.record(part, target, where, UNDECIDED, detail)

    def locate(self, run, t):
        """Source position of the construct that produced a term."""
        seen = set()
        todo = [t]
        while todo:
            nxt = []
            for x in todo:
                if x in seen:
                    continue
                seen.add(x)
                l = run.loc.get(x)
                if l is not None and not l[0].startswith("<"):
                    return f"{l[0]}:{l[1]}"
                nxt.extend(tm.iter_terms(x.a))
            todo = nxt
            if len(seen) > 400:
                break
        return self.where(run.f)

    def compare(self, run, part, got, wants, strict=False, what=None, facts=None, rewrites=()):
        """Compare an actual term with alternatives; records and returns the status."""
        name = what or run.f.qual
        if facts:
            got = replace_terms(got, facts)
            wants = [replace_terms(w, facts) for w in wants]
        for rw in rewrites:
            got = tm.rewrite(got, rw)
            wants = [tm.rewrite(w, rw) for w in wants]
        # inputs that a plain flag rejects have no value
        for a, _ in run.accepts():
            flag = a.a[0] if a.op == "not" else a
            if flag.op == "attr" and any(x is flag for x in tm.walk(got)):
                got = suppose(got, flag, flag is a)
                wants = [suppose(w, flag, flag is a) for w in wants]
        first = None
        budget = unsettled = False
        for w in wants:
            cmp = Comparer(strict=strict)
            d = cmp.compare(got, w)
            if d is None and cmp.unsettled:
                unsettled = True
                continue
            if d is None:
                self.terms += sum(1 for _ in tm.walk(got))
                self.holds(part, name, self.where(run.f))
                return HOLDS
            budget = budget or cmp.exhausted
            if first is None or len(d.path) > len(first.path):
                first = d
        if unsettled:
            self.undecided(part, name, self.where(run.f), "what happens when there is nothing to work on")
            return UNDECIDED
        foreign = find_foreign(got, vocabulary(wants))
        narrow = [e for e in run.effects if e.kind == "narrow"]
        if foreign and narrow and any(x.op == "cast" for x in tm.walk(got)):
            self.violated(part, name, f"{narrow[0].loc[0]}:{narrow[0].loc[1]}", f"numbers are cut down to {narrow[0].what}", first.got, first.want)
            return VIOLATED
        if foreign:
            self.undecided(part, name, self.where(run.f), "outside the modelled vocabulary: " + ", ".join(sorted({k for k, _ in foreign}))[:300])
            return UNDECIDED
        if budget:
            self.undecided(part, name, self.where(run.f), "comparison budget exhausted")
            return UNDECIDED
        lost = [e for e in run.effects if e.kind == "mutate" and local_value(e.extra[0])]
        if lost:
            self.undecided(part, name, self.where(run.f), f"{lost[0].what}: a change to a container that the analysis no longer tracks")
            return UNDECIDED
        detail = "value differs from the specification"
        if first.assumed:
            detail += " when " + " and ".join(("" if v else "not ") + "(" + tm.pretty(c, 6)[:160] + ")" for c, v in first.assumed)
        if first.path:
            detail += " at " + "/".join(str(x) for x in first.path if isinstance(x, str) and x not in ("obj", "lam"))
        self.violated(part, name, self.locate(run, first.got), detail, first.got, first.want)
        return VIOLATED

    def conform(self, dotted, specs, part="", keep=(), drop=(), strict=False, given=None, prepare=None, project=None, facts=None, rewrites=None, sizes=True):
        """The value of a public function equals one of the specification functions."""
        if isinstance(specs, str):
            specs = specs.split()
        run = self.analyse(dotted, specs[0], keep, drop, given, prepare)
        got = run.value
        wants, sruns = [], []
        for s in specs:
            sr = self.run_spec(run, s)
            sruns.append(sr)
            wants.append(sr.value)
        if project:
            got, wants = project(run, got), [project(run, w) for w in wants]
        if facts:
            fx = facts(run)
        else:
            fx = None
        st = self.compare(run, part, got, wants, strict, dotted, fx, rewrites(run) if rewrites else ())
        if st == HOLDS and sizes:
            self.batch_sizes(run, sruns, part, dotted)
        self.refusals(run, sruns, part, dotted)
        return run

    def refusals(self, run, sruns, part, name):
        """No flag of the caller and no number of things alone decides that a call is refused."""
        if not run.f.qual.startswith("jaxfg.") or run.f.qual.startswith("jaxfg.geometry."):
            return
        asked = {a for sr in sruns for a, _ in sr.accepts()}
        for a, line in run.accepts():
            if a in asked:
                continue
            if run.it.is_seq(a) or (run.it.ty(a) or " ")[0] in ("dict", "iter"):
                continue  # nothing given
            why = refuses(a, run.params())
            if why:
                self.violated((part + "." if part else "") + "accept", name, f"{line[0]}:{line[1]}", f"valid input is refused: {why} must hold: {tm.pretty(a, 6)[:200]}")

    def batch_sizes(self, run, sruns, part, name):
        known = {}
        for sr in sruns:
            for t, n in sr.vmap_size.items():
                known.setdefault(t, set()).add(n)
        for t, n in run.vmap_size.items():
            if t in known and n not in known[t]:
                if find_foreign(n, set()):
                    continue
                self.violated(part + "size", name, self.locate(run, t), "batched over a different number of rows", n, next(iter(known[t])))

        def counted(t):
            """The layouts that meet in one operation have the same variables."""
            if t.op == "attr" and t.a[1] == "count_from_variable_type":
                return raw("attr", raw("layout"), t.a[1])

        for have, need, t in run.fits:
            for a, _ in run.accepts():
                have, need = suppose(have, a, True), suppose(need, a, True)
            have, need = tm.rewrite(have, counted), tm.rewrite(need, counted)
            if have is not need and not find_foreign(have, set()) and not find_foreign(need, set()) and one_block(have, need):
                self.violated(part + "fit", name, self.locate(run, t), "a slice is viewed as rows it does not have the length of", have, need)

    def rejects(self, run, spec, context=(), parts=None, what=None, facts=None, follows=None):
        """Whatever the specification function rejects (its assertions and raises) is rejected by the code.

        follows: {part: parts it is a consequence of}; such a part need not be tested separately."""
        name = what or run.f.qual
        sr = self.run_spec(run, spec) if isinstance(spec, str) else spec
        have = [orient(a, False) for a, _ in run.accepts()]
        context = [(orient(c, False), v) for c, v in context]
        for c, v in context:
            have = [suppose(a, c, v) for a in have]
        required = [(orient(a, False), l) for a, l in sr.accepts()]
        if facts:
            have = [replace_terms(a, facts) for a in have]
            required = [(replace_terms(a, facts), l) for a, l in required]
        # whatever has passed one test unconditionally may be used in the others
        used = set()
        while True:
            u = next((a for a in have if a.op not in ("and", "or", "select") and a is not FALSE and a not in used), None)
            if u is None:
                break
            used.add(u)
            have = [a if a is u else suppose(a, u, True) for a in have]
        status = HOLDS
        vocab = vocabulary([need for need, _ in required])
        ok = set()
        order = sorted(enumerate(required), key=lambda x: bool(follows and parts and parts[x[0]] in follows))
        for k, (need, _l) in order:
            part = parts[k] if parts else f"reject{k}"
            for c, v in context:
                need = suppose(need, c, v)
            if need is TRUE:
                continue
            if any(a is FALSE or implied(a, need) for a in have):
                self.holds(part, name, self.where(run.f), "rejected unless " + tm.pretty(need, 8)[:300])
                ok.add(part)
                continue
            if follows and part in follows and ok.issuperset(follows[part]):
                self.holds(part, name, self.where(run.f), "follows from " + ", ".join(follows[part]))
                continue
            foreign = [k for a in have if concerns(a, need) for k in find_foreign(a, vocab)]
            if foreign:
                self.undecided(part, name, self.where(run.f), "acceptance condition outside the vocabulary: " + ", ".join(sorted({k for k, _ in foreign}))[:200])
                status = UNDECIDED
                continue
            if run.it.gave_up:
                self.undecided(part, name, self.where(run.f), "control flow not followed at " + "{}:{}".format(*run.it.gave_up[0]))
                status = UNDECIDED
                continue
            self.violated(part, name, self.where(run.f), "input is not rejected unless " + tm.pretty(need, 8)[:300], "; ".join(tm.pretty(a, 8)[:300] for a in have), need)
            status = VIOLATED
        return status


def one_block(*ts):
    """Lengths taken from at most one entry of each table (a difference of two entries may well be a block length)."""
    at = {}
    for t in ts:
        for x in tm.walk(t):
            if x.op == "get":
                at.setdefault(x.a[0], set()).add(x.a[1])
    return all(len(v) == 1 for v in at.values())


def accesses(t):
    """Access paths (parameter, then attributes) read by a term; only the longest one at each place."""
    out = set()

    def go(x, seen):
        if x in seen:
            return
        seen.add(x)
        p, y = [], x
        while y.op == "attr":
            p.append(y.a[1])
            y = y.a[0]
        if y.op == "sym":
            out.add((y, *reversed(p)))
            return
        for z in tm.iter_terms(x.a):
            go(z, seen)

    go(t, set())
    return out


def concerns(have, need):
    """Whether a test reads everything the needed condition is about, or an object that contains it."""
    read = accesses(have)
    return all(p[0] in LOOP or any(p[: len(r)] == r for r in read) for p in accesses(need))


def suppose(t, c, v):
    return assume(t, c.a[0], not v) if c.op == "not" else assume(t, c, v)


def implied(have, need):
    """have => need, for needs that are atoms or disjunctions of atoms."""
    if have is need:
        return True
    lits = need.a[0] if need.op == "or" else (need,)
    t = have
    for l in lits:
        t = suppose(t, l, False)
    return t is FALSE


class OutOfTime(BaseException):
    """Not an Exception: nothing on the way may mistake it for an unmodelled construct and go on."""


@contextmanager
def time_limit(seconds):
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def stop(_sig, _frame):
        raise OutOfTime

    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


SECONDS = 30  # per obligation; they take well under one


def run_obligations(ctx, prop=None, names=None):
    out = []
    for ob in REGISTRY:
        if prop is not None and prop not in ob.props:
            continue
        if names is not None and ob.name not in names:
            continue
        ctx.ob = ob
        n = len(ctx.results)
        try:
            with time_limit(SECONDS):
                ob.fn(ctx)
        except OutOfTime:
            ctx.undecided("", ob.name, "-", f"analysis: no result within {SECONDS} s")
        except AnalysisError as e:
            if getattr(e, "anchor", True) and "not found" in str(e):
                raise
            ctx.undecided("", ob.name, "-", f"analysis: {e}")
        except (RecursionError, MemoryError) as e:
            ctx.undecided("", ob.name, "-", f"analysis: {type(e).__name__}")
        except Exception as e:  # an unmodelled construct must not look like an answer
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ctx.undecided("", ob.name, "-", f"analysis: {type(e).__name__}: {e} at {tb.filename.rsplit('/', 1)[-1]}:{tb.lineno}")
        out.extend(ctx.results[n:])
    return out
