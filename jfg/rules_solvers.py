"""Obligations about the nonlinear solvers."""

from . import terms as tm
from .compare import replace_terms
from .ob import HOLDS, UNDECIDED, VIOLATED, obligation
from .program import AnalysisError
from .terms import FALSE, TRUE, ZERO, fresh, int_of, list_items, mk, open_, raw

EQ = "normal form of the solver's loop (initial state, continuation test, one step, result) equals its specification"

SOLVERS = {
    "GaussNewtonSolver": ("gn_step",),
    "LevenbergMarquardtSolver": ("lm_step", "lm_step_other_clamp"),
    "DoglegSolver": ("dogleg_step", "dogleg_step_a", "dogleg_step_b"),
    "FixedIterationGaussNewtonSolver": ("fixed_step",),
}
BASE = ("iterations", "assignments", "cost", "residual_vector", "done")


class Loop:
    def __init__(self, kind, init, guard, state, body, term):
        self.kind, self.init, self.guard, self.state, self.body, self.term = kind, init, guard, state, body, term


class SolverModel:
    """The loops of a solver's solve(), with their states opened at one symbol."""

    def __init__(self, c, name):
        self.c, self.name = c, name
        self.dotted = f"jaxfg.solvers.{name}.solve"
        run = c.analyse(self.dotted, "solver_convert")
        self.run = run
        self.me, self.graph, self.initial = run.params()[:3]
        self.convert = c.run_spec(run, "solver_convert").value
        self.loops = []
        seen = set()
        for t in tm.walk(run.value):
            if t.op in ("while", "fold") and t not in seen:
                seen.add(t)
                self.loops.append(self.open(t))
        if not self.loops:
            raise AnalysisError(f"{self.dotted}: no optimisation loop recognised")
        self._specs = {}

    def open(self, t):
        it = self.run.it
        it.activate()
        if t.op == "while":
            init, cond, body = t.a
            s = fresh("state", it.ty(init))
            return Loop("while", init, open_(cond, s), s, open_(body, s), t)
        n, init, lam = t.a
        s = fresh("state", it.ty(init))
        inner = open_(lam, s)
        i = fresh("i", ("scal",))
        return Loop("fold", init, n, s, open_(inner, i), t)

    def fields(self, t):
        c, _ = self.run.it.cls_of(t)
        if c is None:
            raise AnalysisError(f"{self.dotted}: loop state is not a solver state")
        return [f.name for f in self.c.program.all_fields(c)]

    def extra(self, loop):
        rest = [f for f in self.fields(loop.init) if f not in BASE]
        if len(rest) != 1:
            raise AnalysisError(f"{self.dotted}: expected one state field beyond the common ones, found {rest}")
        return rest[0]

    def get(self, t, field):
        self.run.it.activate()
        return mk("attr", t, field)

    def spec_steps(self, loop):
        """Field values of the specified step, one list per alternative."""
        k = loop.term
        if k not in self._specs:
            env = {"self": self.me, "graph": self.graph}
            for f in BASE[:4]:
                env[f] = self.get(loop.state, f)
            if self.name in ("LevenbergMarquardtSolver", "DoglegSolver"):
                env["extra"] = self.get(loop.state, self.extra(loop))
            out = []
            for s in SOLVERS[self.name]:
                out.append(list_items(self.c.run_spec(self.run, s, env).value))
            self._specs[k] = out
        return self._specs[k]

    def step_field(self, part, index, strict=False):
        c = self.c
        for k, loop in enumerate(self.loops):
            name = BASE[index] if index < 5 else self.extra(loop)
            got = self.get(loop.body, name)
            wants = [s[index] for s in self.spec_steps(loop)]
            c.compare(self.run, f"{self.name}:{part}{k if k else ''}", got, wants, strict, f"{self.dotted} (state.{name} after one iteration)")

    def init_field(self, part, index, want=None):
        c = self.c
        for k, loop in enumerate(self.loops):
            name = BASE[index] if index < 5 else self.extra(loop)
            got = self.get(loop.init, name)
            if want is None:
                w = list_items(c.run_spec(self.run, "solver_init", {"graph": self.graph, "assignments": self.convert}).value)[index]
            else:
                w = c.run_spec(self.run, want, {"self": self.me}).value
            c.compare(self.run, f"{self.name}:{part}{k if k else ''}", got, [w], False, f"{self.dotted} (initial state.{name})")


def model(c, name):
    cache = c.__dict__.setdefault("solver_models", {})
    if name not in cache:
        cache[name] = SolverModel(c, name)
    m = cache[name]
    m.run.it.activate()
    return m


def accept_atom(c):
    """Comparisons against the acceptance threshold keep their behaviour on unordered operands."""
    return any(x.op == "attr" and x.a[1] == "step_quality_min" for x in tm.walk(c))


@obligation("solver.init", "P08", EQ)
def solver_init(c):
    for n in SOLVERS:
        m = model(c, n)
        for k in range(4):
            m.init_field("init." + BASE[k], k)


@obligation("solver.init.done", "P12", EQ)
def solver_init_done(c):
    for n in SOLVERS:
        model(c, n).init_field("init.done", 4)


@obligation("solver.counter", "P08 P12", EQ)
def solver_counter(c):
    for n in SOLVERS:
        model(c, n).step_field("iterations", 0)


@obligation("solver.step", "P08", EQ)
def solver_step(c):
    for n in SOLVERS:
        m = model(c, n)
        for k in (1, 2, 3):
            m.step_field(BASE[k], k)


@obligation("solver.subproblem", "P08 P11", "every linear subproblem posed in the loop body is the specified one")
def solver_subproblem(c):
    for n in SOLVERS:
        m = model(c, n)
        for j, loop in enumerate(m.loops):
            lam = m.get(loop.state, m.extra(loop)) if n == "LevenbergMarquardtSolver" else ZERO
            env = {
                "linear_solver": mk("attr", m.me, "linear_solver"), "graph": m.graph, "lambd": lam,
                "assignments": m.get(loop.state, "assignments"), "residual_vector": m.get(loop.state, "residual_vector"),
                "iterations": m.get(loop.state, "iterations"),
            }
            want = c.run_spec(m.run, "subproblem", env).value
            found = [t for t in tm.walk(loop.body) if t.op == "api" and t.a[0].endswith(".solve_subproblem")]
            if not found:
                c.violated(f"{n}:{j}", m.dotted, c.where(m.run.f), "no linear subproblem is solved in an iteration")
            for t in found:
                c.compare(m.run, f"{n}:{j}", t, [want], False, m.dotted)
            lin = c.run_spec(m.run, "linearise", {k: env[k] for k in ("graph", "assignments", "residual_vector")}).value
            for t in tm.walk(loop.body):
                if t.op == "api" and t.a[0].endswith(".compute_whitened_residual_jacobian"):
                    c.compare(m.run, f"{n}:{j}:linearise", t, [lin], False, m.dotted)


@obligation("solver.accept", "P09", EQ + "; the acceptance test is compared exactly, including unordered operands")
def solver_accept(c):
    for n in ("LevenbergMarquardtSolver", "DoglegSolver"):
        m = model(c, n)
        for k in (1, 2, 3):
            m.step_field(BASE[k], k, strict=accept_atom)


@obligation("solver.dogleg", "P10", EQ)
def solver_dogleg(c):
    m = model(c, "DoglegSolver")
    m.init_field("init.radius", 5, "dogleg_initial")
    m.step_field("radius", 5)
    # the step, wherever it is accepted
    m.step_field("step", 1)


@obligation("solver.damping", "P11", EQ)
def solver_damping(c):
    m = model(c, "LevenbergMarquardtSolver")
    m.init_field("init.lambda", 5, "lm_initial")
    m.step_field("lambda", 5)


@obligation("solver.done", "P12", EQ)
def solver_done(c):
    for n in SOLVERS:
        m = model(c, n)
        m.step_field("done", 4)
        for k, loop in enumerate(m.loops):
            if loop.kind == "while":
                c.compare(m.run, f"{n}:guard{k}", loop.guard, [tm.not_(m.get(loop.state, "done"))], False, m.dotted + " (continuation test)")
            else:
                c.compare(m.run, f"{n}:count{k}", loop.guard, [mk("attr", m.me, "iterations")], False, m.dotted + " (number of iterations)")


@obligation("solver.unroll", "P12 P22 P27", "the unroll flag selects between a counted loop over the static iteration count and a while loop")
def solver_unroll(c):
    m = model(c, "FixedIterationGaussNewtonSolver")
    kinds = sorted(l.kind for l in m.loops)
    unroll = mk("attr", m.me, "unroll")
    for v, kind in ((TRUE, "fold"), (FALSE, "while")):
        t = replace_terms(m.run.value, {unroll: v})
        ks = {x.op for x in tm.walk(t) if x.op in ("while", "fold")}
        if v is TRUE and not ks and any(x.op == "opaque" for x in tm.walk(t)):
            from .rules_effects import transformable

            early = [k for k in transformable(c, m.run, m.dotted) if "branch" in k[2]]
            if early:
                c.violated("unrolled", m.dotted, early[0][0], f"the unrolled iterations end early: {early[0][2]}")
            else:
                c.undecided("unrolled", m.dotted, c.where(m.run.f), "loop not understood")
        elif v is TRUE and ks != {"fold"}:
            c.violated("unrolled", m.dotted, c.where(m.run.f), f"with unroll set the iterations run in {sorted(ks)} instead of a Python loop of the configured length")
        elif v is FALSE and not ks <= {"while", "fold"}:
            c.violated("looped", m.dotted, c.where(m.run.f), f"unexpected loops {sorted(ks)}")
        else:
            c.holds("unrolled" if v is TRUE else "looped", m.dotted, c.where(m.run.f), f"loops: {kinds}")


@obligation("solver.result", "P13", "the result is the loop's final assignments converted back to the layout of the initial assignments")
def solver_result(c):
    for n in SOLVERS:
        m = model(c, n)
        got = m.run.value
        final = None
        # replace every loop's assignments by one symbol
        s = fresh("final", ("cls", c.cls("jaxfg.core.VariableAssignments").qual, True))
        repl = {m.get(l.term, "assignments"): s for l in m.loops}
        got = replace_terms(got, repl)
        want = c.run_spec(m.run, "solver_return", {"final": s}).value
        same = c.run_spec(m.run, "solver_layouts", {}).value

        def needless(t):
            """The final assignments are in the graph's layout: converting them to an equal one changes nothing."""
            if t.op == "select" and t.a[0] is same and t.a[1] is s and t.a[2] is want:
                return want

        got = tm.rewrite(got, needless)
        c.compare(m.run, n, got, [want], False, m.dotted)


@obligation("solver.convert", "P13", "the initial state's assignments are the initial assignments in the graph's layout")
def solver_convert(c):
    for n in SOLVERS:
        m = model(c, n)
        for k in (1, 2, 3):
            m.init_field("init." + BASE[k], k)
