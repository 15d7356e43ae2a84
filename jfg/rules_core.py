"""Obligations about layouts and assignments."""

import ast

from . import terms as tm
from .canon import cover, cover_stacks, group_key, leaf_shape, member_of_made_layout
from .ob import obligation
from .terms import FALSE, TRUE, fresh, mk, raw

EQ = "normal form of the function equals the normal form of its specification"
REJ = "the specified precondition is implied by every normally returning path"


@obligation("layout.make", "P01", EQ)
def layout_make(c):
    c.conform("jaxfg.core.StorageLayout.make", "layout_make")


@obligation("layout.variables", "P01 P02", EQ)
def layout_listing(c):
    c.conform("jaxfg.core.StorageLayout.get_variables", "layout_variables layout_variables_sorted", "variables")
    c.conform("jaxfg.core.StorageLayout.get_variable_types", "layout_types layout_types_sorted", "types")


@obligation("assignments.make", "P02", EQ)
def assignments_make(c):
    def written(run, made="made_layout"):
        return cover(c, run, c.run_spec(run, made).value, flag=False)

    c.conform("jaxfg.core.VariableAssignments.make_from_defaults", "from_defaults from_defaults_each", "defaults", rewrites=lambda run: [written(run)])
    c.conform("jaxfg.core.VariableAssignments.make_from_partial_dict", "from_partial", "partial", rewrites=lambda run: [written(run)])
    c.conform("jaxfg.core.VariableAssignments.make_from_dict", "from_dict", "dict", rewrites=lambda run: [member_of_made_layout, written(run, "made_layout_of_keys")])


@obligation("assignments.read", "P02", EQ)
def assignments_read(c):
    c.conform("jaxfg.core.VariableAssignments.get_value", "assigned_value", "one")
    c.conform("jaxfg.core.VariableAssignments.get_stacked_value", "assigned_stacked", "stacked")
    c.conform("jaxfg.core.VariableAssignments.as_dict", "assigned_dict", "dict")
    c.conform("jaxfg.core.VariableAssignments.get_variables", "assigned_variables", "variables")


@obligation("assignments.set", "P02 P21", EQ)
def assignments_set(c):
    c.conform("jaxfg.core.VariableAssignments.set_value", "assigned_set assigned_set_whole")


@obligation("assignments.convert", "P03 P13", EQ)
def assignments_convert(c):
    def facts(run):
        # checked by the rejection obligation below
        me, new = run.params()[:2]
        own = mk("attr", me, "storage_layout")
        return {mk("attr", own, "dim"): mk("attr", new, "dim"), mk("attr", own, "local_flag"): mk("attr", new, "local_flag")}

    def rewrites(run):
        me, new = run.params()[:2]
        return [cover(c, run, new, same=(mk("attr", me, "storage_layout"),))]

    c.conform("jaxfg.core.VariableAssignments.update_storage_layout", "convert convert_always", facts=facts, rewrites=rewrites)


@obligation("assignments.convert.rejects", "P03", REJ)
def assignments_convert_rejects(c):
    run = c.analyse("jaxfg.core.VariableAssignments.update_storage_layout", "convert")
    same = c.run_spec(run, "layouts_equal").value
    c.rejects(run, "convert_ok", [(same, False)], ("dim", "parameterisation", "variables"), follows={"dim": ("parameterisation", "variables")})


@obligation("assignments.retract", "P04", EQ)
def assignments_retract(c):
    def rewrites(run):
        return [cover(c, run, mk("attr", run.params()[0], "storage_layout"), flag=False)]

    c.conform("jaxfg.core.VariableAssignments.manifold_retract", "retract retract_each", rewrites=rewrites)


@obligation("assignments.retract.rejects", "P04", REJ)
def assignments_retract_rejects(c):
    run = c.analyse("jaxfg.core.VariableAssignments.manifold_retract", "retract")
    c.rejects(run, "retract_ok", (), ("base", "delta"))


# ---------------------------------------------------------------------------------------------------------------------
# Factor stacks and graphs


def homogeneous(it, args):
    it.homog.add(next(iter(args.values())))


@obligation("stack.make", "P05", EQ)
def stack_make(c):
    c.conform("jaxfg.core.FactorStack.make", "stack_make", prepare=homogeneous)


@obligation("stack.make.rejects", "P05", REJ)
def stack_make_rejects(c):
    run = c.analyse("jaxfg.core.FactorStack.make", "stack_make")
    c.rejects(run, "stack_make_ok", (), ("types",))


@obligation("stack.coords", "P06", EQ)
def stack_coords(c):
    c.conform("jaxfg.core.FactorStack.compute_jacobian_coords", "stack_coords", prepare=homogeneous)


@obligation("stack.eval", "P05 P07", EQ)
def stack_eval(c):
    c.conform("jaxfg.core.FactorStack.compute_residual_vector", "stack_residual", "residual")
    c.conform("jaxfg.core.FactorStack.get_residual_dim", "stack_residual_dim", "dim")


@obligation("stack.jacobian", "P05 P06", EQ)
def stack_jac(c):
    c.conform("jaxfg.core.FactorStack.compute_residual_jacobian", "stack_jacobian")


@obligation("stack.eval.rejects", "P05", REJ)
def stack_eval_rejects(c):
    for m in ("compute_residual_vector", "compute_residual_jacobian"):
        run = c.analyse("jaxfg.core.FactorStack." + m, "stack_residual")
        c.rejects(run, "stack_eval_ok", (), (m,))


@obligation("factor.anonymize", "P05", EQ)
def factor_anonymize(c):
    c.conform("jaxfg.core.FactorBase.anonymize_variables", "factor_anonymous")


GRAPH_KEEP = {"FactorStack.make", "FactorStack.compute_jacobian_coords"}


def graph_make_run(c, part, field):
    def project(run, v):

        return mk("attr", v, field)

    c.conform("jaxfg.core.StackedFactorGraph.make", "graph_make", part, keep=GRAPH_KEEP, project=project, rewrites=lambda run: [leaf_shape, group_key])


@obligation("graph.make", "P05", EQ)
def graph_make(c):
    for f in ("factor_stacks", "storage_layout", "local_storage_layout"):
        graph_make_run(c, f, f)


LEAF_TESTS = {"hasattr", "getattr", "isinstance", "asarray", "array", "atleast_1d", "ndarray", "Array"}


@obligation("graph.make.leaves", "P05", "leaves that are plain numbers have no attributes: the shape of a leaf is not read off it untested")
def graph_make_leaves(c):
    run = c.analyse("jaxfg.core.StackedFactorGraph.make", "graph_make", keep=GRAPH_KEEP)
    for (path, line), plain, fr in run.leaf_reads:
        tested = False
        for f in {run.f, fr.func if fr is not None and fr.func is not None else run.f}:
            for n in ast.walk(f.node):
                tested = tested or isinstance(n, ast.Try) or getattr(n, "id", getattr(n, "attr", None)) in LEAF_TESTS
        if plain and not tested:
            c.violated("read", "StackedFactorGraph.make", f"{path}:{line}", "the shape attribute of a leaf is read without a test that it has one")
            return
    c.holds("read", "StackedFactorGraph.make", c.where(run.f), f"{len(run.leaf_reads)} reads of leaf attributes, none untested")


@obligation("graph.make.coords", "P06", EQ)
def graph_make_coords(c):
    for f in ("jacobian_coords", "residual_dim"):
        graph_make_run(c, f, f)


@obligation("graph.variables", "P05", EQ)
def graph_variables(c):
    c.conform("jaxfg.core.StackedFactorGraph.get_variables", "graph_variables graph_variables_global")


@obligation("graph.residual", "P07 P13", EQ)
def graph_residual(c):
    c.conform("jaxfg.core.StackedFactorGraph.compute_whitened_residual_vector", "graph_residual", rewrites=lambda run: [cover_stacks(c, run)])


@obligation("graph.cost", "P07 P13", EQ)
def graph_cost(c):
    c.conform("jaxfg.core.StackedFactorGraph.compute_cost", "graph_cost")


@obligation("graph.nll", "P07 P13", EQ)
def graph_nll(c):
    c.conform("jaxfg.core.StackedFactorGraph.compute_joint_nll", "graph_nll", given={"include_constants": FALSE})


@obligation("graph.nll.rejects", "P07", REJ)
def graph_nll_rejects(c):
    run = c.analyse("jaxfg.core.StackedFactorGraph.compute_joint_nll", "graph_nll", given={"include_constants": FALSE})
    c.rejects(run, "graph_nll_ok", (), ("noise",))


@obligation("graph.jacobian", "P06 P13", EQ)
def graph_jacobian(c):
    c.conform("jaxfg.core.StackedFactorGraph.compute_whitened_residual_jacobian", "graph_jacobian")


@obligation("graph.solve", "P13", EQ)
def graph_solve(c):
    c.conform("jaxfg.core.StackedFactorGraph.solve", "graph_solve")
