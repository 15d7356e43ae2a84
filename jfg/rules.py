"""All obligations."""

from . import rules_core, rules_effects, rules_g2o, rules_models, rules_solvers  # noqa: F401
