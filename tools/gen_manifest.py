"""Write MANIFEST.json from the registered obligations and properties.jsonl."""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from jfg import ob, rules  # noqa: E402,F401

NOT_APPLICABLE = {
    "P28": "Convergence to a minimum within floating-point tolerance quantifies over runtime numerics (conditioning, rounding, "
    "basin of attraction); no static argument over this source bounds it.",
}

TECHNIQUE = {
    "P21": "interprocedural effect analysis, plus normal-form comparison",
    "P22": "field classification dataflow over pytree dataclasses",
    "P25": "path-wise dataflow over the parser loop compared with a specification",
    "P26": "effect analysis of console output under path conditions, non-interference of the verbose flag",
    "P27": "effect and taint analysis over the call graph of the conjugate-gradient path",
}
DEFAULT = "abstract evaluation to value-graph normal forms, compared with a specification"

NOTE = (
    "Static: the current source is abstractly evaluated to normal forms (global value numbering with algebraic laws over all "
    "inputs, shapes and branch outcomes) and compared with specification functions, or checked by structural rules; nothing is "
    "executed. Exact over reals, modulo the library model and no rounding; constructs outside the model are reported as undecided, not as held."
)


def main():
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        props = [json.loads(l)["id"] for l in f if l.strip()]
    have = {p for o in ob.REGISTRY for p in o.props}
    checks, na = [], []
    for p in props:
        if p in NOT_APPLICABLE:
            na.append({"property": p, "reason": NOT_APPLICABLE[p]})
        elif p not in have:
            na.append({"property": p, "reason": "No static check has been built for this property yet."})
        else:
            checks.append(
                {
                    "property": p,
                    "quick_cmd": f"python3 -m jfg.check {p} --tier quick",
                    "thorough_cmd": f"python3 -m jfg.check {p} --tier thorough",
                    "technique": TECHNIQUE.get(p, DEFAULT),
                    "level": "other",
                    "level_note": NOTE,
                    "evidence_file": f"evidence/{p}.json",
                }
            )
    doc = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 8)'", "checks": checks, "not_applicable": na}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
