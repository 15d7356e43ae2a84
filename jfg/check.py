"""Decide one property: python3 -m jfg.check P01 [--root DIR] [--tier quick|thorough]."""

import argparse
import json
import os
import resource
import sys
import time

from . import ob, rules
from .compare import Comparer
from .program import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    "real arithmetic: values that are algebraically equal are taken to be equal, rounding is not modelled",
    "numpy, jax, jax_dataclasses, jaxlie, scipy and sksparse behave as modelled in jfg/lib.py",
    "obligations that come out undecided (a construct outside the modelled vocabulary) are listed and claim nothing",
]


def known_findings():
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                if line.startswith("finding:"):
                    w = line.split(None, 3)
                    out[(w[1].split("=", 1)[1], w[2].split("=", 1)[1])] = w[3].strip() if len(w) > 3 else ""
    return out


def canary(ctx):
    """The comparison must separate two specifications that differ and identify two that do not."""
    run = ctx.analyse("jaxfg.sparse.SparseCooMatrix.as_dense", "canary_same")
    a, b, c = (ctx.run_spec(run, n).value for n in ("canary_same", "canary_other_words", "canary_different"))
    if not Comparer().equal(a, b) or Comparer().equal(a, c):
        raise AnalysisError("self check: the comparison no longer separates different normal forms")


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    t0 = time.time()
    try:
        return decide(a, t0)
    except AnalysisError as e:
        print(f"ANALYSIS-BROKEN property={a.property} {e}")
        return 3


def decide(a, t0):
    prop = a.property
    obs = [o for o in ob.REGISTRY if prop in o.props]
    if not obs:
        raise AnalysisError(f"no obligations registered for {prop}")
    with open(os.path.join(VERIF, "jfg", "specmod.py"), encoding="utf-8") as f:
        spec = f.read()
    ctx = ob.Ctx(a.root, spec)
    canary(ctx)
    results = ob.run_obligations(ctx, prop)
    empty = sorted(o.name for o in obs if not any(r.ob is o for r in results))
    if empty:
        raise AnalysisError("no instance found for " + ", ".join(empty))
    known = known_findings()
    bad, listed = [], []
    for r in results:
        if r.status == ob.VIOLATED:
            (listed if (prop, r.key) in known else bad).append(r)
    held = [r for r in results if r.status == ob.HOLDS]
    open_ = [r for r in results if r.status == ob.UNDECIDED]
    for r in results:
        print(f"{r.status:9} {r.key}  {r.target}  {r.where}" + (f"  {r.detail[:200]}" if r.status != ob.HOLDS else ""))
    coverage = {
        "explanation": (
            "Abstract evaluation of the current sources to normal forms (value numbering over a gated representation, no execution), "
            f"then {len(results)} obligations for this property: {len(held)} hold, {len(bad) + len(listed)} fail, {len(open_)} undecided. "
            "Each obligation compares a normal form with a specification or checks a structural rule; see 'obligations'."
        ),
        "obligations": len(results),
        "discharged": len(held),
        "undecided": len(open_),
        "functions_analysed": sorted(ctx.visited),
        "calls_resolved": ctx.calls,
        "term_nodes_compared": ctx.terms,
        "modules": len(ctx.program.modules),
        "rules": {o.name: o.rule for o in obs},
        "results": [r.as_dict() for r in results],
    }
    if a.tier == "thorough":
        coverage["self_test"] = self_test(a.root, prop)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, f"replay-{prop}.json")
    if not a.no_evidence:
        doc = {
            "property": prop,
            "tier": a.tier,
            "seed": int(os.environ.get("VERIF_SEED") or 0),
            "level": "other",
            "coverage": coverage,
            "assumptions": ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 3),
            "violations": len(bad),
        }
        with open(os.path.join(ev, f"{prop}.json"), "w", encoding="utf-8") as f:
            json.dump(doc, f, indent=1, sort_keys=True)
            f.write("\n")
    for r in listed:
        print(f"KNOWN-FINDING: property={prop} {known[(prop, r.key)]}")
    if bad:
        with open(replay, "w", encoding="utf-8") as f:
            json.dump([r.as_dict() for r in bad], f, indent=1, sort_keys=True)
            f.write("\n")
        for r in bad:
            print(f"  {r.where}: {r.target}: {r.detail}")
            if r.got:
                print(f"    found    {r.got[:300]}\n    expected {r.want[:300]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    print(f"{prop}: {len(held)} obligations hold, {len(open_)} undecided, {len(ctx.visited)} functions analysed")
    return 0


def self_test(root, prop):
    """Run the corpus entries of this property on in-memory edits of the sources."""
    sys.path.insert(0, os.path.join(VERIF, "selftest"))
    import run as selftest

    return selftest.summary(root, prop)


if __name__ == "__main__":
    sys.exit(main())
