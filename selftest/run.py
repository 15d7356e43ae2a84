"""Apply edits from the corpus to in-memory copies of the sources and run the obligations on each.

Mutants must be reported for the property they name, refactorings must stay quiet.
"""

import argparse
import ast
import multiprocessing
import os
import re
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def apply_case(root, edits):
    """edits: [(file, old, new)...], old None for a new file; returns overlay or None when a text is missing."""
    overlay = {}
    for rel, old, new in edits:
        if old is None:
            overlay[rel] = new
            continue
        src = overlay.get(rel)
        if src is None:
            with open(os.path.join(root, rel), encoding="utf-8") as f:
                src = f.read()
        if isinstance(old, tuple):
            src = replace_definition(src, old[1], new)
            if src is None:
                return None
            overlay[rel] = src
            continue
        if old not in src:
            # the same lines with blank or comment lines between them
            found = re.findall(r"\n(?: *\n| *#.*\n)*".join(re.escape(x) for x in old.split("\n") if x.strip()), src)
            if len(found) != 1:
                return None
            old, new = found[0], new.rstrip("\n")
        overlay[rel] = src.replace(old, new, 1)
    return overlay


def replace_definition(src, qual, new):
    """Replace the definition named `qual` (decorators included) by other source text."""
    body, found = ast.parse(src).body, None
    for part in qual.split("."):
        found = next((n for n in body if getattr(n, "name", None) == part), None)
        if found is None:
            return None
        body = found.body
    first = min([found.lineno] + [d.lineno for d in found.decorator_list])
    lines = src.split("\n")
    text = textwrap.indent(textwrap.dedent(new).strip("\n"), " " * found.col_offset)
    return "\n".join(lines[: first - 1] + text.split("\n") + lines[found.end_lineno :])


def run_case(arg):
    root, case = arg
    from jfg import ob, rules  # noqa: F401

    overlay = apply_case(root, case["edits"])
    if overlay is None:
        return case, None, [], "edit does not apply"
    with open(os.path.join(os.path.dirname(HERE), "jfg", "specmod.py")) as f:
        spec = f.read()
    try:
        c = ob.Ctx(root, spec, overlay)
        rs = ob.run_obligations(c)
    except Exception as e:  # noqa: BLE001
        return case, None, [], f"analysis error: {type(e).__name__}: {e}"
    bad = [r for r in rs if r.status == "violated"]
    und = [r for r in rs if r.status == "undecided"]
    return case, {p for r in bad for p in r.ob.props}, [(r.key, r.status, r.where, r.detail[:200], r.got[:600], r.want[:600]) for r in bad + und], ""


def summary(root, prop):
    """Counts for one property: its mutants, and all refactorings judged by this property alone."""
    from corpus import CASES

    out = {"mutants": 0, "reported": 0, "refactorings": 0, "quiet": 0, "not_applicable_to_this_tree": 0, "unexpected": []}
    cases = [c for c in CASES if c["kind"] == "refactor" or prop in c["props"].split()]
    with multiprocessing.Pool(maxtasksperchild=24) as pool:
        for case, props, _notes, err in pool.imap(run_case, [(root, c) for c in cases]):
            if err:
                out["not_applicable_to_this_tree"] += 1
                continue
            kind, good = ("mutants", "reported") if case["kind"] == "mutant" else ("refactorings", "quiet")
            out[kind] += 1
            if (prop in props) == (kind == "mutants"):
                out[good] += 1
            else:
                out["unexpected"].append(case["name"])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--root", default="/repo")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("names", nargs="*")
    a = ap.parse_args()
    from corpus import CASES

    cases = [c for c in CASES if not a.names or any(n in c["name"] for n in a.names)]
    bad = 0
    with multiprocessing.Pool(maxtasksperchild=24) as pool:
        for case, props, notes, err in pool.imap(run_case, [(a.root, c) for c in cases]):
            if err:
                st = "ERROR " + err
            elif case["kind"] == "mutant":
                want = set(case["props"].split())
                st = "ok" if want <= props else ("MISSED" if not props else f"OTHER {sorted(props)}")
                if st == "MISSED" and notes:
                    st = "UNDECIDED"
            else:
                st = "FALSE ALARM" if props else ("ok" if not notes else "ok-undecided")
            if not st.startswith("ok"):
                bad += 1
            print(f"{st:12} {case['kind']:8} {case['props'] or '':8} {case['name']}")
            if a.v or not st.startswith("ok"):
                for n in notes[:4]:
                    print("      ", *n[:4])
                    if a.v:
                        print("          got ", n[4])
                        print("          want", n[5])
    print(len(cases), "cases,", bad, "not as expected")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
