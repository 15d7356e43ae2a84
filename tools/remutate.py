"""Mechanical single-place changes of the rewritten functions of the self-test: which ones does no check report?

remutate.py [--root /repo] [--only case-substring] [--count N] [--seed S] [--out file] : applies every rewrite of the corpus to
in-memory sources and changes one place of the rewritten lines. A law that equates too much shows here as a change of behaviour
that stays quiet without leaving an obligation undecided.
"""

import argparse
import ast
import multiprocessing
import os
import random
import sys

import mutate

sys.path.insert(0, os.path.join(mutate.VERIF, "selftest"))


def rewritten(root, only):
    import run
    from corpus import CASES

    out = []
    for case in CASES:
        if case["kind"] == "mutant" or only not in case["name"]:
            continue
        overlay = run.apply_case(root, case["edits"])
        for rel, src in (overlay or {}).items():
            path = os.path.join(root, rel)
            old = set(open(path).read().split("\n")) if os.path.exists(path) else set()
            fresh = {k for k, line in enumerate(src.split("\n"), 1) if line not in old}
            base = ast.unparse(ast.parse(src))
            nodes = list(ast.walk(ast.parse(src)))
            for k, what, how in mutate.mutations(ast.parse(src)):
                line = getattr(nodes[k], "lineno", 0)
                if line not in fresh:
                    continue
                out.append((case["name"], overlay, rel, line, what, base, k, src))
    return out


def judge(arg):
    root, (name, overlay, rel, line, what, base, k, src) = arg
    how = next(h for j, w, h in mutate.mutations(ast.parse(src)) if j == k and w == what)
    try:
        new = mutate.build(src, k, how)
        compile(new, rel, "exec")
    except Exception:
        return None
    if new == base:
        return None
    return (name, *mutate.judge((root, rel, line, what, base, new, {**overlay, rel: new})))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--only", default="")
    ap.add_argument("--count", type=int, default=0)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--out", default="")
    a = ap.parse_args()
    ms = rewritten(a.root, a.only)
    total = len(ms)
    if a.count and a.count < total:
        ms = random.Random(a.seed).sample(ms, a.count)
    out = open(a.out, "w") if a.out else sys.stdout
    n = {"reported": 0, "undecided": 0, "silent": 0, "error": 0}
    with multiprocessing.Pool(maxtasksperchild=24) as pool:
        for r in pool.imap(judge, [(a.root, m) for m in ms], chunksize=4):
            if r is None:
                continue
            name, rel, line, what, d, bad, und = r
            k = "error" if bad & {"error", "crash"} else "reported" if bad else "undecided" if und else "silent"
            n[k] += 1
            if k != "reported":
                print(k.upper(), name, f"{rel}:{line}", what, "|", " / ".join(d[0]), "=>", " / ".join(d[1]), "|", *und[:3], file=out, flush=True)
    print(total, "places,", sum(n.values()), "changes:", n)


if __name__ == "__main__":
    main()
