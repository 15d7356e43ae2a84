"""Declared types of the package's functions, for code that leaves its annotations out.

The table interface.json holds, per function, the annotations of the interface as it was when the specification was
written (tools/gen_interface.py). An annotation in the analysed source always takes precedence.
"""

import ast
import functools
import json
import os


@functools.lru_cache(None)
def table():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "interface.json")) as f:
        return json.load(f)


@functools.lru_cache(None)
def classes():
    """Names of the recorded classes."""
    return {q.split(".")[-2] for q in table() if q.split(".")[-2].lstrip("_")[:1].isupper()}


@functools.lru_cache(None)
def functions():
    """Names of the recorded functions at module level."""
    return {q.split(".")[-1] for q in table() if not q.split(".")[-2].lstrip("_")[:1].isupper()}


@functools.lru_cache(None)
def parsed(text):
    return ast.parse(text, mode="eval").body


def entry(f):
    if f.outer is not None:
        return None
    return table().get(f.qual)


def parameter(f, k, name):
    e = entry(f)
    if e is None:
        return None
    for n, t in e["parameters"]:
        if n == name:
            return parsed(t) if t else None
    if k < len(e["parameters"]) and e["parameters"][k][1]:
        return parsed(e["parameters"][k][1])
    return None


def result(f):
    e = entry(f)
    return parsed(e["returns"]) if e is not None and e["returns"] else None
