"""Write jfg/interface.json: the annotations of the package's functions, used where analysed code leaves them out."""

import ast
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from jfg.program import Program  # noqa: E402


def main():
    p = Program(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    out = {}
    for q, f in sorted(p.funcs.items()):
        if f.outer is not None or not q.startswith("jaxfg."):
            continue
        a = f.node.args
        ps = [[x.arg, ast.unparse(x.annotation) if x.annotation is not None else ""] for x in a.posonlyargs + a.args + a.kwonlyargs]
        r = ast.unparse(f.node.returns) if f.node.returns is not None else ""
        if r or any(t for _, t in ps):
            out[q] = {"parameters": ps, "returns": r}
    with open(os.path.join(VERIF, "jfg", "interface.json"), "w") as h:
        json.dump(out, h, indent=1)
        h.write("\n")
    print(len(out), "functions")


if __name__ == "__main__":
    main()
