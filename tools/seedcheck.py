"""Apply every planted bug to a scratch copy of the sources and list which properties are reported for it."""

import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)


def one(arg):
    root, name = arg
    from jfg import ob, rules  # noqa: F401

    d = os.path.join(VERIF, "seeded", name)
    with open(os.path.join(d, "meta.json")) as f:
        prop = json.load(f)["property"]
    tmp = tempfile.mkdtemp(prefix="seedcheck-")
    try:
        for part in ("jaxfg", "scripts"):
            shutil.copytree(os.path.join(root, part), os.path.join(tmp, part))
        p = subprocess.run(["git", "apply", "--unsafe-paths", "--directory", tmp, os.path.join(d, "patch.diff")], cwd="/", capture_output=True, text=True)
        if p.returncode:
            p = subprocess.run(["patch", "-p1", "-s", "-i", os.path.join(d, "patch.diff")], cwd=tmp, capture_output=True, text=True)
            if p.returncode:
                return name, prop, None, "patch does not apply: " + p.stderr[:200]
        with open(os.path.join(VERIF, "jfg", "specmod.py")) as f:
            spec = f.read()
        rs = ob.run_obligations(ob.Ctx(tmp, spec))
    finally:
        shutil.rmtree(tmp)
    bad = sorted({p for r in rs if r.status == "violated" for p in r.ob.props})
    und = sorted({r.key for r in rs if r.status == "undecided"})
    return name, prop, bad, ", ".join(und)


def main():
    root = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    names = sorted(os.listdir(os.path.join(VERIF, "seeded")))
    missed = 0
    with multiprocessing.Pool(maxtasksperchild=24) as pool:
        for name, prop, bad, note in pool.imap(one, [(root, n) for n in names]):
            ok = bad is not None and prop in bad
            missed += not ok
            print("caught" if ok else "MISSED", name, prop, bad, note)
    print(len(names), "planted,", missed, "missed")


if __name__ == "__main__":
    main()
