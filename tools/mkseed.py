"""Turn a definition file into seeded/<id>/ and confirm it: mkseed.py DEF.py [...].

A definition sets ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)...] and DEMO (python source). The change is applied to
/repo, built, tested and demonstrated there, and undone before the files are written.
"""

import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO_SH = """#!/bin/bash
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(path):
    d = {}
    exec(compile(open(path).read(), path, "exec"), d)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo is not clean"
    out = os.path.join(VERIF, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write(DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    with open(os.path.join(out, "demo.py"), "w") as f:
        f.write(d["DEMO"].lstrip("\n"))
    with open(os.path.join(out, "meta.json"), "w") as f:
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, f, indent=1)
        f.write("\n")
    demo = os.path.join(out, "demo.sh")
    clean = sh(f"bash {demo}", cwd=REPO)
    msg = [] if clean.returncode == 0 else ["DEMO FAILS ON CLEAN TREE: " + (clean.stdout + clean.stderr)[-600:]]
    try:
        for rel, old, new in d["EDITS"]:
            p = os.path.join(REPO, rel)
            s = open(p).read()
            assert s.count(old) == 1, (rel, s.count(old), old)
            with open(p, "w") as f:
                f.write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(diff)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            msg.append("BUILD: " + b.stderr[-400:])
        demo_r = sh(f"bash {demo}", cwd=REPO)
        if demo_r.returncode == 0:
            msg.append("DEMO PASSES WITH THE BUG: " + demo_r.stdout[-400:])
        sh("bash /opt/vp/test.sh /tmp/seeds/out.json")
        res = json.load(open("/tmp/seeds/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        msg += check_tests(base, res)
        props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
        hit = []
        for p in props:
            r = sh(f"python3 -m jfg.check {p} --no-evidence", cwd=VERIF)
            if r.returncode == 1:
                hit.append(p)
        own = d["PROPERTY"] in hit
        print(d["ID"], d["PROPERTY"], "CAUGHT" if own else "MISSED", "by", hit, *msg, "|", (demo_r.stdout + demo_r.stderr).strip().splitlines()[-1:] if demo_r.returncode else "")
    finally:
        sh("git -C /repo checkout -- .")


def check_tests(base, res):
    def passed(x):
        if isinstance(x, dict):
            for k in ("passed", "pass", "stable", "stable_pass"):
                if k in x:
                    return set(x[k])
        return None

    b, r = passed(base), passed(res)
    if b is None or r is None:
        return [f"unknown result format {list(base)[:5]} {list(res)[:5]}"]
    miss = b - r
    return [f"TESTS FAIL: {sorted(miss)[:3]}"] if miss else []


if __name__ == "__main__":
    for a in sys.argv[1:]:
        main(a)
