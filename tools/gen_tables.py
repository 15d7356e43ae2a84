"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""

import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    rows = ["| planted bug | property | what it breaks | needs | caught |", "| --- | --- | --- | --- | --- |"]
    metas = []
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        with open(os.path.join(HERE, "seeded", d, "meta.json")) as f:
            metas.append((d, json.load(f)))
    missed = set()
    path = os.path.join(HERE, "seeded-missed.txt")
    if os.path.exists(path):
        with open(path) as f:
            missed = set(f.read().split())
    for d, m in sorted(metas, key=lambda x: (x[1]["property"], x[0])):
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {'no' if d in missed else 'yes'} |")
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        s = f.read()
    s = re.sub(r"(<!-- seeded:begin -->\n).*?(<!-- seeded:end -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s, flags=re.S)
    with open(path, "w") as f:
        f.write(s)
    print(len(metas), "planted bugs")


if __name__ == "__main__":
    main()
