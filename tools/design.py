"""Rewrite the generated part of DESIGN.md: groups of each check and seeded bugs (no part of any check)."""
import glob
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
MARK = "<!-- generated by tools/design.py -->"


def groups():
    out = ["| check | group | bound (quick tier) | cases |", "|---|---|---|---|"]
    for f in sorted(glob.glob(V + "/evidence/C??.json")):
        c = json.load(open(f))["coverage"]
        for g, b in c["bounds"].items():
            out.append("| %s | %s | %s | %s |" % (os.path.basename(f)[:3], g, b.replace("|", "/"), c["cases_per_group"].get(g, "")))
    return out


def seeds():
    by = {}
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(f))
        by.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["what_it_breaks"]))
    out = ["| caught by | seeded bug | what it breaks |", "|---|---|---|"]
    for p in sorted(by):
        for i, w in sorted(by[p]):
            out.append("| %s | `%s` | %s |" % (p, i, w.replace("|", "/")))
    return out


if __name__ == "__main__":
    p = V + "/DESIGN.md"
    s = open(p).read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n\n"
    s += "## Groups of cases\n\nTaken from the evidence of the last quick runs.\n\n" + "\n".join(groups()) + "\n\n"
    s += "## Seeded bugs and the checks that catch them\n\nEvery one is caught by the quick tier of the check named (exit 1 and its VIOLATION line).\n\n"
    s += "\n".join(seeds()) + "\n"
    open(p, "w").write(s)
