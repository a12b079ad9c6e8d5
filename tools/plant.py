"""Plant a bug in a scratch copy of /repo, confirm it and keep it below /verif/seeded.

plant(id, property, needs, breaks, [(file, old, new[, count])...], demo_source)
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/s/repo"
BASE = "54899f1"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
DEMO_SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export SCRATCH="$scratch"
/opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, encoding="latin-1", **kw)


def fresh():
    os.makedirs("/tmp/s", exist_ok=True)
    if os.path.isdir(S):
        shutil.rmtree(S)
    subprocess.run(["cp", "-a", os.environ.get("MC_SRC", "/repo"), S], check=True)


def build():
    return sh("%s -W ignore setup.py -q build_ext --inplace --force" % PY, cwd=S, env=ENV)


def demo(d):
    try:
        return sh("bash %s/demo.sh" % d, cwd=S, env=ENV, timeout=300)
    except subprocess.TimeoutExpired:
        class R: returncode, stdout, stderr = 124, "", "timeout"
        return R


def stable_missing():
    env = dict(ENV, PYTHONPATH=S)
    w = "/tmp/s/w"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh("timeout -k 10 400 %s -m pytest -q -p no:cacheprovider --maxfail=0 -n 4 --timeout=45 "
       "--continue-on-collection-errors --basetemp=%s/tmp -o junit_family=xunit2 --junitxml=%s/j.xml tests" % (PY, w, w),
       cwd=S, env=env)
    sh("%s /opt/vp/results.py %s/o.json junit:%s/j.xml" % (PY, w, w), env=env)
    o = json.load(open(w + "/o.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    good = set(o.get("passed") or o.get("stable") or [])
    return sorted(stable - good)


def apply(edits):
    for f, old, new, *c in edits:
        p = os.path.join(S, "gdspy", f)
        s = open(p, encoding="latin-1", newline="").read()
        n = s.count(old)
        if n != (c[0] if c else 1):
            raise SystemExit("%s: %d occurrences of %r" % (f, n, old))
        open(p, "w", encoding="latin-1", newline="").write(s.replace(old, new))


def not_original(diff):
    """Changed lines that are not lines of the original repository."""
    out, f, base, any_minus = [], None, set(), False
    for l in diff.splitlines():
        if l.startswith("--- "):
            f = l[6:]
            base = set(x.strip() for x in sh("git show %s:%s" % (BASE, f), cwd=S).stdout.splitlines())
        elif l.startswith("-"):
            any_minus = True
            if l[1:].strip() and l[1:].strip() not in base:
                out.append(l)
    return out if any_minus else ["only additions"]


def plant(id, prop, needs, breaks, edits, demo_src, tests=True, check=True, also=()):
    d = os.path.join(VERIF, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    open(d + "/demo.py", "w").write(demo_src)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(d + "/meta.json", "w"), indent=1)
    fresh()
    r0 = demo(d)
    apply(edits)
    diff = sh("git diff", cwd=S).stdout
    open(d + "/patch.diff", "w", encoding="latin-1", newline="").write(diff)
    if any(e[0].endswith("pp") for e in edits):
        b = build()
        if b.returncode:
            print(b.stderr[-2000:])
    r1 = demo(d)
    ok = r0.returncode == 0 and r1.returncode not in (0, 124)
    new = not_original(diff)
    if new:
        print("   changes lines added by fixes:", new[:3])
        ok = False
    miss = stable_missing() if tests else []
    print("%s: demo clean=%d planted=%d, missing stable tests %s" % (id, r0.returncode, r1.returncode, miss[:5]))
    if r0.returncode:
        print(r0.stdout[-800:], r0.stderr[-800:])
    elif r1.returncode == 0:
        print("demo does not fail")
    ok = ok and not miss
    if check:
        for c in (prop,) + tuple(also):
            rc = sh("bash %s/check.sh %s quick" % (VERIF, c), env=dict(ENV, MC_REPO=S))
            out = [l for l in rc.stdout.splitlines() if "VIOLATION" in l]
            print("   check %s: rc %d %s" % (c, rc.returncode, "CAUGHT" if rc.returncode == 1 and out else "MISSED"))
            for l in rc.stdout.splitlines()[:0 if out else 5]:
                print("     ", l[:200])
    if not ok:
        shutil.rmtree(d)
        print("   NOT KEPT")
    sys.stdout.flush()
    return ok
