"""Mutation campaign: which small changes of the library survive both the tests and the checks?

mutate.py FILE START-END CHECK[,CHECK...] [--stride N] [--workers N] [--out LOG] [--offset K]

Scratch tool, no part of any check: works on copies of /repo and /verif below /tmp/mut.
"""
import argparse
import ast
import json
import multiprocessing
import os
import shutil
import subprocess

BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "*", ast.Pow: "*",
       ast.FloorDiv: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.RShift: "<<", ast.LShift: ">>"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.FloorDiv: "//",
       ast.BitAnd: "&", ast.BitOr: "|", ast.RShift: ">>", ast.LShift: "<<",
       ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in", ast.And: "and", ast.Or: "or"}


def mutants(src, lo, hi):
    lines = src.splitlines(keepends=True)
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()))
    data = src.encode()

    def pos(l, c):
        return start[l - 1] + c

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def add(a, b, new, line, what):
        old = data[a:b].decode()
        if old != new:
            out.append((a, b, new, line, "%s -> %s (%s)" % (" ".join(old.split())[:60], new[:60], what)))

    def between(n1, n2, old, new, line, what):
        a, b = span(n1)[1], span(n2)[0]
        i = data[a:b].decode().find(old)
        if i >= 0:
            add(a + i, a + i + len(old), new, line, what)

    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
            docs.add(n.body[0])
    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or not lo <= n.lineno <= hi or n in docs:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            between(n.left, n.right, OPS[type(n.op)], BIN[type(n.op)], n.lineno, "op")
        elif isinstance(n, ast.Compare):
            prev = n.left
            for op, c in zip(n.ops, n.comparators):
                between(prev, c, OPS[type(op)], CMP[type(op)], n.lineno, "cmp")
                prev = c
        elif isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                between(x, y, OPS[type(n.op)], "or" if isinstance(n.op, ast.And) else "and", n.lineno, "bool")
            a, b = span(n)
            add(a, b, data[span(n.values[0])[0]:span(n.values[0])[1]].decode(), n.lineno, "first only")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = span(n)
            c, d = span(n.operand)
            add(a, b, "(" + data[c:d].decode() + ")", n.lineno, "drop unary")
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            if n.value is True or n.value is False:
                add(a, b, str(not n.value), n.lineno, "const")
            elif isinstance(n.value, (int, float)):
                for v in ((n.value + 1, n.value - 1) if isinstance(n.value, int) else (n.value * 2, -n.value)):
                    add(a, b, "(%r)" % v if v < 0 else repr(v), n.lineno, "const")
        elif isinstance(n, ast.If):
            a, b = span(n.test)
            add(a, b, "True", n.lineno, "if")
            add(a, b, "False", n.lineno, "if")
        elif isinstance(n, ast.IfExp):
            a, b = span(n)
            add(a, b, "(" + data[slice(*span(n.body))].decode() + ")", n.lineno, "ifexp")
            add(a, b, "(" + data[slice(*span(n.orelse))].decode() + ")", n.lineno, "ifexp")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Raise, ast.Break, ast.Continue)):
            a, b = span(n)
            add(a, b, "pass", n.lineno, "drop")
        if isinstance(n, ast.Call):
            for x, y in zip(n.args, n.args[1:]):
                if not isinstance(x, ast.Starred) and not isinstance(y, ast.Starred):
                    a, b = span(x)[0], span(y)[1]
                    add(a, b, data[slice(*span(y))].decode() + data[span(x)[1]:span(y)[0]].decode()
                        + data[slice(*span(x))].decode(), n.lineno, "swap")
            f = data[slice(*span(n.func))].decode()
            if f.rsplit(".", 1)[-1] in ("deepcopy", "copy", "array", "list", "tuple", "abs", "round", "set", "sorted") and len(n.args) == 1:
                a, b = span(n)
                add(a, b, "(" + data[slice(*span(n.args[0]))].decode() + ")", n.lineno, "unwrap")
    out.sort()
    return data, out


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def work(job):
    file, data, mut, checks = job
    me = "/tmp/mut/w%d" % os.getpid()
    if not os.path.exists(me):
        subprocess.run(["cp", "-a", "/repo", me], check=True)
    f = os.path.join(me, "gdspy", file)
    a, b, new, line, what = mut
    open(f, "wb").write(data[:a] + new.encode() + data[b:])
    try:
        r = subprocess.run("nice -n 19 timeout 60 /opt/venv/bin/python -W ignore -m pytest -q -x -p no:cacheprovider --timeout=30 "
                           "--basetemp=%s-t tests" % me, shell=True, cwd=me, env=dict(ENV, PYTHONPATH=me), capture_output=True)
        if r.returncode:
            return line, what, "tests"
        for c in checks:
            try:
                r = subprocess.run("nice -n 19 ./check.sh %s quick" % c, shell=True, cwd="/tmp/mut/verif", capture_output=True, text=True,
                                   env=dict(ENV, MC_REPO=me, MC_NPROC="1", MC_MAXFAIL="1", MC_CASE_LIMIT="60"), timeout=1500)
            except subprocess.TimeoutExpired:
                return line, what, "timeout " + c
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return line, what, c
            if r.returncode:
                return line, what, "NOANSWER %s %s" % (c, r.stderr[-200:])
        return line, what, "SURVIVED"
    finally:
        open(f, "wb").write(data)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("range")
    ap.add_argument("checks")
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--out", default="/tmp/mut/log")
    a = ap.parse_args()
    src = open("/repo/gdspy/" + a.file, newline="").read()
    lo, hi = map(int, a.range.split("-"))
    data, ms = mutants(src, lo, hi)
    ms = ms[a.offset::a.stride]
    shutil.rmtree("/tmp/mut/verif", ignore_errors=True)
    subprocess.run("mkdir -p /tmp/mut && cp -a /verif /tmp/mut/verif && rm -rf /tmp/mut/verif/.git /tmp/mut/verif/seeded",
                   shell=True, check=True)
    n = {}
    with multiprocessing.Pool(a.workers) as pool, open(a.out, "a") as log:
        jobs = ((a.file, data, m, a.checks.split(",")) for m in ms)
        for line, what, res in pool.imap_unordered(work, jobs):
            n[res.split()[0]] = n.get(res.split()[0], 0) + 1
            log.write("%s:%d %s: %s\n" % (a.file, line, what, res))
            log.flush()
        log.write("%s %s: %s\n" % (a.file, a.range, json.dumps(n)))
    subprocess.run("rm -rf /tmp/mut/w*", shell=True)


main()
