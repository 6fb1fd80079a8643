#!/usr/bin/env python3
"""mutants.py [--n N] [--seed S] [--lines A-B] FILE PROPERTY...: small changes to FILE of objutils which the stable tests
do not notice, and whether the checks of the properties notice them (on scratch copies; for strengthening the checks)."""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Mod: "//", ast.FloorDiv: "%", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|", ast.LShift: ">>", ast.RShift: "<<"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()) + 1)
    raw = src.encode()
    out = []

    def at(line, col):
        return starts[line - 1] + col

    def span(n):
        return at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)

    def put(n, a, b, text, what):
        out.append((n.lineno, what, raw[:a] + text.encode() + raw[b:]))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            gap = raw[a:b].decode()
            if "(" in gap or ")" in gap or "\n" in gap:
                continue
            put(n, a, b, f" {CMP[type(n.ops[0])]} ", f"compare -> {CMP[type(n.ops[0])]}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            gap = raw[a:b].decode()
            if "(" in gap or ")" in gap or "\n" in gap:
                continue
            put(n, a, b, f" {BIN[type(n.op)]} ", f"operator -> {BIN[type(n.op)]}")
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            a, b = span(n.target)[1], span(n.value)[0]
            put(n, a, b, f" {BIN[type(n.op)]}= ", f"operator -> {BIN[type(n.op)]}=")
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            gap = raw[a:b].decode()
            if "(" in gap or ")" in gap or len(n.values) > 2:
                continue
            put(n, a, b, " or " if isinstance(n.op, ast.And) else " and ", "and <-> or")
            x, y = span(n)
            for k in (0, 1):
                p, q = span(n.values[k])
                put(n, x, y, raw[p:q].decode(), "operand dropped")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            p, q = span(n.operand)
            put(n, a, b, f"({raw[p:q].decode()})", "not removed")
        elif isinstance(n, ast.Constant) and n not in doc:
            a, b = span(n)
            if isinstance(n.value, bool):
                put(n, a, b, str(not n.value), f"{n.value} -> {not n.value}")
            elif isinstance(n.value, int):
                for v in (n.value + 1, n.value - 1) if n.value else (1,):
                    put(n, a, b, f"({v})" if v < 0 else str(v), f"{n.value} -> {v}")
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            t = raw[a:b].decode()
            if isinstance(n, ast.If):
                put(n, a, b, "True", f"if {t[:40]} -> True")
            put(n, a, b, "False", f"if {t[:40]} -> False")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            a, b = span(n)
            put(n, a, b, "pass", f"deleted: {raw[a:b].decode()[:60]}")
        elif isinstance(n, ast.Return) and n.value is not None:
            a, b = span(n.value)
            put(n, a, b, "None", "return None")
        elif isinstance(n, ast.IfExp):
            a, b = span(n)
            for k in (n.body, n.orelse):
                p, q = span(k)
                put(n, a, b, f"({raw[p:q].decode()})", "one branch")
    return out


def tests_pass(repo, tag):
    x, o = os.path.join(repo, f"../{tag}.xml"), os.path.join(repo, f"../{tag}.json")
    env = dict(os.environ, PATH="/opt/venv/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1")
    try:
        subprocess.run(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 -o junit_family=xunit2 --junitxml={x} objutils/tests", cwd=repo, shell=True, env=env, capture_output=True, timeout=200)
        subprocess.run(f"/usr/bin/python3 /opt/vp/results.py {o} junit:{x}", cwd=repo, shell=True, capture_output=True, timeout=60)
        passed = set(json.load(open(o))["passed"])
    except Exception:
        return False
    return all(t in passed for t in BASE)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--n", type=int, default=40)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--lines", default="")
    p.add_argument("--skip", default="__version__|__copyright__|print|logger|logging|__repr__|__str__")
    p.add_argument("file")
    p.add_argument("props", nargs="+")
    a = p.parse_args()
    import re

    src = open(os.path.join("/repo", a.file)).read()
    ms = mutants(src)
    lines = src.split("\n")
    lo, hi = map(int, a.lines.split("-")) if a.lines else (1, len(lines))
    ms = [m for m in ms if lo <= m[0] <= hi and not re.search(a.skip, lines[m[0] - 1])]
    random.Random(a.seed).shuffle(ms)
    w = tempfile.mkdtemp(prefix="mut-")
    try:
        repos = []
        for k in range(8):
            r = os.path.join(w, f"r{k}", "repo")
            os.makedirs(os.path.dirname(r))
            shutil.copytree("/repo", r, symlinks=True)
            repos.append(r)
        pool = ThreadPoolExecutor(8)
        survivors, tried = [], 0

        def attempt(m, r):
            try:
                compile(m[2], a.file, "exec")
            except SyntaxError:
                return False
            with open(os.path.join(r, a.file), "wb") as f:
                f.write(m[2])
            return tests_pass(r, "t")

        while ms and len(survivors) < a.n:
            batch, ms = ms[:8], ms[8:]
            ok = list(pool.map(attempt, batch, repos))
            tried += len(batch)
            survivors += [m for m, k in zip(batch, ok) if k]
        survivors = survivors[: a.n]
        print(f"{a.file}: {tried} changes tried, {len(survivors)} unnoticed by the tests", flush=True)
        missed = 0
        for line, what, text in sorted(survivors, key=lambda m: m[0]):
            with open(os.path.join(repos[0], a.file), "wb") as f:
                f.write(text)
            got = ""
            for q in a.props:
                try:
                    c = subprocess.run([os.path.join(HERE, "run.py"), q, "quick"], env=dict(os.environ, VT_REPO=repos[0]), capture_output=True, text=True, timeout=600)
                    if c.returncode:
                        got = f"{q}:{c.returncode}"
                        break
                except subprocess.TimeoutExpired:
                    got = f"{q}:timeout"
                    break
            missed += not got
            print(f"{'caught ' + got if got else 'MISSED'} {line}: {what} | {lines[line - 1].strip()[:100]}", flush=True)
        print(f"{a.file}: {missed} of {len(survivors)} missed", flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    main()
