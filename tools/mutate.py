"""Mutation run: which small changes of the code a check exercises does it miss?

usage: mutate.py PROP [--n N] [--seed S] [--jobs J] [--file SUBSTR] [--out FILE]
Works in scratch copies under /tmp/mut; never touches /repo.  Prints the survivors.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
REPO = Path("/repo")
CMP = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "NotEq": "==", "Is": "is not",
       "IsNot": "is", "In": "not in", "NotIn": "in"}
BIN = {"Add": "-", "Sub": "+", "Mult": "/", "Div": "*", "Mod": "*", "FloorDiv": "*", "MatMult": None, "Pow": "*"}


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    b = src.encode()

    def pos(l, c):
        return off[l - 1] + c

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def put(a, z, new):
        return (b[:a] + new.encode() + b[z:]).decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                and n.func.value.id in ("Console", "plt", "ax", "logging"):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and "plot" in n.name:
            for m in ast.walk(n):
                skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, z = span(n.left)[1], span(n.comparators[0])[0]
            new = CMP.get(type(n.ops[0]).__name__)
            if new:
                yield n.lineno, "cmp -> %s" % new, put(a, z, " %s " % new)
        elif isinstance(n, ast.BinOp):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            if isinstance(n.right, ast.Constant) and isinstance(n.right.value, str):
                continue
            new = BIN.get(type(n.op).__name__)
            if new:
                a, z = span(n.left)[1], span(n.right)[0]
                mid = b[a:z].decode()
                old = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Mod": "%", "FloorDiv": "//", "Pow": "**"}[
                    type(n.op).__name__]
                k = mid.find(old)
                if k >= 0:
                    yield n.lineno, "%s -> %s" % (old, new), put(a, z, mid[:k] + new + mid[k + len(old):])
        elif isinstance(n, ast.BoolOp):
            a, z = span(n.values[0])[1], span(n.values[1])[0]
            mid = b[a:z].decode()
            w, v = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if w in mid and len(n.values) == 2:
                yield n.lineno, "%s -> %s" % (w, v), put(a, z, mid.replace(w, v, 1))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, z = span(n)
            o = span(n.operand)
            yield n.lineno, "drop unary", put(a, o[0], " ")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None \
                and n.value is not Ellipsis:
            a, z = span(n)
            v = n.value
            if isinstance(v, bool):
                yield n.lineno, "%s -> %s" % (v, not v), put(a, z, str(not v))
            elif isinstance(v, int):
                yield n.lineno, "%d -> %d" % (v, v + 1), put(a, z, str(v + 1))
            elif isinstance(v, float):
                w = v * 1.5 if v else 1.0
                yield n.lineno, "%r -> %r" % (v, w), put(a, z, repr(w))
        elif isinstance(n, (ast.If, ast.While)):
            a, z = span(n.test)
            yield n.lineno, "negate condition", put(a, z, "not (%s)" % b[a:z].decode())
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or id(n.value) in skip):
                continue
            a, z = span(n)
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.col_offset == 0:
                continue
            yield n.lineno, "delete statement", put(a, z, "pass")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--n", type=int, default=60)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--file", default="")
    ap.add_argument("--out", default="")
    a = ap.parse_args()
    root = Path("/tmp/mut") / a.prop
    shutil.rmtree(root, ignore_errors=True)
    root.mkdir(parents=True)
    props = [json.loads(x) for x in (VERIF / "properties.jsonl").read_text().splitlines()]
    p = [x for x in props if x["id"] == a.prop][0]
    files = sorted({m["file"] if isinstance(m, dict) else m for m in (
        p.get("anchors") or p.get("files") or [])}) if not isinstance(p.get("anchors"), dict) else []
    import runpy
    P = runpy.run_path(str(VERIF / "tools" / "props.py"))["P"]
    files = [f for f in [x for x in P if x["id"] == a.prop][0]["files"] if a.file in f]
    workers = []
    for j in range(a.jobs):
        w = root / str(j)
        w.mkdir()
        subprocess.check_call(["cp", "-a", str(VERIF), str(w / "verif")])
        shutil.rmtree(w / "verif" / ".git", ignore_errors=True)
        shutil.rmtree(w / "verif" / "seeded", ignore_errors=True)
        subprocess.check_call(["cp", "-a", str(REPO), str(w / "repo")])
        workers.append(w)

    def run(w, extra=None):
        env = dict(os.environ, VERIF_REPO=str(w / "repo"), VERIF_SEED="1", VERIF_TIER="quick", **(extra or {}))
        try:
            q = subprocess.run(["bash", str(w / "verif" / "run_check.sh"), a.prop], env=env, timeout=400,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return q.returncode, q.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return 99, "timeout"
    cov = root / "cov.txt"
    rc, txt = run(workers[0], {"PBT_COV": str(cov)})
    if rc:
        print("check is not quiet", txt[-400:])
        return 1
    seen = {}
    for ln in cov.read_text().splitlines():
        f, _, n = ln.rpartition(":")
        seen.setdefault("src/" + f, set()).add(int(n))
    todo = []
    for f in files:
        src = (REPO / f).read_text()
        ms = [m for m in mutants(src) if m[0] in seen.get(f, ())]
        todo += [(f,) + m for m in ms]
    random.Random(a.seed).shuffle(todo)
    total = len(todo)
    todo = todo[:a.n]
    free = list(workers)
    res = []

    def job(m):
        w = free.pop()
        try:
            f, line, desc, new = m
            t = w / "repo" / f
            old = t.read_text()
            try:
                compile(new, f, "exec")
                t.write_text(new)
                rc, txt = run(w)
            except SyntaxError:
                rc, txt = -1, ""
            finally:
                t.write_text(old)
            return f, line, desc, rc, (REPO / f).read_text().split("\n")[line - 1].strip()
        finally:
            free.append(w)
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(job, todo):
            res.append(r)
            if r[3] not in (1, -1):
                print("SURVIVED rc=%d %s:%d %s | %s" % (r[3], r[0], r[1], r[2], r[4]), flush=True)
    k = sum(r[3] == 1 for r in res)
    print("%s: %d of %d mutants caught (%d possible)" % (a.prop, k, sum(r[3] != -1 for r in res), total))
    shutil.rmtree(root, ignore_errors=True)


sys.exit(main())
