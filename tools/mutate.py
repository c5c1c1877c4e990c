#!/usr/bin/env python3
"""Development aid: mutate proadv in a scratch copy and see which mutants that pass the tests the checks miss.

    tools/mutate.py FILE-SUBSTRING [scale] [max]     e.g. tools/mutate.py series.py 0.5
Prints survivors. Never touches /repo.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    "replacements.py": "R01 R02 R03 R04 R05 R06 R07", "acceleration.py": "D01", "phasespace.py": "D02 D03", "correlation.py": "D04", "poincare.py": "D04",
    "spherical.py": "D05", "trivariatekernel.py": "D06 D07", "bivariatekernel.py": "D07", "kernel/bivariate.py": "D08 D07", "pollution.py": "D09",
    "descriptive.py": "S01 S02 S03", "spread.py": "S04", "moment.py": "S05", "series.py": "S06 S07 S08 S09 S10", "normal.py": "S11 S12",
    "optimize.py": "S13 S14", "fluid.py": "S15", "synthetic.py": "S16", "spectrum.py": "S17", "butter.py": "S18 S19 S20 S21",
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.MatMult: []}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    docs = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))

    def make(i, f, what):
        t = copy.deepcopy(tree)
        m = list(ast.walk(t))[i]
        f(m)
        ast.fix_missing_locations(t)
        try:
            return nodes[i].lineno if hasattr(nodes[i], "lineno") else 0, what, ast.unparse(t)
        except Exception:  # noqa: BLE001
            return None
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    yield make(i, lambda m, k=k, new=new: m.ops.__setitem__(k, new()), "%s -> %s in %s" % (type(op).__name__, new.__name__, ast.unparse(n)))
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                yield make(i, lambda m, new=new: setattr(m, "op", new()), "%s -> %s in %s" % (type(n.op).__name__, new.__name__, ast.unparse(n)[:90]))
        if isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield make(i, lambda m, new=new: setattr(m, "op", new()), "and/or in %s" % ast.unparse(n)[:90])
            for k in range(len(n.values)):
                yield make(i, lambda m, k=k: m.values.pop(k), "drop operand %d of %s" % (k, ast.unparse(n)[:90]))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield make(i, lambda m: setattr(m, "op", ast.UAdd()), "drop minus in %s" % ast.unparse(n)[:60])
        if isinstance(n, ast.Constant) and id(n) not in docs and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            for v in ([n.value + 1, n.value - 1] if isinstance(n.value, int) else [n.value * 1.1, n.value * 0.5]):
                yield make(i, lambda m, v=v: setattr(m, "value", v), "const %r -> %r" % (n.value, v))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield make(i, lambda m: setattr(m, "value", not m.value), "flip %r" % n.value)
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and ast.unparse(n.func).split(".")[-1] in ("abs", "copy", "sqrt", "sort", "sorted", "ravel", "conj", "real", "asarray", "array", "unique", "log"):
            def rep(m):
                a = m.args[0]
                m.func = ast.Lambda(ast.arguments([], [ast.arg("q_")], None, [], [], None, []), ast.Name("q_", ast.Load()))
                m.args = [a]
            yield make(i, rep, "identity for %s" % ast.unparse(n)[:80])
        if isinstance(n, ast.Call) and len(n.args) == 2 and ast.unparse(n.func).split(".")[-1] in ("arctan2", "maximum", "minimum", "max", "min", "append"):
            yield make(i, lambda m: setattr(m, "args", m.args[::-1]), "swap args of %s" % ast.unparse(n)[:80])
            if ast.unparse(n.func).split(".")[-1] in ("maximum", "minimum", "max", "min"):
                for k in (0, 1):
                    def pick(m, k=k):
                        a = m.args[k]
                        m.func = ast.Lambda(ast.arguments([], [ast.arg("q_")], None, [], [], None, []), ast.Name("q_", ast.Load()))
                        m.args = [a]
                    yield make(i, pick, "only arg %d of %s" % (k, ast.unparse(n)[:80]))
        if isinstance(n, (ast.FunctionDef, ast.For, ast.While, ast.If)):
            for fld in ("body", "orelse"):
                for k, s in enumerate(getattr(n, fld, []) or []):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Raise, ast.If, ast.For)) or (isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant)):
                        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                            continue
                        yield make(i, lambda m, k=k, fld=fld: getattr(m, fld).__setitem__(k, ast.Pass()), "delete line %d: %s" % (s.lineno, ast.unparse(s)[:80].replace("\n", " ")))
        if isinstance(n, ast.If):
            yield make(i, lambda m: setattr(m, "test", ast.Constant(False)), "never: %s" % ast.unparse(n.test)[:80])
        if isinstance(n, ast.Slice):
            for fld in ("lower", "upper"):
                if getattr(n, fld) is not None:
                    yield make(i, lambda m, fld=fld: setattr(m, fld, ast.BinOp(getattr(m, fld), ast.Add(), ast.Constant(1))), "%s+1 in slice %s" % (fld, ast.unparse(n)))


def run_one(job):
    path, line, what, text, props, scale = job
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree("/repo/proadv", d + "/proadv")
        os.symlink("/repo/dataset", d + "/dataset")
        with open(os.path.join(d, path), "w") as fh:
            fh.write(text)
        env = dict(os.environ, VERIF_REPO=d, VERIF_WORKERS="1", VERIF_SCALE=str(scale), VERIF_OUT=d + "/out", PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "proadv"], cwd=d, env=env, capture_output=True, text=True, timeout=120)
            if t.returncode != 0:
                return "tests", line, what
        except subprocess.TimeoutExpired:
            return "tests", line, what
        for p in props:
            try:
                r = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), p], env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return "timeout " + p, line, what
            if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                return "caught " + p, line, what
            if r.returncode != 0:
                return "ERROR %s rc=%d %s" % (p, r.returncode, (r.stderr or r.stdout)[-300:]), line, what
        return "SURVIVED", line, what
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    key = sys.argv[1]
    scale = float(sys.argv[2]) if len(sys.argv) > 2 else 0.25
    cap = int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9
    jobs = []
    for root, _, files in os.walk("/repo/proadv"):
        for f in files:
            path = os.path.relpath(os.path.join(root, f), "/repo")
            if f.endswith(".py") and "tests" not in path and key in path:
                pk = next((k for k in PROPS if path.endswith(k) and "/" in k), None) or (f if f in PROPS else None)
                if pk is None:
                    continue
                src = open(os.path.join("/repo", path)).read()
                base = ast.unparse(ast.parse(src))
                for m in mutants(src):
                    if m and m[2] != base:
                        jobs.append((path, m[0], m[1], m[2], PROPS[pk].split(), scale))
    random.Random(1).shuffle(jobs)
    jobs = jobs[:cap]
    n = {}
    with ThreadPoolExecutor(8) as ex:
        for job, (v, line, what) in zip(jobs, ex.map(run_one, jobs)):
            n[v.split()[0]] = n.get(v.split()[0], 0) + 1
            if not v.startswith(("tests", "caught")):
                print("%s %s:%d %s" % (v, job[0], line, what), flush=True)
    print(key, json.dumps(n))


if __name__ == "__main__":
    main()
