"""Simple mutants of the package against the stable tests and the checks: python3 tools/mutate.py OUT [CHECK ...]

Phase 1 writes every mutant (one changed node of the syntax tree) that passes the stable tests to OUT/<n>/; phase 2 runs the checks on
each until one reports a violation, and lists those that none reports in OUT/survivors. Nothing in /repo is changed.
"""
import ast
import concurrent.futures
import copy
import glob
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.abspath(sys.argv[1])
CHECKS = sys.argv[2:] or ["C01", "C02", "C03", "C14", "C04", "C12", "C13", "C15", "C16", "C18", "C07", "C05", "C11", "C20", "C21", "C23", "C10", "C06", "C08", "C17", "C19", "C22", "C09"]
CMP = {ast.Eq: [ast.NotEq, ast.Is], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is, ast.NotEq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def is_doc(parent, node):
    return isinstance(parent, ast.Expr)


def variants(node, parent):
    """Replacements for one node."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for op in CMP.get(type(node.ops[0]), []):
            new = copy.deepcopy(node)
            new.ops = [op()]
            yield new
    if isinstance(node, ast.BoolOp):
        new = copy.deepcopy(node)
        new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield new
        for k in range(len(node.values)):
            new = copy.deepcopy(node)
            del new.values[k]
            yield new if len(new.values) > 1 else new.values[0]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield node.operand
    if isinstance(node, ast.BinOp):
        for op in (ast.Add, ast.Sub):
            if type(node.op) in (ast.Add, ast.Sub) and op is not type(node.op):
                new = copy.deepcopy(node)
                new.op = op()
                yield new
        if type(node.op) in (ast.Add, ast.Sub):
            yield node.left
    if isinstance(node, (ast.If, ast.IfExp)):
        for v in (True, False):
            new = copy.deepcopy(node)
            new.test = ast.Constant(v)
            yield new
    if isinstance(node, ast.Constant) and not is_doc(parent, node):
        v = node.value
        if v is True or v is False:
            yield ast.Constant(not v)
        elif v is None:
            yield ast.Constant("")
        elif isinstance(v, int):
            yield ast.Constant(v + 1)
            yield ast.Constant(v - 1)
        elif isinstance(v, str) and not isinstance(parent, (ast.JoinedStr, ast.FormattedValue)) and len(v) < 90:
            for k in range(len(v)):
                yield ast.Constant(v[:k] + v[k + 1:])
                yield ast.Constant(v[:k + 1] + v[k:])
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        yield ast.Pass()
    if isinstance(node, ast.Call) and len(node.args) > 1:
        for k in range(len(node.args) - 1):
            new = copy.deepcopy(node)
            new.args[k], new.args[k + 1] = new.args[k + 1], new.args[k]
            yield new
    if isinstance(node, ast.Call) and node.keywords:
        for k in range(len(node.keywords)):
            new = copy.deepcopy(node)
            del new.keywords[k]
            yield new
    if isinstance(node, ast.Call) and len(node.args) == 1 and not node.keywords:
        yield node.args[0]
    if isinstance(node, ast.Tuple) and isinstance(parent, ast.Call):
        for k in range(len(node.elts)):
            new = copy.deepcopy(node)
            del new.elts[k]
            yield new
    if isinstance(node, ast.Return) and node.value is not None:
        yield ast.Return(ast.Constant(None))
    if isinstance(node, (ast.Break, ast.Continue)):
        yield ast.Pass()
        yield ast.Continue() if isinstance(node, ast.Break) else ast.Break()
    if isinstance(node, ast.Slice):
        for f in ("lower", "upper"):
            if getattr(node, f):
                new = copy.deepcopy(node)
                setattr(new, f, None)
                yield new


def mutants(path):
    src = open(path).read()
    base = ast.parse(src)
    spots = []
    for parent in ast.walk(base):
        for field, value in ast.iter_fields(parent):
            if field in ("annotation", "returns"):
                continue
            for k, child in enumerate(value if isinstance(value, list) else [value]):
                if isinstance(child, ast.AST):
                    spots.append((parent, field, k if isinstance(value, list) else None, child))
    for parent, field, k, child in spots:
        for new in variants(child, parent):
            ast.copy_location(new, child)
            if k is None:
                setattr(parent, field, new)
            else:
                getattr(parent, field)[k] = new
            try:
                text = ast.unparse(ast.fix_missing_locations(base))
            except Exception:
                text = None
            if k is None:
                setattr(parent, field, child)
            else:
                getattr(parent, field)[k] = child
            if text:
                what = "line %s: %s -> %s" % (getattr(child, "lineno", "?"), " ".join(ast.unparse(child).split())[:90] if hasattr(child, "lineno") or True else "", " ".join(ast.unparse(new).split())[:90])
                yield text, what


def phase1(job):
    n, name, text, what = job
    d = os.path.join(OUT, str(n))
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    open(os.path.join(d, "sqlparams", name), "w").write(text)
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=60)
        alive = r.returncode == 0 and "257 passed" in r.stdout
    except subprocess.TimeoutExpired:
        alive = False
    if not alive:
        shutil.rmtree(d)
        return None
    json.dump({"file": name, "what": what}, open(os.path.join(d, "mutant.json"), "w"))
    return n


def main():
    if not os.path.exists(OUT):
        os.makedirs(OUT)
        jobs = []
        for name in ("_styles.py", "_util.py", "__init__.py", "_converting.py"):
            for text, what in mutants("/repo/sqlparams/" + name):
                jobs.append((len(jobs), name, text, what))
        print(len(jobs), "mutants", flush=True)
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            alive = [n for n in pool.map(phase1, jobs) if n is not None]
        print(len(alive), "pass the stable tests", flush=True)
    if CHECKS == ["none"]:
        return
    for d in sorted(glob.glob(OUT + "/*/"), key=lambda d: int(os.path.basename(d[:-1]))):
        info = json.load(open(d + "mutant.json"))
        if "by" in info:
            continue
        tmp = OUT + "/evidence"
        by = None
        for c in CHECKS:
            env = dict(os.environ, VERIF_REPO=d[:-1], VERIF_EVIDENCE=tmp, VERIF_TIER="quick")
            r = subprocess.run([sys.executable, "-m", "mc", c], cwd=ROOT, env=env, capture_output=True, text=True)
            if r.returncode:
                by = c if "VIOLATION" in r.stdout else c + " rc=%d" % r.returncode
                break
        info["by"] = by
        json.dump(info, open(d + "mutant.json", "w"))
        print("%-9s %s %s: %s" % (by or "SURVIVES", d, info["file"], info["what"]), flush=True)


main()
