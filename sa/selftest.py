"""Thorough tier: how sensitive is this check on this tree?

Single-point syntactic changes (operators, constants, dropped statements, swapped branches) are made to the functions the check
analysed, each in a scratch copy of the package, and the same static check is run on the copy.  The result (how many of the
changes are refuted, left undecided or proved harmless) is evidence about the check; it never changes the verdict."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}


def sites(fn):
    """(description, apply) for every single-point change of one function"""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            out.append((n, "op", BIN[type(n.op)]))
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((n, "cmp", CMP[type(n.ops[0])]))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            out.append((n, "const", n.value + 1 if type(n.value) is int else n.value * 2 + 1))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((n, "neg", None))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name):
            out.append((n, "index", None))
    for n in ast.walk(fn):
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and len(b) > 1:
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                        out.append((n, "drop", (f, i)))
    return out


def change(node, kind, arg):
    if kind == "op":
        node.op = arg()
        return "operator -> %s" % arg.__name__
    if kind == "cmp":
        node.ops[0] = arg()
        return "comparison -> %s" % arg.__name__
    if kind == "const":
        old, node.value = node.value, arg
        return "%r -> %r" % (old, arg)
    if kind == "neg":
        node.op = ast.UAdd()
        return "minus sign dropped"
    if kind == "index":
        node.slice = ast.BinOp(node.slice, ast.Sub(), ast.Constant(1))
        return "index shifted"
    f, i = arg
    b = getattr(node, f)
    b[i] = ast.copy_location(ast.Pass(), b[i])
    return "statement dropped"


def functions(tree, rel, touched):
    names = {t[1] for t in touched if t[0] == rel}
    def walk(node, pre):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = pre + c.name
                if isinstance(c, ast.FunctionDef) and (q in names or c.name in names or q.split(".")[-1] in {x.split(".")[-1] for x in names}):
                    yield q, c
                yield from walk(c, q + ".")
    return list(walk(tree, ""))


def sensitivity(ck, fun, budget=None):
    import core
    repo = core.REPO
    if repo != os.environ.get("VERIF_REPO", "/repo") or os.environ.get("VERIF_NO_SELFTEST"):
        return None
    base = time.time() - ck.t0
    limit = (760 if budget is None else budget) - base
    if limit < 30:
        return {"note": "no time left for mutation of the analysed functions"}
    t0 = time.time()
    rng = random.Random(ck.seed)
    pool = []
    files = sorted({t[0] for t in ck.touched})
    for rel in files:
        path = rel if os.path.isabs(rel) else os.path.join(repo, rel)
        try:
            src = open(path, encoding="utf-8").read()
            tree = ast.parse(src)
        except (OSError, SyntaxError):
            continue
        for q, f in functions(tree, rel, ck.touched):
            k = len(sites(f))
            for i in range(k):
                pool.append((path, q, i))
    rng.shuffle(pool)
    res = {"refuted": 0, "proved": 0, "undecided": 0, "no answer": 0}
    listed = []
    top = tempfile.mkdtemp(prefix="verif-mut-")
    per = min(300, max(60, 4 * base))
    env = dict(os.environ, VERIF_NO_SELFTEST="1", VERIF_TIER="quick")
    try:
        for path, q, i in pool:
            if time.time() - t0 + min(per, 1.5 * base + 10) > limit:
                break
            tree = ast.parse(open(path, encoding="utf-8").read())
            f = dict((a, b) for a, b in functions(tree, "", {("", q)})).get(q)
            ss = sites(f) if f is not None else []
            if i >= len(ss):
                continue
            line = getattr(ss[i][0], "lineno", getattr(f, "lineno", 0))
            what = change(*ss[i])
            root = os.path.join(top, "r")
            shutil.copytree(os.path.join(repo, "padasip"), os.path.join(root, "padasip"), ignore=shutil.ignore_patterns("__pycache__"))
            with open(os.path.join(root, os.path.relpath(path, repo)), "w", encoding="utf-8") as o:
                o.write(ast.unparse(ast.fix_missing_locations(tree)))
            env["VERIF_REPO"], env["VERIF_EVIDENCE"] = root, os.path.join(top, "e")
            try:
                r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(HERE, "check.py"), ck.prop, "quick"], env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=max(20, limit - (time.time() - t0)))
                lines = r.stdout.decode("utf-8", "replace").splitlines()
                if r.returncode == 1:
                    v = "refuted"
                elif r.returncode == 0:
                    e = json.load(open(os.path.join(top, "e", ck.prop + ".json"), encoding="utf-8"))["coverage"]
                    v = "undecided" if len(e.get("undecided_obligations", [])) > ck_und(ck) else "proved"
                else:
                    v = "no answer"
            except subprocess.TimeoutExpired:
                v = "no answer"
            shutil.rmtree(root)
            res[v] += 1
            if len(listed) < 60:
                listed.append("%s:%s %s line %s: %s" % (os.path.relpath(path, repo), q, what, line, v))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return {"changes_made_to_analysed_functions": sum(res.values()), "possible_changes": len(pool), "outcome": res, "list": listed}


def ck_und(ck):
    return sum(1 for o in ck.obs if o.verdict == "undecided")
