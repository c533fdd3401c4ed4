"""Mutation testing of the checks (development tool, no check uses it).

python tools/mutate.py OUT FILES CHECKS [--ops raise,cmp,arith,const,bool,call] [--sample N] [--jobs J] [--seed S] [--lines A-B]

Mutates one syntax node at a time in a scratch copy of the repository and runs the checks until one reports a violation.
"""
import argparse
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seg(src, node):
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    return off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset


def mutants(path, ops):
    src = open(path).read()
    raw = src.encode()
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(n.value)
    out = []

    def add(node, new, kind):
        a, b = seg(src, node)
        old = raw[a:b].decode()
        if old != new:
            out.append((a, b, new, node.lineno, kind, old))

    def un(n):
        return ast.unparse(n)
    CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
    ARI = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult]}
    for n in ast.walk(tree):
        if n in doc:
            continue
        if "raise" in ops and isinstance(n, ast.Raise):
            add(n, "pass", "raise")
        if "cmp" in ops and isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                m = ast.Compare(n.left, [o()], n.comparators)
                add(n, "(" + un(m) + ")", "cmp")
        if "arith" in ops and isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Add) and any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
                continue
            for o in ARI.get(type(n.op), []):
                add(n, "(" + un(ast.BinOp(n.left, o(), n.right)) + ")", "arith")
        if "const" in ops and isinstance(n, ast.Constant) and type(n.value) in (int, float):
            add(n, repr(n.value + 1), "const")
            if n.value:
                add(n, repr(n.value * 0.5 if isinstance(n.value, float) else 0), "const")
        if "bool" in ops:
            if isinstance(n, ast.BoolOp):
                o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                add(n, "(" + un(ast.BoolOp(o, n.values)) + ")", "bool")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                add(n, "(" + un(n.operand) + ")", "unary")
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, repr(not n.value), "bool")
            if isinstance(n, ast.If):
                add(n.test, "(not (" + un(n.test) + "))", "if")
        if "call" in ops:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "sort", "sqrt", "abs", "conj", "cumsum", "argsort", "maximum", "minimum", "max", "min", "sum", "prod", "T"):
                if n.func.attr == "copy" and not n.args:
                    add(n, un(n.func.value), "call")
                elif n.args and n.func.attr in ("sqrt", "abs", "cumsum", "conj", "copy", "sort"):
                    add(n, "(" + un(n.args[0]) + ")", "call")
                elif n.func.attr in ("maximum", "minimum", "max", "min"):
                    m = {"maximum": "minimum", "minimum": "maximum", "max": "min", "min": "max"}[n.func.attr]
                    add(n, un(ast.Call(ast.Attribute(n.func.value, m, ast.Load()), n.args, n.keywords)), "call")
            if isinstance(n, (ast.AugAssign, ast.Expr)) or (isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and un(n.value.func) in ("print", "warn"):
                    continue
                add(n, "pass", "stmt")
    if "kw" in ops:
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                if un(n.func).split(".")[-1] in ("print", "ValueError", "format", "allclose", "isclose", "minimum", "maximum", "min", "max", "tqdm", "ProgBar"):
                    continue
                for k in n.keywords:
                    if k.arg in ("verbose", "label", "c", "color", "linewidth"):
                        continue
                    add(n, un(ast.Call(n.func, n.args, [x for x in n.keywords if x is not k])), "kw")
                for i in range(len(n.args) - 1):
                    r = list(n.args)
                    r[i], r[i + 1] = r[i + 1], r[i]
                    add(n, un(ast.Call(n.func, r, n.keywords)), "swap")
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
                add(n, un(ast.Subscript(n.value, ast.Tuple(n.slice.elts[::-1], ast.Load()), n.ctx)), "index")
    if "var" in ops:
        rnd = random.Random(len(src))
        for f in ast.walk(tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            names = sorted({x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.arg for x in f.args.args} - {"self"})
            attrs = sorted({x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"})
            for n in ast.walk(f):
                if n in doc:
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
                    add(n, rnd.choice([x for x in names if x != n.id]), "var")
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load) and len(attrs) > 1:
                    add(n, "self." + rnd.choice([x for x in attrs if x != n.attr]), "attr")
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("files")
    ap.add_argument("checks")
    ap.add_argument("--ops", default="raise,cmp,arith,const,bool,call")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--inner", default="3")
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--lines", default="")
    ap.add_argument("--skip", default="plot,hist,__str__,info")
    a = ap.parse_args()
    todo = []
    for f in a.files.split(","):
        p = os.path.join(REPO, "dppy", f)
        ms = mutants(p, a.ops.split(","))
        bad = set()
        for n in ast.walk(ast.parse(open(p).read())):
            if isinstance(n, ast.FunctionDef) and any(s in n.name for s in a.skip.split(",")):
                bad.update(range(n.lineno, n.end_lineno + 1))
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            ms = [m for m in ms if lo <= m[3] <= hi]
        todo += [(f,) + m for m in ms if m[3] not in bad]
    if a.sample and len(todo) > a.sample:
        random.Random(a.seed).shuffle(todo)
        todo = sorted(todo[:a.sample])
    work = tempfile.mkdtemp(prefix="mutv_")
    shutil.copytree(VERIF, work + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "replays", "seeded"))
    out = open(a.out, "w", buffering=1)
    out.write("%d mutants\n" % len(todo))

    def run(i):
        f, x, y, new, line, kind, old = todo[i]
        d = "%s/m%d" % (work, i)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "docs", "notebooks"))
        q = d + "/dppy/" + f
        raw = open(q, "rb").read()
        open(q, "wb").write(raw[:x] + new.encode() + raw[y:])
        res, t = "SURVIVED", ""
        try:
            ast.parse(open(q).read())
        except SyntaxError:
            res = "syntax"
        if res != "syntax":
            for c in a.checks.split(","):
                r = subprocess.run([sys.executable, "run_check.py", c], cwd=work + "/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS=a.inner))
                if "VIOLATION" in r.stdout:
                    res = "caught " + c
                    break
                if r.returncode:
                    t += " rc=%d(%s)" % (r.returncode, c)
        shutil.rmtree(d)
        return "%s:%d [%s] %s => %s | %s%s" % (f, line, kind, " ".join(old.split())[:70], " ".join(new.split())[:70], res, t)
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(run, range(len(todo))):
            out.write(r + "\n")
    shutil.rmtree(work)
    out.write("done\n")


main()
