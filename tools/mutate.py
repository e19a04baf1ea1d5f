#!/opt/venv/bin/python
"""Small mechanical changes of the files a property anchors, to find gaps in its check.

mutate.py PROP N SEED WORK [file[:function] ...]: N random mutants in the scratch directory WORK (a copy of
hazma and of /verif is made there); prints one line per mutant."""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys


def mutants(tree, only):
    """(line, description, apply) for every change in functions."""
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef,)) or (only and fn.name not in only):
            continue
        if fn.name in ("__repr__", "__str__"):
            continue
        names = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name)} | {a.arg for a in fn.args.args})
        body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else fn.body
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.AnnAssign) or not hasattr(n, "lineno"):
                    continue
                if isinstance(n, ast.BinOp):
                    sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op))
                    if sw:
                        out.append((n, "op", sw))
                elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                    sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.NotEq,
                          ast.NotEq: ast.Eq, ast.In: ast.NotIn}.get(type(n.ops[0]))
                    if sw:
                        out.append((n, "cmp", sw))
                elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                    out.append((n, "const", n.value + 1 if type(n.value) is int else n.value * 1.5))
                elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                    if ast.dump(n.args[0]) != ast.dump(n.args[1]):
                        out.append((n, "swap", None))
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    near = [x for x in names if x != n.id and len(x) == len(n.id) and sum(a != b for a, b in zip(x, n.id)) <= 1 and len(x) > 1]
                    for x in near[:1]:
                        out.append((n, "name", x))
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    pass
                elif isinstance(n, ast.If):
                    out.append((n, "neg", None))
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                    out.append((n, "sign", None))
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    if isinstance(n, ast.AugAssign) or (isinstance(n, ast.Expr)) or (
                            isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
                        out.append((n, "drop", None))
                if isinstance(n, ast.Call) and n.keywords:
                    for k in n.keywords:
                        if k.arg:
                            out.append((n, "kwdrop", k.arg))
    # constants inside raise statements and such are harmless
    return out


def apply(tree, idx, only):
    t = copy.deepcopy(tree)
    n, kind, x = mutants(t, only)[idx]
    before = ast.unparse(n)[:80]
    if kind == "op":
        n.op = x()
    elif kind == "cmp":
        n.ops = [x()]
    elif kind == "const":
        n.value = x
    elif kind == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "name":
        n.id = x
    elif kind == "neg":
        n.test = ast.UnaryOp(ast.Not(), n.test)
        before = "if " + ast.unparse(n.test)
    elif kind == "sign":
        n.op = ast.UAdd()
    elif kind == "kwdrop":
        n.keywords = [k for k in n.keywords if k.arg != x]
    elif kind == "drop":
        class D(ast.NodeTransformer):
            def visit(self, m):
                return ast.Pass() if m is n else self.generic_visit(m)
        t = D().visit(t)
    ast.fix_missing_locations(t)
    after = "" if kind in ("drop", "neg") else ast.unparse(n)[:80]
    return t, f"L{n.lineno} {kind}: {before}  =>  {after}"


def main():
    prop, N, seed, work = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    targets = sys.argv[5:]
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    shutil.copytree("/repo/hazma", work + "/hazma", symlinks=True)
    shutil.copytree("/verif", work + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
    rnd = random.Random(seed)
    pool = []
    trees = {}
    for t in targets:
        f, _, fn = t.partition(":")
        only = set(fn.split("+")) if fn else None
        src = open(os.path.join("/repo", f)).read()
        tree = ast.parse(src)
        trees[(f, fn)] = (tree, only, src)
        pool += [(f, fn, i) for i in range(len(mutants(tree, only)))]
    rnd.shuffle(pool)
    print(f"{prop}: {len(pool)} mutants, {min(N, len(pool))} run", flush=True)
    alive = 0
    for f, fn, i in pool[:N]:
        tree, only, src = trees[(f, fn)]
        t, desc = apply(tree, i, only)
        with open(os.path.join(work, f), "w") as h:
            h.write(ast.unparse(t))
        env = dict(os.environ, VF_REPO=work, VF_FAILFAST="1")
        try:
            r = subprocess.run(["./run.py", prop], cwd=work + "/v", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            rc, last = r.returncode, (r.stdout.strip().splitlines() or [""])[-1]
        except subprocess.TimeoutExpired:
            rc, last = "timeout", ""
        if rc == 1:
            print(f"killed   {prop} {f} {desc}".replace("\n", " "), flush=True)
        else:
            alive += 1
            print(f"SURVIVED {prop} {f} {desc} rc={rc} {last[-70:]}".replace("\n", " "), flush=True)
        with open(os.path.join(work, f), "w") as h:
            h.write(src)
    print(f"{prop}: {alive} of {min(N, len(pool))} survived", flush=True)
    shutil.rmtree(work, ignore_errors=True)


main()
