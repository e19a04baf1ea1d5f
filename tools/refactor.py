#!/opt/venv/bin/python
"""Rewrite a copy of hazma without changing behaviour: refactor.py DIR KIND (commute, tempret, square, compare, invert, loops, numpy, helper)."""
import ast
import os
import sys


class Commute(ast.NodeTransformer):
    """a * b -> b * a and a + b -> b + a on operands that cannot be sequences or strings."""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) for x in (n.left, n.right)):
            n.left, n.right = n.right, n.left
        return n


class TempRet(ast.NodeTransformer):
    """return e -> result_ = e; return result_, through both arguments of calls too."""
    def visit_Lambda(self, n):
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value), ast.Return(ast.Name("result_", ast.Load()))]


class Square(ast.NodeTransformer):
    """x**2 -> x*x for names; a / b -> a * (1 / b)."""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.Name):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        if isinstance(n.op, ast.Sub):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n


class Compare(ast.NodeTransformer):
    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.FLIP:
            return ast.Compare(n.comparators[0], [self.FLIP[type(n.ops[0])]()], [n.left])
        return n


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Loops(ast.NodeTransformer):
    """[f(x) for x in xs] -> list(f(x) for x in xs); for i, x in enumerate -> for pair."""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Tuple):
            n.body = [ast.Assign([n.target], ast.Name("item_", ast.Load()))] + n.body
            n.target = ast.Name("item_", ast.Store())
        return n

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("dict", ast.Load()),
                        [ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])


class NumpyF(ast.NodeTransformer):
    """np.sqrt(x) -> (x) ** 0.5 is not exact; np.power, np.multiply, np.abs <-> np.absolute."""
    NM = {"abs": "absolute", "zeros_like": None}

    def visit_BinOp(self, n):
        self.generic_visit(n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and False:
            return n
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np":
            if f.attr == "abs":
                f.attr = "absolute"
            elif f.attr == "array" and len(n.args) == 1 and not n.keywords:
                f.attr = "asarray"
            elif f.attr == "sum" and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.Name):
                return ast.Call(ast.Attribute(ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "asarray", ast.Load()), n.args, []), "sum", ast.Load()), [], [])
        return n


class Helper(ast.NodeTransformer):
    """Values of assignments and returns are computed in a local function."""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) for x in ast.walk(n)):
            return n
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        if any(isinstance(x, (ast.NamedExpr, ast.Await)) for x in ast.walk(n.value)):
            return n
        if any(isinstance(x, ast.Name) and x.id in ("super", "locals") for x in ast.walk(n.value)):
            return n
        fn = ast.FunctionDef("compute_", ast.arguments([], [], None, [], [], None, []), [ast.Return(n.value)], [], None)
        return [fn, ast.Return(ast.Call(ast.Name("compute_", ast.Load()), [], []))]

    def visit_Lambda(self, n):
        return n


class SelfLocal(ast.NodeTransformer):
    """Arguments of calls are bound to locals first: f(a, b) as a whole statement value."""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.Call) and n.value.args and not any(
                isinstance(a, (ast.Starred, ast.Lambda, ast.GeneratorExp)) for a in n.value.args):
            out = []
            for i, a in enumerate(n.value.args):
                if isinstance(a, (ast.Name, ast.Constant)):
                    continue
                out.append(ast.Assign([ast.Name(f"arg{i}_", ast.Store())], a))
                n.value.args[i] = ast.Name(f"arg{i}_", ast.Load())
            return out + [n]
        return n


KINDS = {"commute": Commute, "tempret": TempRet, "square": Square, "compare": Compare, "invert": Invert, "loops": Loops,
         "numpy": NumpyF, "helper": Helper, "args": SelfLocal}


def functions_only(tr, tree):
    class F(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
            body = []
            for st in n.body[len(doc):]:
                r = tr.visit(st)
                body.extend(r if isinstance(r, list) else [r])
            n.body = doc + body
            return n
    return F().visit(tree)


def main(root, kinds):
    cnt = 0
    for d, _, fs in os.walk(os.path.join(root, "hazma")):
        for f in fs:
            if not f.endswith(".py") or f.endswith("_test.py"):
                continue
            p = os.path.join(d, f)
            src = open(p).read()
            tree = ast.parse(src)
            for k in kinds:
                tree = functions_only(KINDS[k](), tree)
            ast.fix_missing_locations(tree)
            open(p, "w").write(ast.unparse(tree) + "\n")
            cnt += 1
    print(cnt, "files")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2].split(","))
