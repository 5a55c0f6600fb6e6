#!/usr/bin/env python3
"""Behaviour-preserving rewrites of every function of the package: the checks have to stay quiet on each of them.

python3 tools/refactor.py KIND TARGET     writes a copy of /repo, rewritten, to TARGET (then VERIF_REPO=TARGET python3 run_check.py ...)
"""
import ast
import os
import shutil
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self):
        Base.n += 1
        return f"_value_{Base.n}"


class Return(Base):
    """return x -> v = x; return v"""
    def visit_Return(self, node):
        if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
            return node
        v = self.fresh()
        return [ast.Assign([ast.Name(v, ast.Store())], node.value), ast.Return(ast.Name(v, ast.Load()))]


class Swap(Base):
    """x + y -> y + x and x * y -> y * x of plain arithmetic (no lists, no strings)"""
    def visit_BinOp(self, node):
        self.generic_visit(node)
        bad = (ast.List, ast.Tuple, ast.JoinedStr, ast.ListComp)
        if isinstance(node.op, (ast.Add, ast.Mult)) and not isinstance(node.left, bad) and not isinstance(node.right, bad):
            if any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (node.left, node.right)):
                return node
            return ast.BinOp(node.right, node.op, node.left)
        return node


class Invert(Base):
    """if c: A else: B -> if not c: B else: A"""
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)


class Compare(Base):
    """a < b -> b > a"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in self.M:
            return ast.Compare(node.comparators[0], [self.M[type(node.ops[0])]()], [node.left])
        return node


class Loop(Base):
    """for i in range(n) -> explicit list; for i, x in enumerate(y) -> for i in range(len(list)) with x taken"""
    def visit_For(self, node):
        self.generic_visit(node)
        it = node.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 \
                and isinstance(node.target, ast.Tuple) and not node.orelse:
            v = self.fresh()
            pre = ast.parse(f"{v} = list()").body[0]
            pre.value.args = [it.args[0]]
            idx = node.target.elts[0]
            take = ast.Assign([node.target.elts[1]], ast.Subscript(ast.Name(v, ast.Load()), ast.Name(idx.id, ast.Load()), ast.Load()))
            new = ast.For(idx, ast.parse(f"range(len({v}))").body[0].value, [take] + node.body, [])
            return [pre, new]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 \
                and isinstance(node.target, ast.Name) and not node.orelse:
            v, w = self.fresh(), self.fresh()
            pre = ast.parse(f"{v} = 0\n{w} = 0").body
            pre[1].value = it.args[0]
            new = ast.parse(f"while {v} < {w}:\n    {node.target.id} = {v}\n    {v} = {v} + 1").body[0]
            new.body += node.body
            return pre + [new]
        return node


class Calls(Base):
    """other spellings of numpy calls"""
    def visit_Call(self, node):
        self.generic_visit(node)
        f = ast.unparse(node.func)
        a = node.args
        if f in ("np.linalg.norm", "LA.norm", "linalg.norm") and len(a) == 1 and not node.keywords and isinstance(a[0], ast.Name):
            return ast.parse(f"np.sqrt(np.sum({ast.unparse(a[0])} ** 2))").body[0].value
        if f == "np.dot" and len(a) == 2:
            return ast.BinOp(a[0], ast.MatMult(), a[1]) if not any(isinstance(x, (ast.List, ast.Constant)) for x in a) else node
        if f == "np.sum" and len(a) == 1 and not node.keywords and isinstance(a[0], ast.Name):
            return ast.parse(f"np.array({a[0].id}).sum()").body[0].value
        if f == "max" and len(a) == 2 and not node.keywords:
            return ast.parse(f"({ast.unparse(a[0])} if ({ast.unparse(a[0])}) >= ({ast.unparse(a[1])}) else {ast.unparse(a[1])})").body[0].value
        if f == "min" and len(a) == 2 and not node.keywords:
            return ast.parse(f"({ast.unparse(a[0])} if ({ast.unparse(a[0])}) <= ({ast.unparse(a[1])}) else {ast.unparse(a[1])})").body[0].value
        if f == "np.vstack" and len(a) == 1 and isinstance(a[0], ast.Tuple):
            return node
        if f == "np.copy" and len(a) == 1:
            return ast.Call(ast.Attribute(a[0], "copy", ast.Load()), [], [])
        return node


class Helper(Base):
    """each method or function becomes a call of a helper that holds its body"""
    def visit_FunctionDef(self, node):
        if node.decorator_list or node.name.startswith("__") or node.args.vararg or node.args.kwarg or node.args.posonlyargs:
            return node
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) or (isinstance(x, ast.Call) and ast.unparse(x.func) == "super") for x in ast.walk(node)):
            return node
        args = [x.arg for x in node.args.args]
        name = node.name + "_body"
        inner = ast.FunctionDef(name, ast.parse(f"def f({', '.join(args + (['*'] if node.args.kwonlyargs else []) + [x.arg for x in node.args.kwonlyargs])}): pass").body[0].args, node.body, [])
        doc = []
        kw = [f"{x.arg}={x.arg}" for x in node.args.kwonlyargs]
        if args and args[0] == "self":
            call = f"return self.{name}({', '.join(args[1:] + kw)})"
        else:
            call = f"return {name}({', '.join(args + kw)})"
        node.body = doc + ast.parse("if True:\n    " + call).body[0].body
        return [node, inner]


class Names(Base):
    """local variables get other names (not parameters, not names used in nested functions)"""
    def visit_FunctionDef(self, node):
        inner = [x for x in ast.walk(node) if x is not node and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal))]
        if inner:
            return node
        params = {x.arg for x in ast.walk(node.args) if isinstance(x, ast.arg)}
        stored = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id in stored:
                x.id = x.id + "_x"
            if isinstance(x, ast.ExceptHandler) and x.name in stored:
                x.name = x.name + "_x"
            if isinstance(x, ast.Import) or isinstance(x, ast.ImportFrom):
                pass
        return node


class Elif(Base):
    """guard clauses: if c: return a; rest -> if c: return a else: rest"""
    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(body):
                s.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.body = self.block(node.body)
        return node


class Temps(Base):
    """arguments of calls in assignments are computed first"""
    def visit_Assign(self, node):
        pre = []
        if isinstance(node.value, ast.Call):
            for i, a in enumerate(node.value.args):
                if isinstance(a, (ast.BinOp, ast.Call, ast.Subscript, ast.Attribute)) and not isinstance(node.value.func, ast.Lambda):
                    if isinstance(node.value.func, ast.Call):
                        continue
                    v = self.fresh()
                    pre.append(ast.Assign([ast.Name(v, ast.Store())], a))
                    node.value.args[i] = ast.Name(v, ast.Load())
        return pre + [node]


class Aug(Base):
    """x[i] += y -> x[i] = x[i] + y"""
    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript) and not isinstance(node.op, ast.MatMult):
            src = ast.unparse(node.target)
            load = ast.parse(src).body[0].value
            return ast.Assign([node.target], ast.BinOp(load, node.op, node.value))
        return node


class Keywords(Base):
    """in_obstacle_frame <-> in_global_frame of the obstacles' queries"""
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("get_gamma", "get_normal_direction", "get_reference_direction"):
            for k in node.keywords:
                if k.arg == "in_global_frame" and isinstance(k.value, ast.Constant):
                    k.arg, k.value = "in_obstacle_frame", ast.Constant(not k.value.value)
                    break
        return node


KINDS = {c.__name__.lower(): c for c in (Return, Swap, Invert, Compare, Loop, Calls, Helper, Names, Elif, Temps, Aug, Keywords)}


def main():
    kind, target = sys.argv[1:]
    shutil.copytree(REPO, target, symlinks=True)
    for d, _, fs in os.walk(os.path.join(target, "nonlinear_avoidance")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                tree = ast.parse(open(p).read())
                tree = ast.fix_missing_locations(KINDS[kind]().visit(tree))
                open(p, "w").write(ast.unparse(tree) + "\n")


main()
