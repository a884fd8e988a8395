"""Loads the code under test (and the harnesses) for symbolic execution.

The current source under REPO is parsed on every run and its AST is lowered to
the same program over symbolic values: operations that CPython would perform
inside C on concrete objects only (dict/set construction and membership, string
formatting, type tests, math functions) are redirected to the executor."""
import ast
import importlib.abc
import importlib.machinery
import os
import sys
import types

from . import shadows
from . import core

STR_METHODS = {
    "join", "format", "split", "rsplit", "strip", "lstrip", "rstrip", "find", "rfind", "index", "rindex",
    "count", "replace", "startswith", "endswith", "partition", "rpartition", "fromkeys", "encode", "decode",
    "lower", "upper", "translate", "removeprefix", "removesuffix", "append", "extend", "insert",
}
STR_ONLY = STR_METHODS - {"append", "extend", "insert", "fromkeys"}


class Lower(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def call(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, ast.In):
                return self.call("__sx_in__", [node.left, node.comparators[0]], node)
            if isinstance(op, ast.NotIn):
                return self.call("__sx_notin__", [node.left, node.comparators[0]], node)
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = node.comparators[0]
                if isinstance(r, ast.Constant) and isinstance(r.value, bool):
                    n = self.call("__sx_is__", [node.left, r], node)
                    if isinstance(op, ast.IsNot):
                        n = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=n), node)
                    return n
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        parts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                parts.append(ast.Tuple(elts=[ast.Constant(value=True), v, ast.Constant(value=None)], ctx=ast.Load()))
            else:
                parts.append(ast.Tuple(elts=[ast.Constant(value=False), k, v], ctx=ast.Load()))
        return self.call("__sx_dict__", [ast.List(elts=parts, ctx=ast.Load())], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(
            elt=ast.Tuple(elts=[ast.Constant(value=False), node.key, node.value], ctx=ast.Load()),
            generators=node.generators)
        return self.call("__sx_dict__", [ast.copy_location(lc, node)], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call("__sx_set__", [ast.List(elts=node.elts, ctx=ast.Load())], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return self.call("__sx_set__", [ast.copy_location(lc, node)], node)

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return self.call("__sx_fstr__", [self._part(v) for v in node.values], node)

    def _part(self, v):
        if isinstance(v, ast.FormattedValue):
            spec = v.format_spec if v.format_spec is not None else ast.Constant(value="")
            return ast.Tuple(elts=[v.value, ast.Constant(value=v.conversion), spec], ctx=ast.Load())
        if isinstance(v, ast.Constant):
            return v
        return v

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call("__sx_mod__", [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            if isinstance(node.target, ast.Name):
                return ast.copy_location(ast.Assign(
                    targets=[node.target],
                    value=self.call("__sx_mod__", [ast.copy_location(ast.Name(id=node.target.id, ctx=ast.Load()), node), node.value], node)), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in STR_METHODS:
            return self.call("__sx_attr__", [node.value, ast.Constant(value=node.attr)], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return self.call("__sx_item__", [node.value, node.slice], node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "type" and len(node.args) == 1 and not node.keywords:
            return self.call("__sx_type__", node.args, node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == "BaseException"):
            node.type = ast.copy_location(ast.Name(id="Exception", ctx=ast.Load()), node)
        return node

    def visit_AnnAssign(self, node):
        # annotations are inert
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node

    def _func(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.body = [self.visit(b) for b in node.body]
        node.returns = None
        qn = self.mod + "." + ".".join(self.stack)
        self.stack.pop()
        enter = ast.Expr(value=ast.Call(func=ast.Name(id="__sx_enter__", ctx=ast.Load()),
                                        args=[ast.Constant(value=qn)], keywords=[]))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            i = 1
        node.body.insert(i, enter)
        return node

    visit_FunctionDef = _func

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


def lower(src, fname, modname):
    tree = ast.parse(src, fname)
    tree = Lower(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, "exec", dont_inherit=True)


class SymLoader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = lower(src, self.path, module.__name__)
        module.__dict__["__builtins__"] = shadows.BUILTINS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, prefixes):
        self.roots = roots
        self.prefixes = prefixes

    def find_spec(self, name, path, target=None):
        top = name.split(".")[0]
        if top not in self.prefixes:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            if os.path.exists(f):
                return importlib.machinery.ModuleSpec(name, SymLoader(f), origin=f, is_package=True)
        if os.path.exists(base + ".py"):
            return importlib.machinery.ModuleSpec(name, SymLoader(base + ".py"), origin=base + ".py")
        return None


def install(repo, verif):
    tops = {}
    for d in sorted(os.listdir(repo)):
        if os.path.isfile(os.path.join(repo, d, "__init__.py")) and d not in ("tests", "examples"):
            tops[d] = repo
    tops["harness"] = verif
    for m in list(sys.modules):
        if m.split(".")[0] in tops:
            del sys.modules[m]
    f = Finder(tops, set(tops))
    sys.meta_path.insert(0, f)
    return f
