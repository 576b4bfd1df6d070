"""Import hook: re-writes the current source of the code under test so that the
operations CPython decides in C (calls to builtins, `not`, `in`, comparison
chains, subscripts) go through the dispatcher in symx.builtins_, which knows
symbolic values.  The statements and control flow are those of the source file
as it stands; nothing is cached on disk.
"""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SKIP_CALLS = {
    "super", "locals", "globals", "vars", "eval", "exec", "dir", "breakpoint",
    "__import__", "property", "staticmethod", "classmethod", "print",
}
CHAIN_OPS = (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)
OPNAME = {
    ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne",
}


def pure(n):
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.Attribute):
        return pure(n.value)
    if isinstance(n, ast.UnaryOp):
        return pure(n.operand)
    if isinstance(n, ast.BinOp):
        return isinstance(n.op, (ast.Add, ast.Sub)) and pure(n.left) and pure(n.right)
    if isinstance(n, ast.Compare):
        return pure(n.left) and all(pure(c) for c in n.comparators) and all(
            isinstance(o, CHAIN_OPS + (ast.Is, ast.IsNot)) for o in n.ops
        )
    if isinstance(n, ast.BoolOp):
        return all(pure(v) for v in n.values)
    return False


def name(s):
    return ast.Name(s, ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, path=""):
        self.func_depth = 0
        # introspection code hands its dictionaries to the interpreter
        self.native_dicts = path.endswith("internal/reflection.py")

    # annotations stay as they are
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        self.func_depth += 1
        node.body = [y for x in node.body for y in self._stmts(x)]
        self.func_depth -= 1
        return node

    def _stmts(self, x):
        r = self.visit(x)
        return r if isinstance(r, list) else [r]

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        d, self.func_depth = self.func_depth, 0
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        # bases are left alone
        node.body = [y for x in node.body for y in self._stmts(x)]
        self.func_depth = d
        return node

    def visit_Lambda(self, node):
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        self.func_depth += 1
        node.body = self.visit(node.body)
        self.func_depth -= 1
        return node

    def visit_Call(self, node):
        skip = isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS
        self.generic_visit(node)
        if skip:
            return node
        if isinstance(node.func, ast.Call) and isinstance(node.func.func, ast.Name) and node.func.func.id == "super":
            return node
        node.func = ast.copy_location(ast.Call(name("_sx_f"), [node.func], []), node.func)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(ast.Call(name("_sx_not"), [node.operand], []), node)
        return node

    def visit_Compare(self, node):
        was_pure = pure(node) and not any(isinstance(o, (ast.Is, ast.IsNot)) for o in node.ops)
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                f = "_sx_in" if isinstance(op, ast.In) else "_sx_notin"
                return ast.copy_location(
                    ast.Call(name(f), [node.left, node.comparators[0]], []), node
                )
            if isinstance(op, (ast.Is, ast.IsNot)):
                c = node.comparators[0]
                if isinstance(c, ast.Constant) and c.value in (True, False) and isinstance(c.value, bool):
                    f = "_sx_is" if isinstance(op, ast.Is) else "_sx_isnot"
                    return ast.copy_location(ast.Call(name(f), [node.left, c], []), node)
            return node
        if all(isinstance(o, CHAIN_OPS) for o in node.ops) and was_pure:
            args = [ast.Constant(",".join(OPNAME[type(o)] for o in node.ops)), node.left, *node.comparators]
            return ast.copy_location(ast.Call(name("_sx_chain"), args, []), node)
        return node

    def visit_BoolOp(self, node):
        ok = self.func_depth > 0 and all(pure(v) for v in node.values)
        self.generic_visit(node)
        if not ok:
            return node
        f = "_sx_and" if isinstance(node.op, ast.And) else "_sx_or"
        lams = []
        for v in node.values[1:]:
            lams.append(
                ast.Lambda(
                    ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                    v,
                )
            )
        return ast.copy_location(ast.Call(name(f), [node.values[0], *lams], []), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int):
                return node
            return ast.copy_location(ast.Call(name("_sx_get"), [node.value, node.slice], []), node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.slice, ast.Slice) and node.slice.step is None:
            b = [node.slice.lower, node.slice.upper]
            if any(not (x is None or isinstance(x, ast.Constant)) for x in b):
                b = [ast.Constant(None) if x is None else x for x in b]
                return ast.copy_location(ast.Call(name("_sx_cutout"), [node.value, *b], []), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.func_depth == 0 or self.native_dicts or any(k is None for k in node.keys):
            return node
        if node.keys and all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(ast.Call(name("_sx_dict"), [ast.Tuple(pairs, ast.Load())], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if self.func_depth == 0 or any(isinstance(e, ast.Starred) for e in node.elts) or all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return ast.copy_location(ast.Call(name("_sx_set"), [ast.Tuple(node.elts, ast.Load())], []), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if self.func_depth == 0 or self.native_dicts:
            return node
        lc = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(ast.Call(name("_sx_dict"), [ast.copy_location(lc, node)], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if self.func_depth == 0:
            return node
        lc = ast.ListComp(node.elt, node.generators)
        return ast.copy_location(ast.Call(name("_sx_set"), [ast.copy_location(lc, node)], []), node)

    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            c.body = [y for x in c.body for y in self._stmts(x)]
        return node


def rewrite_source(src, path):
    tree = ast.parse(src, path)
    tree = Rewriter(path).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        return compile(rewrite_source(src, path), path, "exec", dont_inherit=True)

    def exec_module(self, module):
        from . import builtins_ as B

        for k in B.HOOKS:
            module.__dict__[k] = B.HOOKS[k]
        super().exec_module(module)
        if module.__name__ == "hypothesis.vendor.pretty" and hasattr(module, "pretty"):
            # text for messages only: printing a symbolic value would fork on its contents
            real = module.pretty

            def pretty(*a, **k):
                from . import core

                return real(*a, **k) if core.ENGINE is None else "<pretty>"

            module.pretty = pretty


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes, skip=()):
        self.prefixes = prefixes
        self.skip = set(skip)

    def find_spec(self, fullname, path, target=None):
        if fullname in self.skip:
            return None
        if not any(fullname == p or fullname.startswith(p + ".") for p in self.prefixes):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(fullname, spec.origin)
        return spec


def install(prefixes=("hypothesis", "checks", "ipaddress"), skip=()):
    sys.dont_write_bytecode = True
    for p in prefixes:
        sys.modules.pop(p, None)
    sys.meta_path.insert(0, Finder(prefixes, skip))
