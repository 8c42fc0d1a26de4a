"""AST instrumentation of the code under test, done at import time from the
current sources, so that character-inspecting operations reach the shims."""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys

_OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not",
        ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">="}
_SKIP_CALL = {"super", "locals", "globals", "vars", "eval", "exec", "cast", "TypeVar", "NamedTuple", "dir"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=ast.Attribute(value=_name("__symx__"), attr=fn, ctx=ast.Load()), args=list(args), keywords=[])


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.funcs = []

    # annotations and type-only constructs are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node

    def visit_FunctionDef(self, node):
        self.funcs.append(node.name)
        node.args = self.visit(node.args)
        node.body = [self.visit(s) for s in node.body]
        node.body = [x for s in node.body for x in (s if isinstance(s, list) else [s])]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return ast.copy_location(_call("cmp", ast.Constant(_OPS[type(node.ops[0])]), node.left, node.comparators[0]), node)
        # chained: evaluate lazily through nested lambdas bound by walrus-free defaults
        names = [f"__sx{i}" for i in range(len(node.ops) + 1)]
        vals = [node.left] + node.comparators
        parts = []
        for i, op in enumerate(node.ops):
            parts.append(_call("cmp", ast.Constant(_OPS[type(op)]), _name(names[i]), _name(names[i + 1])))
        lam = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None, kwonlyargs=[],
                               kw_defaults=[], kwarg=None, defaults=[]),
            body=ast.BoolOp(op=ast.And(), values=parts))
        return ast.copy_location(ast.Call(func=lam, args=vals, keywords=[]), node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in _SKIP_CALL:
            self.generic_visit(node)
            return node
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            new = ast.Call(func=ast.Attribute(value=_name("__symx__"), attr="callm", ctx=ast.Load()),
                           args=[f.value, ast.Constant(f.attr)] + node.args, keywords=node.keywords)
        else:
            new = ast.Call(func=ast.Attribute(value=_name("__symx__"), attr="callf", ctx=ast.Load()),
                           args=[f] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    _BIN = {ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.Sub: "-"}

    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = self._BIN.get(type(node.op))
        if op is None or any(isinstance(x, ast.Constant) for x in (node.left, node.right)):
            return node
        return ast.copy_location(_call("binop", ast.Constant(op), node.left, node.right), node)

    def visit_AugAssign(self, node):
        op = self._BIN.get(type(node.op))
        if op is None or not isinstance(node.target, (ast.Name, ast.Attribute)) or isinstance(node.value, ast.Constant):
            self.generic_visit(node)
            return node
        load = ast.Name(id=node.target.id, ctx=ast.Load()) if isinstance(node.target, ast.Name) else \
            ast.Attribute(value=node.target.value, attr=node.target.attr, ctx=ast.Load())
        new = ast.Assign(targets=[node.target], value=_call("augop", ast.Constant(op), load, self.visit(node.value)))
        return ast.copy_location(new, node)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        if node.conversion in (97, 114):
            node.value = ast.copy_location(_call("callf", _name("repr" if node.conversion == 114 else "ascii"), node.value), node.value)
            node.conversion = -1
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant, ast.UnaryOp, ast.Tuple)):
            return ast.copy_location(_call("getitem", node.value, node.slice), node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, str):
            return ast.copy_location(_call("getitem", node.value, node.slice), node)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            # evaluation order: value first, then container, then key (as in Python)
            lam = _call("setitem3", self.visit(node.value), self.visit(t.value), self.visit(t.slice))
            return ast.copy_location(ast.Expr(value=lam), node)
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.copy_location(ast.Expr(value=_call("delitem", self.visit(t.value), self.visit(t.slice))), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[self.visit(t)]), node))
        return out

    def visit_Dict(self, node):
        if all(isinstance(k, ast.Constant) for k in node.keys):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        parts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                parts.append(ast.Tuple(elts=[ast.Constant("**"), v], ctx=ast.Load()))
            else:
                parts.append(ast.Tuple(elts=[ast.Constant("kv"), k, v], ctx=ast.Load()))
        return ast.copy_location(_call("mkdict", *parts), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(_call("mkdict_pairs", gen), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("mkset", ast.GeneratorExp(elt=node.elt, generators=node.generators)), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(_call("mkset", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_Match(self, node):
        consts = []
        for c in node.cases:
            for p in ast.walk(c.pattern):
                if isinstance(p, ast.MatchValue) and isinstance(p.value, ast.Constant):
                    consts.append(p.value)
        self.generic_visit(node)
        node.subject = ast.copy_location(
            _call("match_subject", node.subject, ast.List(elts=[ast.Constant(c.value) for c in consts], ctx=ast.Load())), node.subject)
        return node

    def visit_MatchValue(self, node):
        return node


class _Support:
    """The object bound to __symx__ in instrumented modules."""


def support():
    from . import shims

    s = _Support()
    for n in ("cmp", "callm", "callf", "getitem", "delitem", "mkdict", "mkdict_pairs", "mkset", "match_subject", "binop", "augop"):
        setattr(s, n, getattr(shims, n))
    s.setitem3 = lambda v, o, k: shims.setitem(o, k, v)
    return s


ENCODED = {}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        # never from a .pyc: always instrument the current source
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tr = Tr()
        tree = tr.visit(tree)
        ast.fix_missing_locations(tree)
        ENCODED[path] = tr.funcs
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)

    def exec_module(self, module):
        module.__symx__ = support()
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # top-level package -> directory that contains it

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        search = path if path is not None else [self.roots[top]]
        spec = importlib.machinery.PathFinder.find_spec(fullname, search, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
