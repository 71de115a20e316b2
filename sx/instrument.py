"""Load modules from source with calls, operators and displays routed through sx.runtime."""
import ast
import importlib.abc
import importlib.util
import os
import sys
import types

RAW = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__'}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.cls = []

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.generic_visit(node)
        self.cls.pop()
        return node

    def _mangle(self, n):
        if self.cls and n.startswith('__') and not n.endswith('__'):
            c = self.cls[-1].lstrip('_')
            if c:
                return '_%s%s' % (c, n)
        return n

    def visit_Call(self, node):
        f = node.func
        self.generic_visit(node)
        if isinstance(f, ast.Name) and f.id in RAW:
            return node
        if isinstance(f, ast.Attribute):
            return ast.copy_location(ast.Call(func=_name('__sx_mcall__'),
                                              args=[node.func.value, ast.Constant(value=self._mangle(f.attr))] +
                                              node.args, keywords=node.keywords), node)
        return ast.copy_location(ast.Call(func=_name('__sx_call__'), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                conv = ast.Constant(value=None if v.conversion == -1 else chr(v.conversion))
                spec = v.format_spec if v.format_spec is not None else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[v.value, conv, spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(func=_name('__sx_fmt__'), args=parts, keywords=[]), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            n = {ast.In: '__sx_in__', ast.NotIn: '__sx_notin__', ast.Eq: '__sx_eq__', ast.NotEq: '__sx_ne__'}.get(
                type(node.ops[0]))
            if n:
                return ast.copy_location(ast.Call(func=_name(n), args=[node.left, node.comparators[0]], keywords=[]),
                                         node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=_name('__sx_mod__'), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        elts = []
        for k, v in zip(node.keys, node.values):
            elts.append(ast.Tuple(elts=[_name('__sx_unpack__') if k is None else k, v], ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=_name('__sx_dict__'),
                                          args=[ast.Tuple(elts=elts, ctx=ast.Load())], keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(ast.Call(func=_name('__sx_dict__'), args=[gen], keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=_name('__sx_set__'),
                                          args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return ast.copy_location(ast.Call(func=_name('__sx_set__'), args=[gen], keywords=[]), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            node.type = _name('__sx_baseexc__') if node.type is not None else _name('__sx_baseexc__')
        return node

    def visit_AnnAssign(self, node):
        # annotations are not evaluated symbolically
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.args = self._args(node.args)
        node.body = self._body(node.body)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _body(self, b):
        out = []
        for s in b:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def _args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        return a


# except BaseException / bare except must not swallow engine signals
def _baseexc():
    from .engine import EngineSignal

    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, BaseException) and not isinstance(x, EngineSignal)

        def __subclasscheck__(cls, t):
            return issubclass(t, BaseException) and not issubclass(t, EngineSignal)
    return (Exception, KeyboardInterrupt, SystemExit, GeneratorExit)


def env():
    from . import runtime as r
    return {'__sx__': True, '__sx_call__': r.sx_call, '__sx_mcall__': r.sx_mcall, '__sx_fmt__': r.sx_fmt,
            '__sx_in__': r.sx_in, '__sx_notin__': r.sx_notin, '__sx_eq__': r.sx_eq, '__sx_ne__': r.sx_ne,
            '__sx_mod__': r.sx_mod, '__sx_dict__': r.sx_dict, '__sx_set__': r.sx_set, '__sx_unpack__': r._UNPACK,
            '__sx_baseexc__': _baseexc()}


def transform(src, fn):
    tree = ast.parse(src, fn)
    tree = Tr().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fn, 'exec', dont_inherit=True)


def exec_module(mod, fn):
    from . import runtime
    with open(fn, encoding='utf-8') as f:
        src = f.read()
    runtime.INSTR.add(mod.__name__)
    mod.__dict__.update(env())
    exec(transform(src, fn), mod.__dict__)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, roots):
        self.roots = roots            # {'codeprep': '/repo/codeprep'}
        self.loaded = {}

    def find_spec(self, name, path, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        p = self.roots[top]
        rest = name.split('.')[1:]
        p = os.path.join(p, *rest)
        if os.path.isfile(os.path.join(p, '__init__.py')):
            fn = os.path.join(p, '__init__.py')
            spec = importlib.util.spec_from_file_location(name, fn, loader=self, submodule_search_locations=[p])
        elif os.path.isfile(p + '.py'):
            spec = importlib.util.spec_from_file_location(name, p + '.py', loader=self)
        else:
            return None
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        fn = mod.__spec__.origin
        self.loaded[mod.__name__] = fn
        exec_module(mod, fn)


_private = {}


def load_private(name):
    """instrumented private copy of a pure-python stdlib module"""
    m = _private.get(name)
    if m is None:
        real = __import__(name)
        m = types.ModuleType('sxp_' + name)
        m.__file__ = real.__file__
        _private[name] = m
        exec_module(m, real.__file__)
    return m


FINDER = None


def install(roots):
    global FINDER
    FINDER = Finder(roots)
    sys.meta_path.insert(0, FINDER)
    return FINDER
