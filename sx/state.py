"""Snapshot / restore of the mutable state reachable from the modules under test."""
import collections
import functools
import itertools
import sys
import types


_ATOM = (str, bytes, int, float, bool, type(None), type(Ellipsis))


class Snapshot(object):
    def __init__(self, prefixes):
        self.prefixes = prefixes
        self.items = []
        self.seen = set()
        self.keep = []
        self.mods = []
        for n, m in sorted(sys.modules.items()):
            if m is not None and self._own(n):
                self.mods.append(m)
                self._visit(m)

    def _own(self, n):
        return isinstance(n, str) and any(n == p or n.startswith(p + '.') for p in self.prefixes)

    def _visit(self, root):
        stack = [root]
        while stack:
            o = stack.pop()
            if isinstance(o, _ATOM) or id(o) in self.seen:
                continue
            self.seen.add(id(o))
            self.keep.append(o)
            t = type(o)
            if t is types.ModuleType:
                if not self._own(o.__name__):
                    continue
                d = o.__dict__
                self.items.append(('ns', d, dict(d)))
                stack.extend(v for k, v in d.items() if k != '__builtins__')
            elif t in (types.FunctionType,):
                if not self._own(o.__module__ or ''):
                    continue
                stack.extend(o.__defaults__ or ())
                stack.extend((o.__kwdefaults__ or {}).values())
                if o.__dict__:
                    self.items.append(('ns', o.__dict__, dict(o.__dict__)))
                    stack.extend(o.__dict__.values())
                for c in o.__closure__ or ():
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    self.items.append(('cell', c, v))
                    stack.append(v)
            elif t in (types.MethodType, staticmethod, classmethod):
                stack.append(o.__func__)
            elif t is property:
                stack.extend(x for x in (o.fget, o.fset, o.fdel) if x is not None)
            elif isinstance(o, type):
                if not self._own(o.__module__):
                    continue
                d = dict(o.__dict__)
                self.items.append(('cls', o, d))
                stack.extend(d.values())
                stack.extend(o.__bases__)
            elif type(o).__name__ == 'SxCache':
                self.items.append(('cache', o, None))
                stack.append(o.f)
            elif type(o).__name__ == 'SDict':
                self.items.append(('sdict', o, ([list(e) for e in o._e], o._n)))
                stack.extend(e[0] for e in o._e)
                stack.extend(e[1] for e in o._e)
            elif type(o).__name__ == 'SSet':
                self.items.append(('sset', o, list(o)))
            elif isinstance(o, (dict,)):
                self.items.append(('dict', o, dict(o)))
                stack.extend(o.keys())
                stack.extend(o.values())
            elif t in (list, collections.deque):
                self.items.append(('list', o, list(o)))
                stack.extend(o)
            elif isinstance(o, set):
                self.items.append(('set', o, set(o)))
                stack.extend(o)
            elif isinstance(o, (tuple, frozenset)):
                stack.extend(o)
            elif t is functools.partial:
                stack.append(o.func)
                stack.extend(o.args)
            elif hasattr(o, 'cache_clear') and hasattr(o, '__wrapped__'):
                self.items.append(('cache', o, None))
                stack.append(o.__wrapped__)
            elif self._own(t.__module__) and hasattr(o, '__dict__'):
                self.items.append(('ns', o.__dict__, dict(o.__dict__)))
                stack.extend(o.__dict__.values())

    def restore(self):
        for kind, o, s in self.items:
            if kind == 'ns':
                if len(o) != len(s):
                    for k in [k for k in o if k not in s]:
                        del o[k]
                for k, v in s.items():
                    if k not in o or o[k] is not v:
                        o[k] = v
            elif kind == 'cls':
                d = o.__dict__
                for k in [k for k in d if k not in s]:
                    try:
                        delattr(o, k)
                    except (AttributeError, TypeError):
                        pass
                for k, v in s.items():
                    if k not in d or d[k] is not v:
                        try:
                            setattr(o, k, v)
                        except (AttributeError, TypeError):
                            pass
            elif kind == 'cell':
                if o.cell_contents is not s:
                    o.cell_contents = s
            elif kind == 'cache':
                o.cache_clear()
            elif kind == 'dict':
                if len(o) != len(s) or any(k not in o or o[k] is not v for k, v in s.items()):
                    o.clear()
                    o.update(s)
            elif kind == 'list':
                if len(o) != len(s) or any(x is not y for x, y in zip(o, s)):
                    if isinstance(o, list):
                        o[:] = s
                    else:
                        o.clear()
                        o.extend(s)
            elif kind == 'set':
                if o != s:
                    o.clear()
                    o.update(s)
            elif kind == 'sdict':
                es, n = s
                if o._n != n or len(o._e) != len(es) or any(a[0] is not b[0] or a[1] is not b[1] or a[2] != b[2]
                                                           for a, b in zip(o._e, es)):
                    o.clear()
                    for k, v, alive in es:
                        if alive:
                            o[k] = v
            elif kind == 'sset':
                if len(o) != len(s):
                    o.clear()
                    for x in s:
                        o.add(x)
        # modules imported later on are left alone
