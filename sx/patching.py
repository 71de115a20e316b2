"""Replace objects of the operating system interface in every module of a package (runs natively)."""
import builtins
import functools
import sys
import types

_plan = {}
_plan2 = {}
_last = []
_size = [0]
_by_id = {}
_fakes = set()
_prefix = []
_real_import = builtins.__import__


def standins(prefix, pairs, extra, bases=(), methods={}):
    """in all modules prefix.*: everything that is one of the real objects -> its stand-in; then set `extra` globals.
    Also where they are held by containers, classes, default arguments and partial applications, and what functions import."""
    if not _by_id:
        for r, f in pairs:
            _by_id.setdefault(id(r), f)
            _fakes.add(id(f))
        _prefix.append(prefix)
        builtins.__import__ = _import
    _last[:] = [prefix, pairs, extra, bases, methods]
    mods = [(n, m) for n, m in list(sys.modules.items()) if n == prefix or n.startswith(prefix + '.')]
    _size[0] = len(sys.modules)
    key = tuple(id(m) for n, m in mods)
    p = _plan.get(key)
    if p is None:
        sites, dicts = [], []
        for n, m in mods:
            d = m.__dict__
            dicts.append(d)
            for k, v in list(d.items()):
                if k[:2] == '__':
                    continue
                w = _swap(v)
                if w is not v or id(v) in _fakes:
                    sites.append((d.__setitem__, k, w))
                else:
                    _inside(v, n, 0, sites)
                if isinstance(v, type) and v.__module__ == n and bases and issubclass(v, bases):
                    for a, f in methods.items():
                        sites.append((functools.partial(setattr, v), a, f))
        p = (sites, dicts)
        _plan[key] = p
    for put, k, w in p[0]:
        put(k, w)
    for d in p[1]:
        d.update(extra)


def patch(prefix, pairs, extra):
    """in all modules prefix.*: every global that is one of the real objects -> its stand-in; then set `extra` globals"""
    key = (prefix, tuple(id(r) for r, f in pairs))
    p = _plan2.get(key)
    if p is None:
        ids = {id(r): i for i, (r, f) in enumerate(pairs)}
        p = []
        for m in list(sys.modules.values()):
            n = getattr(m, '__name__', None)
            if isinstance(n, str) and (n == prefix or n.startswith(prefix + '.')):
                p.append((m.__dict__, [(k, ids[id(v)]) for k, v in list(m.__dict__.items()) if id(v) in ids]))
        _plan2[key] = p
    for d, hits in p:
        for k, i in hits:
            d[k] = pairs[i][1]
        d.update(extra)


def refresh():
    """modules may have been imported since"""
    if _last and len(sys.modules) != _size[0]:
        standins(*_last)


def _swap(v):
    w = _by_id.get(id(v))
    if w is not None:
        return w
    if isinstance(v, functools.partial):
        f = _swap(v.func)
        if f is not v.func:
            return functools.partial(f, *v.args, **v.keywords)
    if type(v) is types.MethodType and type(v.__self__).__module__.startswith('multiprocessing.context'):
        w = _by_id.get(id(getattr(sys.modules['multiprocessing'], v.__name__, None)))
        if w is not None:
            return w
    if type(v) is tuple and any(_swap(x) is not x for x in v):
        return tuple(_swap(x) for x in v)
    return v


def _inside(v, modname, depth, sites):
    """stand-ins for what a module-level object holds"""
    if depth > 2:
        return
    if type(v) is dict or type(v) is list:
        for k, x in list(v.items() if type(v) is dict else enumerate(v)):
            w = _swap(x)
            if w is not x or id(x) in _fakes:
                sites.append((v.__setitem__, k, w))
            else:
                _inside(x, modname, depth + 1, sites)
    elif isinstance(v, types.FunctionType) and v.__module__ == modname:
        if v.__defaults__:
            w = tuple(_swap(x) for x in v.__defaults__)
            if any(a is not b or id(b) in _fakes for a, b in zip(w, v.__defaults__)):
                sites.append((functools.partial(setattr, v), '__defaults__', w))
        if v.__kwdefaults__:
            _inside(v.__kwdefaults__, modname, depth, sites)
    elif isinstance(v, type) and v.__module__ == modname:
        for k, x in list(vars(v).items()):
            if k[:2] == '__' and k != '__init__':
                continue
            y = x.__func__ if isinstance(x, staticmethod) else x
            w = _swap(y)
            if w is not y or id(y) in _fakes:
                if isinstance(w, types.FunctionType) and not isinstance(x, types.FunctionType):
                    w = staticmethod(w)         # a builtin kept as a class attribute is not a method
                sites.append((functools.partial(setattr, v), k, w))
            else:
                _inside(y, modname, depth + 1, sites)


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    """imports inside functions of the package give the stand-ins, too"""
    m = _real_import(name, globals, locals, fromlist, level)
    if globals is not None and _inside_function(globals):
        refresh()
    if globals is not None and level == 0 and _inside_function(globals):
        return _by_id.get(id(m), m)
    return m


def _inside_function(globals):
    n = globals.get('__name__')
    if not isinstance(n, str) or not _prefix or not (n == _prefix[0] or n.startswith(_prefix[0] + '.')):
        return False
    f = sys._getframe(2)
    return f.f_code.co_name != '<module>' and f.f_globals is globals
