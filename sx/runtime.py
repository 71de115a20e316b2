"""Run-time support of instrumented code: dispatch of calls, operators and displays on symbolic values."""
import ast
import bisect
import builtins
import collections
import copy
import functools
import fnmatch as _fnmatch
import heapq
import itertools
import logging
import operator
import os
import re
import sys
import types

import regex

from . import engine
from . import rx
from . import terms as tm
from . import codecs_
from .engine import Unsupported, EngineSignal
from .containers_ import SDict, SSet, SView, symkey, eq_term
from .values import (SVal, SStr, SInt, SBool, SBytes, lift, mkstr, mkbytes, codes_of, bcodes, is_sym, concretize,
                     fork, bt, s_not, s_or, s_and, _b, _i, it, ch_in, ch_eq)

H = {}
_keep = []
OPAQUE = '\u00absymbolic\u00bb'


def handles(*fs):
    def deco(h):
        for f in fs:
            H[id(f)] = h
            _keep.append(f)
        return h
    return deco


def note(x):
    engine.CUR.notes.add(x)


# ------------------------------------------------------------------------------------------------ calls
_FT = types.FunctionType
_MT = types.MethodType
_DIRECT_MODULES = ('itertools', '_operator', 'operator', 'heapq', '_heapq', 'bisect', '_bisect', 'copy',
                   '_collections', 'functools', '_functools', 'contextlib', 'types', 'weakref', 'dataclasses',
                   'greenlet', 'enum', 'typing', '__pypy__', 'collections')


def sx_call(f, *a, **k):
    h = H.get(id(f))
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is _FT:
        g = f.__globals__ or ()
        if '__sx__' in g or '__sx_native__' in g:
            return f(*a, **k)
        return _foreign(f, getattr(f, '__module__', None), a, k)
    if t is _MT:
        fn = f.__func__
        s = f.__self__
        if isinstance(s, logging.Logger):
            return False if fn.__name__ == 'isEnabledFor' else None
        g = getattr(fn, '__globals__', None)
        if g is not None and ('__sx__' in g or '__sx_native__' in g):
            return f(*a, **k)
        if type(s) in (str, bytes):
            return sx_mcall(s, fn.__name__, *a, **k)
        h = H.get(id(fn))
        if h is not None:
            return h(s, *a, **k)
        return _foreign(f, getattr(fn, '__module__', None), a, k, s)
    if isinstance(f, type):
        m = f.__module__
        if m in INSTR or issubclass(f, BaseException) or hasattr(f, '_fields'):
            return f(*a, **k)
        return _foreign(f, m, a, k)
    s = getattr(f, '__self__', None)
    if s is not None and not isinstance(s, types.ModuleType):
        if type(s) in (str, bytes):
            return sx_mcall(s, f.__name__, *a, **k)
        return _foreign(f, None, a, k, s)
    c = getattr(t, '__call__', None)
    if isinstance(c, _FT) and '__sx__' in (c.__globals__ or ()):
        return f(*a, **k)
    if t.__module__ in INSTR or t.__module__.startswith('sx'):
        return f(*a, **k)
    return _foreign(f, getattr(f, '__module__', None) or t.__module__, a, k)


INSTR = set()


def _foreign(f, mod, a, k, s=None):
    if mod in _DIRECT_MODULES:
        return f(*a, **k)
    if s is not None and isinstance(s, (list, dict, collections.deque, SVal, SDict, SSet)):
        if symargs(a) and isinstance(s, dict) and not isinstance(s, SDict):
            raise Unsupported('symbolic key into foreign dict')
        return f(*a, **k)
    if not symargs(a) and not (k and symargs(k.values())):
        return f(*[plain(x) for x in a], **{n: plain(x) for n, x in k.items()})
    note('concretised arguments of %s' % (getattr(f, '__qualname__', None) or getattr(f, '__name__', repr(f))))
    return f(*[plain(concretize(x)) for x in a], **{n: plain(concretize(x)) for n, x in k.items()})


def plain(x):
    """concrete SDict/SSet -> builtin containers (for foreign code)"""
    if type(x) is SDict:
        d = {plain(a): plain(b) for a, b in x.items()}
        if x.kind == 'counter':
            return collections.Counter(d)
        return d
    if type(x) is SSet:
        return {plain(a) for a in x}
    if type(x) is SView:
        return [plain(a) for a in x]
    return x


def symargs(a):
    for x in a:
        if isinstance(x, SVal):
            return True
        t = type(x)
        if t is str or t is int or x is None or t is bytes:
            continue
        if is_sym(x):
            return True
    return False


def sx_mcall(o, name, *a, **k):
    t = type(o)
    if t is str:
        if name == 'join':
            xs = list(a[0])
            for x in xs:
                if isinstance(x, SVal):
                    return lift(o).join(xs)
            return o.join(xs)
        if name == 'format':
            return sx_strformat(o, a, k)
        if name == 'maketrans':
            return plain(o.maketrans(*[plain(x) for x in a]))
        for x in a:
            if isinstance(x, SVal) or (type(x) is tuple and symargs(x)):
                return getattr(lift(o), name)(*a, **k)
        if a:
            a = [plain(x) for x in a]
        return getattr(o, name)(*a, **k)
    if t is bytes:
        if name == 'join':
            return SBytes(bcodes(o)).join(list(a[0]))
        for x in a:
            if isinstance(x, SVal) or (type(x) is tuple and symargs(x)):
                return getattr(SBytes(bcodes(o)), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t is list:
        if name == 'index':
            return _list_index(o, *a)
        if name == 'count':
            r = 0
            for y in o:
                r = r + _i(tm.ite(eq_deep(y, a[0]), tm.const(1), tm.const(0)))
            return r
        if name == 'sort' and k.get('key') is not None:
            k['key'] = functools.partial(sx_call, k['key'])
        return getattr(o, name)(*a, **k)
    if isinstance(o, SVal) or t is SDict or t is SSet or t is SView:
        return getattr(o, name)(*a, **k)
    return sx_call(getattr(o, name), *a, **k)


def _list_index(o, x, st=0, en=None):
    n = len(o)
    st, en, _ = slice(st, en).indices(n)
    for i in range(st, en):
        if fork(eq_deep(o[i], x)):
            return i
    raise ValueError('%s is not in list' % ('x',))


# ------------------------------------------------------------------------------------------------ operators
def eq_deep(x, y):
    """bool term for x == y"""
    if x is y and not isinstance(x, float):
        return tm.TRUE
    if type(x) is tuple and type(y) is tuple or type(x) is list and type(y) is list:
        if len(x) != len(y):
            return tm.FALSE
        ts = []
        for p, q in zip(x, y):
            t = eq_deep(p, q)
            if t is tm.FALSE:
                return t
            ts.append(t)
        return tm.and_(*ts)
    return bt(x == y)


def sx_eq(a, b):
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return _b(eq_deep(a, b))
    return a == b


def sx_ne(a, b):
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return _b(tm.not_(eq_deep(a, b)))
    return a != b


def sx_in(a, b):
    t = type(b)
    if isinstance(b, (SStr, SBytes, SDict, SSet, SView)):
        return b.sx_contains(a)
    if t is str:
        if isinstance(a, SStr):
            return lift(b).sx_contains(a)
        return a in b
    if t is bytes:
        if isinstance(a, SVal):
            return SBytes(bcodes(b)).sx_contains(a)
        return a in b
    if t is list or t is tuple:
        ts = []
        for x in b:
            q = eq_deep(x, a)
            if q is tm.TRUE:
                return True
            ts.append(q)
        return _b(tm.or_(*ts))
    if t is range and isinstance(a, SInt) and b.step == 1:
        return _b(tm.and_(tm.le(tm.const(b.start), a.t), tm.lt(a.t, tm.const(b.stop))))
    if isinstance(b, (dict, set, frozenset)) and symkey(a):
        return _b(tm.or_(*[eq_deep(x, a) for x in b]))
    c = getattr(t, '__contains__', None)
    if isinstance(c, _FT):
        r = sx_call(c, b, a)
        return r
    if isinstance(a, SVal) and c is None:
        for x in b:
            if fork(eq_deep(x, a)):
                return True
        return False
    if t.__module__ in ('types', 'builtins') and c is None:
        for x in b:
            if fork(eq_deep(x, a)):
                return True
        return False
    return a in b


def sx_notin(a, b):
    return s_not(sx_in(a, b))


def sx_mod(a, b):
    if type(a) is str:
        if is_sym(b):
            return _percent(a, b)
        return a % (plain(b) if not isinstance(b, tuple) else tuple(map(plain, b)))
    return a % b


def _percent(f, b):
    args = list(b) if type(b) is tuple else [b]
    out = ''
    i = 0
    while i < len(f):
        ch = f[i]
        if ch != '%':
            out = out + ch
            i += 1
            continue
        m = _PCT.match(f, i)
        if m is None:
            raise Unsupported('% format')
        i = m.end()
        key, flags, width, prec, d = m.groups()
        if d == '%':
            out = out + '%'
            continue
        if '*' in (width or '') or '*' in (prec or ''):
            raise Unsupported('% format *')
        if key is not None:
            v = b[key]
        else:
            if not args:
                raise TypeError('not enough arguments for format string')
            v = args.pop(0)
        if d in 'ra':
            v = sx_repr(v)
        elif d == 's':
            v = sx_str(v)
        elif type(v) is SInt and d in 'di' and not prec and not flags.strip('-0'):
            out = out + _intspec(v, ' ', '<' if '-' in flags else '>', '0' in flags and '-' not in flags, int(width or 0))
            continue
        else:
            v = plain(v)
            if is_sym(v):
                v = concretize(v)
            out = out + ('%' + flags + (width or '') + (prec or '') + d) % v
            continue
        if prec:
            v = v[:int(prec[1:] or 0)]
        out = out + _pad(v, ' ', '<' if '-' in flags else '>', int(width or 0))
    return out


_PCT = re.compile(r'%(?:\(([^)]*)\))?([-+ #0]*)(\d+|\*)?(\.(?:\d+|\*)?)?[hlL]?([a-zA-Z%])', re.S)
_SPEC = re.compile(r'(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d*)([,_]?)(?:\.(\d+))?([a-zA-Z%]?)', re.S)


def _pad(s, fill, align, width):
    n = width - len(s)
    if n <= 0:
        return s
    if align == '<':
        return s + fill * n
    if align == '^':
        return fill * (n // 2) + s + fill * (n - n // 2)
    return fill * n + s


def _intspec(v, fill, align, zero, width):
    from .values import bounds
    if zero and width:
        b = bounds(v.t)
        if b and b[0] >= 0 and b[1] < 10 ** width:
            out = []
            for i in range(width - 1, -1, -1):
                q = tm.div(v.t, 10 ** i) if i else v.t
                if b[1] >= 10 ** (i + 1):
                    q = tm.mod(q, 10)
                out.append(tm.add(q, tm.const(48)))
            return mkstr(out)
        r = int_to_str(v)
        if len(r) < width:
            neg = fork(tm.lt(v.t, tm.const(0)))
            return ('-' if neg else '') + '0' * (width - len(r)) + (r[1:] if neg else r)
        return r
    return _pad(int_to_str(v), fill, align, width)


def _spec(v, spec):
    m = _SPEC.fullmatch(spec)
    if m is None:
        raise Unsupported('format spec')
    fill, align, sign, alt, zero, width, sep, prec, typ = m.groups()
    width = int(width or 0)
    if type(v) is SInt:
        if sign in ('+', ' ') or alt or sep or prec is not None or typ not in ('', 'd') or align in ('=',):
            return format(v.__index__(), spec)
        return _intspec(v, fill or ' ', align or '>', bool(zero), width)
    if sign or alt or sep or typ not in ('', 's') or align == '=':
        raise Unsupported('format spec')
    if prec is not None:
        v = v[:int(prec)]
    return _pad(v, fill or ('0' if zero else ' '), align or '<', width)


def sx_strformat(f, a, k):
    if not symargs(a) and not symargs(k.values()):
        return f.format(*a, **k)
    import string
    out = ''
    n = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out = out + lit
        if field is None:
            continue
        first, rest = _fieldname(field)
        if first == '':
            v = a[n]
            n += 1
        elif first.isdigit():
            v = a[int(first)]
        else:
            v = k[first]
        for isattr, x in rest:
            v = sx_getattr(v, x) if isattr else sx_getitem(v, x)
        if '{' in spec:
            if '{}' in spec:
                raise Unsupported('automatic numbering in a format spec')
            spec = concretize(sx_strformat(spec, a, k))
        out = out + fmt1(v, conv, spec)
    return out


def _fieldname(field):
    m = re.match(r'[^.\[]*', field)
    rest = []
    for x in re.finditer(r'\.([^.\[]+)|\[([^\]]*)\]', field[m.end():]):
        rest.append((True, x.group(1)) if x.group(1) is not None else (False, int(x.group(2)) if x.group(2).isdigit() else x.group(2)))
    return m.group(), rest


def sx_getitem(o, i):
    return o[i]


_NATFMT = (str, int, float, bool, type(None))


def fmt1(v, conv, spec):
    if conv == 'r':
        v = sx_repr(v)
    elif conv == 's':
        v = sx_str(v)
    elif conv == 'a':
        v = sx_repr(v)
    t = type(v)
    if t in _NATFMT:
        return format(v, spec)
    if t is SStr or t is SInt or t is SBytes:
        if spec == '':
            return sx_str(v)
        if t is SBytes:
            raise TypeError('unsupported format string passed to bytes.__format__')
        return _spec(v, spec)
    if t is SBool:
        return format(bool(v), spec)
    if isinstance(v, (list, tuple, dict, SSet, SDict)):
        return sx_str(v)
    if getattr(t, '__format__', None) is object.__format__ and spec == '':
        return sx_str(v)
    f = getattr(t, '__format__', None)
    if isinstance(f, _FT) and '__sx__' in (f.__globals__ or ()):
        return f(v, spec)
    return format(v, spec)


def sx_fmt(*parts):
    """parts: str | (value, conv, spec)"""
    out = ''
    for p in parts:
        if type(p) is str:
            out = out + p
        else:
            out = out + fmt1(*p)
    return out


_CODES_INT = {}


def sx_str(x='', *enc):
    t = type(x)
    if t is SStr or t is str:
        return x
    if enc:
        return sx_mcall(x, 'decode', *enc)
    if t is SInt:
        return int_to_str(x)
    if t is SBool:
        return 'True' if x else 'False'
    if t is SBytes:
        return codecs_.bytes_repr(x)
    if t in _NATFMT or t is bytes:
        return str(x)
    if isinstance(x, BaseException):
        if not is_sym(x.args):
            return str(x)
        return sx_str(x.args[0]) if len(x.args) == 1 else OPAQUE
    f = getattr(t, '__str__', None)
    if isinstance(f, _FT) and '__sx__' in (f.__globals__ or ()):
        return f(x)
    if f is object.__str__:
        return sx_repr(x)
    if is_sym(x) or isinstance(x, (list, tuple, SDict, SSet)):
        return sx_repr(x)
    return str(x)


def sx_repr(x):
    t = type(x)
    if isinstance(x, SVal):
        if t is SInt:
            return int_to_str(x)
        if t is SBool:
            return 'True' if x else 'False'
        if t is SBytes:
            return codecs_.bytes_repr(x)
        note('opaque repr')
        return OPAQUE
    if t is list:
        return '[' + sx_mcall(', ', 'join', [sx_repr(y) for y in x]) + ']'
    if t is tuple:
        return '(' + sx_mcall(', ', 'join', [sx_repr(y) for y in x]) + (',)' if len(x) == 1 else ')')
    if t is SSet:
        return 'set()' if not x else '{' + sx_mcall(', ', 'join', [sx_repr(y) for y in x]) + '}'
    if t is SDict:
        s = '{' + sx_mcall(', ', 'join', [sx_repr(p) + ': ' + sx_repr(q) for p, q in x.items()]) + '}'
        return s
    f = getattr(t, '__repr__', None)
    if isinstance(f, _FT) and '__sx__' in (f.__globals__ or ()):
        return f(x)
    try:
        return repr(x)
    except Unsupported:
        note('opaque repr')
        return OPAQUE


def int_to_str(x):
    t = x.t
    if t.op == 'c':
        return str(t.a)
    neg = fork(tm.lt(t, tm.const(0)))
    u = tm.mul(t, tm.const(-1)) if neg else t
    k = 1
    while k < 19 and not fork(tm.lt(u, tm.const(10 ** k))):
        k += 1
    out = [45] if neg else []
    for i in range(k - 1, -1, -1):
        q = tm.div(u, 10 ** i) if i else u
        if i != k - 1:
            q = tm.mod(q, 10)
        out.append(tm.add(q, tm.const(48)))
    r = mkstr(out)
    engine.CUR.__dict__.setdefault('intstr', {})[r.c] = t
    return r


def str_to_int(s, base=10):
    c = s.c
    h = engine.CUR.__dict__.get('intstr', {}).get(c)
    if h is not None and base == 10:
        return _i(h)
    if base != 10:
        return int(concretize(s), base)
    from . import unitab
    c = list(c)
    sp = unitab.cset('intspace')
    while c and fork(ch_in(c[0], sp)):
        c.pop(0)
    while c and fork(ch_in(c[-1], sp)):
        c.pop()
    bad = ValueError('invalid literal for int() with base 10')
    if not c:
        raise bad
    h = engine.CUR.__dict__.get('intstr', {}).get(tuple(c))
    if h is not None:
        return _i(h)
    neg = False
    if fork(tm.or_(ch_eq(c[0], 43), ch_eq(c[0], 45))):
        neg = fork(ch_eq(c[0], 45))
        c.pop(0)
        if not c:
            raise bad
    v = tm.const(0)
    prev_us = True
    dec = unitab.cset('decimal')
    df = unitab.dec_fun()
    asc = tm.iset([(48, 57)])
    for i, e in enumerate(c):
        if not prev_us and i < len(c) - 1 and fork(ch_eq(e, 95)):
            prev_us = True
            continue
        prev_us = False
        if fork(ch_in(e, asc)):
            d = tm.add(tm.tt(e), tm.const(-48))
        elif fork(ch_in(e, dec)):
            d = tm.fn(df, tm.tt(e))
        else:
            raise bad
        v = tm.addl(tm.mul(v, tm.const(10)), d)
    if neg:
        v = tm.mul(v, tm.const(-1))
    return _i(v)


# ------------------------------------------------------------------------------------------------ displays
def sx_dict(pairs):
    d = SDict()
    for x in pairs:
        if x[0] is _UNPACK:
            d.update(x[1])
        else:
            d[x[0]] = x[1]
    return d


_UNPACK = object()


def sx_set(xs):
    return SSet(xs)


# ------------------------------------------------------------------------------------------------ builtins
H[id(str)] = sx_str
H[id(repr)] = sx_repr
_keep += [str, repr]


@handles(int)
def sx_int(x=0, base=None):
    if type(x) is SStr:
        return str_to_int(x, 10 if base is None else base)
    if type(x) is SInt:
        return x
    if type(x) is SBool:
        return _i(tm.ite(x.t, tm.const(1), tm.const(0)))
    return int(x) if base is None else int(x, base)


@handles(float)
def sx_float(x=0.0):
    if isinstance(x, SVal):
        x = concretize(x)
    return float(x)


@handles(bool)
def sx_bool(x=False):
    return bool(x)


@handles(len)
def sx_len(x):
    return len(x)


@handles(ord)
def sx_ord(c):
    if type(c) is SStr:
        if len(c.c) != 1:
            raise TypeError('ord() expected a character')
        e = c.c[0]
        return e if isinstance(e, int) else SInt(e)
    return ord(c)


@handles(chr)
def sx_chr(x):
    if type(x) is SInt:
        if not fork(tm.isin(x.t, tm.iset([(0, tm.MAXCP)]))):
            raise ValueError('chr() arg not in range')
        return SStr((x.t,))
    return chr(x)


_TYPES = {SStr: str, SInt: int, SBool: bool, SBytes: bytes, SSet: set, SView: type({}.items())}


def _typeof(x):
    t = type(x)
    r = _TYPES.get(t)
    if r is not None:
        return r
    if t is SDict:
        return collections.Counter if x.kind == 'counter' else \
            collections.defaultdict if x.kind == 'defaultdict' else \
            collections.OrderedDict if x.kind == 'ordered' else dict
    return t


@handles(type)
def sx_type(*a, **k):
    if len(a) == 1:
        return _typeof(a[0])
    return type(*a, **k)


@handles(isinstance)
def sx_isinstance(x, c):
    t = type(x)
    if t in _TYPES or t is SDict:
        return issubclass(_typeof(x), c)
    return isinstance(x, c)


def _key(f):
    return None if f is None else (lambda x: sx_call(f, x))


@handles(sorted)
def sx_sorted(xs, key=None, reverse=False):
    return sorted(xs, key=_key(key), reverse=bool(reverse))


@handles(map)
def sx_map(f, *xs):
    return (sx_call(f, *t) for t in zip(*xs))


@handles(filter)
def sx_filter(f, xs):
    if f is None:
        return (x for x in xs if x)
    return (x for x in xs if sx_call(f, x))


def _minmax(nat, less):
    def h(*a, **k):
        key = _key(k.get('key'))
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if 'default' in k:
                return k['default']
            return nat(xs)
        if key is None and all(isinstance(x, (int, SInt)) for x in xs) and any(type(x) is SInt for x in xs):
            fixed = [x for x in xs if type(x) is not SInt]
            r = it(nat(fixed)) if fixed else None
            seen = set()
            for x in xs:
                if type(x) is not SInt:
                    continue
                x = it(x)
                if x in seen:
                    continue
                seen.add(x)
                r = x if r is None else tm.ite(less(x, r), x, r)
            return _i(r)
        best = xs[0]
        bk = key(best) if key else best
        for x in xs[1:]:
            kx = key(x) if key else x
            if (kx < bk) if nat is min else (kx > bk):
                best, bk = x, kx
        return best
    return h


H[id(min)] = _minmax(min, lambda x, r: tm.lt(x, r))
H[id(max)] = _minmax(max, lambda x, r: tm.lt(r, x))
def sx_print(*a, **k):
    f = k.get('file')
    if f is not None and f is not sys.stdout and f is not sys.stderr:
        sep = k.get('sep')
        end = k.get('end')
        f.write(sx_mcall(' ' if sep is None else sep, 'join', [sx_str(x) for x in a]) + ('\n' if end is None else end))


H[id(print)] = sx_print
_keep += [min, max, print]


@handles(sum)
def sx_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


@handles(dict)
def sx_dictcall(*a, **k):
    return SDict(*a, **k)


@handles(collections.OrderedDict)
def sx_odict(*a, **k):
    d = SDict(*a, **k)
    d.kind = 'ordered'
    return d


@handles(collections.Counter)
def sx_counter(x=None, **k):
    d = SDict()
    d.kind = 'counter'
    if x is not None:
        d.update(x)
    if k:
        d.update(SDict(k))
    return d


@handles(collections.defaultdict)
def sx_defaultdict(f=None, *a, **k):
    d = SDict(*a, **k)
    d.kind = 'defaultdict'
    d.default_factory = f
    return d


@handles(set, frozenset)
def sx_setcall(xs=()):
    return SSet(xs)


@handles(bytes)
def sx_bytes(x=b'', *enc):
    if enc:
        return sx_mcall(x, 'encode', *enc)
    if type(x) is SBytes:
        return x
    if isinstance(x, (list, tuple)):
        return mkbytes([y.t if isinstance(y, SInt) else y for y in x])
    return bytes(x)


@handles(hash)
def sx_hash(x):
    if isinstance(x, SVal):
        raise Unsupported('hash()')
    return hash(x)


@handles(any)
def sx_any(xs):
    for x in xs:
        if x:
            return True
    return False


@handles(all)
def sx_all(xs):
    for x in xs:
        if not x:
            return False
    return True


@handles(getattr)
def sx_getattr(o, n, *d):
    if isinstance(n, SVal):
        n = concretize(n)
    return getattr(o, n, *d)


@handles(zip)
def sx_zip(*a):
    return zip(*a)


@handles(enumerate)
def sx_enumerate(x, start=0):
    return enumerate(x, start)


@handles(list)
def sx_list(x=()):
    return list(x)


@handles(tuple)
def sx_tuple(x=()):
    return tuple(x)


@handles(iter)
def sx_iter(*a):
    return iter(*a)


@handles(next)
def sx_next(*a):
    return next(*a)


@handles(reversed)
def sx_reversed(x):
    if isinstance(x, (SStr, SBytes)):
        return iter(list(x)[::-1])
    return reversed(x)


@handles(range)
def sx_range(*a):
    return range(*[x.__index__() if isinstance(x, SVal) else x for x in a])


@handles(abs)
def sx_abs(x):
    return abs(x)


@handles(round)
def sx_round(x, *a):
    return round(x, *a)


@handles(divmod)
def sx_divmod(x, y):
    return x // y, x % y


@handles(callable)
def sx_callable(x):
    return callable(x)


@handles(id)
def sx_id(x):
    return id(x)


@handles(hasattr)
def sx_hasattr(o, n):
    return hasattr(o, n)


@handles(setattr)
def sx_setattr(o, n, v):
    return setattr(o, n, v)


@handles(format)
def sx_format(v, spec=''):
    return fmt1(v, None, spec)


@handles(super, vars, dir, issubclass, delattr)
def sx_raw(*a, **k):
    raise Unsupported('raw builtin')


for _f in (issubclass, delattr, vars, dir):
    H[id(_f)] = _f

for _n in dir(str):
    _f = getattr(str, _n)
    if not _n.startswith('__') and callable(_f) and _n != 'maketrans':
        H[id(_f)] = (lambda n: lambda o, *a, **k: sx_mcall(o, n, *a, **k))(_n)
        _keep.append(_f)


@handles(copy.deepcopy)
def sx_deepcopy(x, memo=None):
    return copy.deepcopy(x)


@handles(copy.copy)
def sx_copy(x):
    return copy.copy(x)


@handles(ast.literal_eval)
def sx_literal_eval(s):
    if type(s) is SStr:
        return codecs_.literal_bytes(s)
    return ast.literal_eval(s)


@handles(itertools.groupby)
def sx_groupby(xs, key=None):
    # keys compared with forks
    cur = None
    grp = []
    first = True
    for x in xs:
        k = x if key is None else sx_call(key, x)
        if first or not fork(eq_deep(k, cur)):
            if not first:
                yield cur, iter(grp)
            cur, grp, first = k, [], False
        grp.append(x)
    if not first:
        yield cur, iter(grp)


@handles(functools.reduce)
def sx_reduce(f, xs, *init):
    xs = iter(xs)
    r = init[0] if init else next(xs)
    for x in xs:
        r = sx_call(f, r, x)
    return r


class SxCache(object):
    def __init__(self, f, maxsize):
        self.f = f
        self.memo = SDict()
        self.__name__ = getattr(f, '__name__', 'f')
        self.__doc__ = f.__doc__
        self.__wrapped__ = f

    def __call__(self, *a, **k):
        key = a + tuple(x for kv in sorted(k.items()) for x in kv)
        for x in key:
            if isinstance(x, (list, dict, SDict, SSet, set)):
                raise TypeError('unhashable type')
        e = self.memo._find(key)
        if e is not None:
            return e[1]
        r = sx_call(self.f, *a, **k)
        self.memo[key] = r
        return r

    def __get__(self, o, t=None):
        return self if o is None else types.MethodType(self, o)

    def cache_clear(self):
        self.memo.clear()


@handles(functools.lru_cache)
def sx_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return SxCache(maxsize, 128)
    return lambda f: SxCache(f, maxsize)


if hasattr(functools, 'cache'):
    H[id(functools.cache)] = lambda f: SxCache(f, None)
    _keep.append(functools.cache)

# ------------------------------------------------------------------------------------------------ regex
_SMOD = {}


def _rxfun(mod, name):
    real = getattr(mod, name)

    def h(p, *a, **k):
        if name in ('compile', 'escape', 'purge', 'template'):
            if name == 'compile':
                try:
                    return rx.compile_(mod, p, *a, **k)
                except rx.RxUnsupported as e:
                    note('regex not modelled: %s' % e)
                    return mod.compile(concretize(p), *a, **k)
            return rx.escape(mod, p)
        # p, [repl,] string
        ns = 1 if name in ('sub', 'subn') else 0
        s = a[ns] if len(a) > ns else k.get('string')
        try:
            rest = list(a[ns + 1:])
            flags = k.pop('flags', 0)
            if name in ('match', 'fullmatch', 'search', 'findall', 'finditer') and rest and isinstance(rest[0], int):
                flags = rest[0]
                rest = rest[1:]
            pat = rx.compile_(mod, p, flags)
            if ns:
                return getattr(pat, name)(_cb(a[0]), s, *rest, **k)
            return getattr(pat, name)(s, *rest, **k)
        except rx.RxUnsupported as e:
            note('regex not modelled: %s' % e)
            return real(concretize(p), *[concretize(x) for x in a], **k)
    return h


def _cb(f):
    if isinstance(f, (str, SStr)):
        return f
    return lambda m: sx_call(f, m)


for _m in (re, regex):
    for _n in ('match', 'fullmatch', 'search', 'findall', 'finditer', 'split', 'sub', 'subn', 'compile', 'escape'):
        H[id(getattr(_m, _n))] = _rxfun(_m, _n)
        _keep.append(getattr(_m, _n))


@handles(_fnmatch.fnmatch, _fnmatch.fnmatchcase)
def sx_fnmatch(name, pat):
    if not is_sym(name) and not is_sym(pat):
        return _fnmatch.fnmatchcase(name, pat)
    if is_sym(pat):
        pat = concretize(pat)
    # fnmatch.translate: '(?s:...)\Z'
    r = _fnmatch.translate(pat)
    m = re.fullmatch(r'\(\?s:(.*)\)\\Z', r, re.S)
    if not m:
        raise Unsupported('fnmatch pattern')
    return rx.compile_(re, m.group(1), re.S).fullmatch(name) is not None


# ------------------------------------------------------------------------------------------------ os.path etc.
@handles(os.fspath)
def sx_fspath(p):
    if isinstance(p, (SStr, SBytes, str, bytes)):
        return p
    return os.fspath(p)


_pp = None


def _posix(name):
    real = getattr(os.path, name)

    def h(*a, **k):
        if not symargs(a) and not symargs(k.values()):
            return real(*a, **k)
        global _pp
        if _pp is None:
            from . import instrument
            _pp = instrument.load_private('posixpath')
        return getattr(_pp, name)(*a, **k)
    return h


for _n in ('join', 'split', 'splitext', 'basename', 'dirname', 'normpath', 'relpath', 'isabs', 'commonprefix',
           'abspath', 'commonpath', 'normcase', 'splitdrive'):
    H[id(getattr(os.path, _n))] = _posix(_n)
    _keep.append(getattr(os.path, _n))


_gp = None


def _generic(name):
    import genericpath
    real = getattr(genericpath, name)

    def h(*a, **k):
        if not symargs(a) and not symargs(k.values()):
            return real(*a, **k)
        global _gp
        if _gp is None:
            from . import instrument
            _gp = instrument.load_private('genericpath')
        return getattr(_gp, name)(*a, **k)
    H[id(real)] = h
    _keep.append(real)


for _n in ('_splitext', 'commonprefix'):
    _generic(_n)


def _refuse(name):
    def h(*a, **k):
        if symargs(a):
            raise Unsupported(name + ' on symbolic arguments')
        return getattr(builtins, name)(*a, **k)
    return h


H[id(open)] = _refuse('open')
_keep.append(open)
for _n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'warn'):
    H[id(getattr(logging, _n))] = lambda *a, **k: None
    _keep.append(getattr(logging, _n))

try:
    import tqdm as _tqdm

    class FakeTqdm(object):
        def __init__(self, it=None, total=None, **k):
            self.it = it

        def __iter__(self):
            return iter(self.it)

        def update(self, n=1):
            pass

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        set_description = set_postfix = write = lambda self, *a, **k: None

    H[id(_tqdm.tqdm)] = FakeTqdm
    _keep.append(_tqdm.tqdm)
except ImportError:
    pass
