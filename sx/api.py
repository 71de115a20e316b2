"""What harnesses use.  In symbolic mode values are symbolic; in concrete mode they come from a model."""
import os
import sys
import types

MODE = 'sym'
MODEL = {}
OBS = []
COUNTS = {}


class CheckFailed(Exception):
    """a property assertion does not hold (concrete mode)"""


class AssumeFailed(BaseException):
    pass


class CrashPoint(BaseException):
    """simulated death of the process (never caught by `except Exception`)"""


class NoBinding(Exception):
    """the observed interface does not exist in this tree (the job cannot be run)"""


def start(model=None):
    global MODEL
    MODEL = model or {}
    del OBS[:]
    COUNTS.clear()


def _uniq(name):
    n = COUNTS.get(name, 0)
    COUNTS[name] = n + 1
    return name if n == 0 else '%s#%d' % (name, n)


def _dom(d):
    from .terms import ISet, iset, CHARS, iset_from_values
    from . import unitab
    if d is None:
        return CHARS
    if isinstance(d, ISet):
        return d
    if isinstance(d, str):
        if d.startswith('set:'):
            return unitab.cset(d[4:])
        if d.startswith('rx:'):
            import regex
            return unitab.regex_set(regex, d[3:])
        return iset_from_values(map(ord, d))
    return iset(d)


def _var(name, dom):
    from . import engine
    name = _uniq(name)
    if MODE == 'sym':
        return engine.CUR.newvar(name, dom)
    if name in MODEL:
        return MODEL[name]
    return engine.pick(dom)


def string(name, n, dom=None):
    """string of exactly n characters, each in dom (None = all Unicode scalar values)"""
    d = _dom(dom)
    cs = [_var('%s[%d]' % (name, i), d) for i in range(n)]
    if MODE == 'sym':
        from .values import mkstr
        return mkstr(cs)
    return ''.join(map(chr, cs))


def bytestr(name, n, dom=None):
    from .terms import BYTES, iset
    d = BYTES if dom is None else _dom(dom) if isinstance(dom, str) else iset(dom)
    cs = [_var('%s[%d]' % (name, i), d) for i in range(n)]
    if MODE == 'sym':
        from .values import mkbytes
        return mkbytes(cs)
    return bytes(cs)


def text(name, lo, hi, dom=None):
    """string of lo..hi characters (the length is forked over)"""
    return string(name, lo + choice(name + '.len', hi - lo + 1) if hi > lo else lo, dom)


def integer(name, lo, hi):
    from .terms import iset
    v = _var(name, iset([(lo, hi)]))
    if MODE == 'sym':
        from .values import _i
        return _i(v)
    return v


def boolean(name):
    from .terms import iset
    v = _var(name, iset([(0, 1)]))
    if MODE == 'sym':
        from .values import _b
        from . import terms as tm
        return _b(tm.eq(v, tm.const(1)))
    return bool(v)


def flag(name):
    """boolean, forked"""
    return bool(boolean(name))


def choice(name, n):
    """0..n-1, forked"""
    if n <= 1:
        return 0
    from .terms import iset
    v = _var(name, iset([(0, n - 1)]))
    if MODE == 'sym':
        from . import engine
        return engine.CUR.choose(v, n + 1)
    return v


def pick(name, xs):
    return xs[choice(name, len(xs))]


def assume(c):
    if MODE == 'sym':
        from . import engine
        from .values import bt
        engine.CUR.assume(bt(c))
    elif not c:
        raise AssumeFailed()


def check(c, msg='assertion'):
    if MODE == 'sym':
        from . import engine
        from .values import bt
        engine.CUR.check(bt(c), msg)
    elif not c:
        raise CheckFailed(msg)


def fail(msg):
    check(False, msg)


def check_eq(a, b, msg='values differ'):
    if MODE == 'sym':
        from . import engine
        from . import runtime
        engine.CUR.check(runtime.eq_deep(a, b), msg)
    elif a != b:
        raise CheckFailed('%s: %r != %r' % (msg, a, b))


def iff(a, b):
    if MODE == 'sym':
        from .values import bt, _b
        from . import terms as tm
        return _b(tm.eq(bt(a), bt(b)))
    return bool(a) == bool(b)


def implies(a, b):
    if MODE == 'sym':
        from .values import s_or, s_not
        return s_or(s_not(a), b)
    return (not a) or bool(b)


def conj(*xs):
    if MODE == 'sym':
        from .values import s_and
        return s_and(*xs)
    return all(xs)


def disj(*xs):
    if MODE == 'sym':
        from .values import s_or
        return s_or(*xs)
    return any(xs)


def neg(x):
    if MODE == 'sym':
        from .values import s_not
        return s_not(x)
    return not x


def char_in(c, dom):
    """is the one-character string c in the character set (no fork)"""
    d = _dom(dom)
    if MODE == 'sym':
        from .values import ch_in, codes_of, _b
        return _b(ch_in(codes_of(c)[0], d))
    return ord(c) in d


def all_chars(s, dom):
    d = _dom(dom)
    if MODE == 'sym':
        from .values import ch_in, codes_of, _b
        from . import terms as tm
        return _b(tm.and_(*[ch_in(e, d) for e in codes_of(s)]))
    return all(ord(c) in d for c in s)


def decide(c):
    """fork on c"""
    return bool(c)


def known(x):
    """is x a plain value (not symbolic)"""
    if MODE == 'sym':
        from .values import SVal
        return not isinstance(x, SVal)
    return True


def concrete(x):
    """fork over all values of x (within the engine's limit)"""
    if MODE == 'sym':
        from .values import concretize
        return concretize(x)
    return x


def observe(*xs):
    """values recorded on the path; compared with a native run of the same input"""
    for x in xs:
        OBS.append(snapshot(x))


def snapshot(x):
    # containers may be mutated later
    if isinstance(x, list):
        return [snapshot(y) for y in x]
    if isinstance(x, tuple):
        return tuple(snapshot(y) for y in x)
    if type(x) is dict:
        return {k: snapshot(v) for k, v in x.items()}
    if MODE == 'sym':
        from .containers_ import SDict, SSet
        if isinstance(x, SDict):
            return [(snapshot(k), snapshot(v)) for k, v in x.items()]
        if isinstance(x, SSet):
            return SSet(x)
    elif isinstance(x, dict):
        return [(snapshot(k), snapshot(v)) for k, v in x.items()]
    if isinstance(x, set):
        return set(x)
    return x


def unsupported(what):
    """the code uses something the stand-ins do not model: no statement about this path"""
    if MODE == 'sym':
        from . import engine
        raise engine.Unsupported(what)
    raise AssumeFailed(what)


def raises(exc, f, *a, **k):
    """does f(*a, **k) raise exc?  other exceptions propagate"""
    try:
        f(*a, **k)
    except exc:
        return True
    return False


def bind(modname, *names):
    """fetch public objects of the code under test"""
    import importlib
    from . import patching
    try:
        m = importlib.import_module(modname)
        patching.refresh()
        r = []
        for n in names:
            o = m
            for part in n.split('.'):
                o = getattr(o, part)
            r.append(o)
    except (ImportError, AttributeError) as e:
        raise NoBinding('%s.%s: %s' % (modname, names, e))
    if not names:
        return m
    return r[0] if len(r) == 1 else tuple(r)
