"""Symbolic values: SBool, SInt, SStr, SBytes (concrete length, symbolic elements)."""
from . import terms as tm
from . import engine
from . import unitab
from .engine import Unsupported, Truncated
from .terms import T, iset, isin, eq, and_, or_, not_, const, CHARS, ASCII, BYTES

CHOOSE_LIMIT = 80


def _b(t):
    """T -> bool or SBool"""
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return False
    return SBool(t)


def _i(t):
    return t.a if t.op == 'c' else SInt(t)


def bounds(t, memo=None):
    """(lowest, highest) value of an integer term under the domains of its variables, or None"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    o = t.op
    r = None
    if o == 'c':
        r = (t.a, t.a)
    elif o == 'v':
        d = engine.CUR.dom.get(t)
        if d is not None and d.r:
            r = (d.r[0][0], d.r[-1][1])
    elif o == '+':
        x, y = bounds(t.a[0], memo), bounds(t.a[1], memo)
        if x and y:
            r = (x[0] + y[0], x[1] + y[1])
    elif o == '*' and t.a[1].op == 'c':
        x, k = bounds(t.a[0], memo), t.a[1].a
        if x:
            r = (x[0] * k, x[1] * k) if k >= 0 else (x[1] * k, x[0] * k)
    elif o == 'ite':
        x, y = bounds(t.a[1], memo), bounds(t.a[2], memo)
        if x and y:
            r = (min(x[0], y[0]), max(x[1], y[1]))
    elif o == 'div':
        x, k = bounds(t.a[0], memo), t.a[1].a
        if x:
            r = (x[0] // k, x[1] // k)
    elif o == 'mod':
        r = (0, t.a[1].a - 1)
    memo[t] = r
    return r


def bt(x):
    """python/symbolic truth value -> bool term"""
    if isinstance(x, SBool):
        return x.t
    if x is True:
        return tm.TRUE
    if x is False:
        return tm.FALSE
    if isinstance(x, SInt):
        return not_(eq(x.t, const(0)))
    return tm.TRUE if x else tm.FALSE


def fork(t):
    return engine.CUR.branch(t)


class SVal(object):
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SBool(SVal):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return engine.CUR.branch(self.t)

    def __int__(self):
        return 1 if engine.CUR.branch(self.t) else 0

    __index__ = __int__

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return _b(eq(self.t, bt(o)))
        if isinstance(o, (int, SInt)):
            return _i(tm.ite(self.t, const(1), const(0))) == o
        return False

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return _b(and_(self.t, bt(o)))

    __rand__ = __and__

    def __or__(self, o):
        return _b(or_(self.t, bt(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return _b(not_(eq(self.t, bt(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return ~int(self)

    def __add__(self, o):
        return _i(tm.ite(self.t, const(1), const(0))) + o

    __radd__ = __add__

    def __repr__(self):
        return 'SBool'


def s_not(x):
    if isinstance(x, SBool):
        return _b(not_(x.t))
    return not x


def s_and(*xs):
    return _b(and_(*[bt(x) for x in xs]))


def s_or(*xs):
    return _b(or_(*[bt(x) for x in xs]))


def it(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return tm.ite(x.t, const(1), const(0))
    return const(x)


def _isint(o):
    return isinstance(o, (int, SInt, SBool))


class SInt(SVal):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def real(self):
        return self

    numerator = real
    imag = 0
    denominator = 1

    def conjugate(self):
        return self

    def __index__(self):
        return engine.CUR.choose(self.t, CHOOSE_LIMIT)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __bool__(self):
        return engine.CUR.branch(not_(eq(self.t, const(0))))

    def __hash__(self):
        return hash(self.__index__())

    def __add__(self, o):
        if not _isint(o):
            return self._fl(o, '__add__')
        return _i(tm.addl(self.t, it(o)))

    def _fl(self, o, m):
        if isinstance(o, float):
            return getattr(float(self), m)(o)
        return NotImplemented

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if not _isint(o):
            return self._fl(o, '__sub__')
        return _i(tm.sub(self.t, it(o)))

    def __rsub__(self, o):
        if not _isint(o):
            return self._fl(o, '__rsub__')
        return _i(tm.sub(it(o), self.t))

    def __mul__(self, o):
        if not _isint(o):
            if isinstance(o, (str, bytes, list, tuple, SStr)):
                return o * self.__index__()
            return self._fl(o, '__mul__')
        b = it(o)
        if b.op != 'c' and self.t.op != 'c':
            b = const(int(o))
        return _i(tm.mul(self.t, b))

    __rmul__ = __mul__

    def __neg__(self):
        return _i(tm.mul(self.t, const(-1)))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        if not _isint(o):
            return self._fl(o, '__floordiv__')
        k = int(o)
        if k == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if k < 0:
            return (-self) // (-k)
        b = bounds(self.t)
        if b and b[0] // k == b[1] // k:
            return b[0] // k
        return _i(tm.div(self.t, k))

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, o):
        if not _isint(o):
            return self._fl(o, '__mod__')
        k = int(o)
        if k <= 0:
            return self.__index__() % k
        b = bounds(self.t)
        if b and b[0] // k == b[1] // k:
            return _i(tm.addl(self.t, const(-(b[0] // k) * k)))
        return _i(tm.mod(self.t, k))

    def __rmod__(self, o):
        return o % self.__index__()

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return self.__index__() / (o if not isinstance(o, SInt) else int(o))

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o):
        return self.__index__() ** int(o)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self.__index__() & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | int(o)

    def __xor__(self, o):
        return self.__index__() ^ int(o)

    def _cmp(self, o, f):
        if not _isint(o):
            if isinstance(o, float):
                if o == float('inf'):
                    return f(const(0), const(1))
                if o == float('-inf'):
                    return f(const(1), const(0))
                return f(const(int(self.__index__())), const(int(o))) if o == int(o) else self._fl(o, '__lt__')
            return NotImplemented
        return _b(f(self.t, it(o)))

    def __eq__(self, o):
        if not _isint(o):
            return False if not isinstance(o, float) else float(self) == o
        return _b(eq(self.t, it(o)))

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, tm.lt)

    def __le__(self, o):
        return self._cmp(o, tm.le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: tm.lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: tm.le(b, a))

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return 'SInt(%s)' % tm.tstr(self.t)[:60]

    def bit_length(self):
        return self.__index__().bit_length()


# -------------------------------------------------------------------- characters
def ch_in(e, s):
    """e: int or T; s: ISet -> bool term"""
    if isinstance(e, T):
        return isin(e, s)
    return tm.TRUE if e in s else tm.FALSE


def ch_eq(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return eq(tm.tt(a), tm.tt(b))
    return tm.TRUE if a == b else tm.FALSE


def simp(e):
    return e.a if isinstance(e, T) and e.op == 'c' else e


_identmemo = {}


def simplify_unary(t, dom):
    """if the one-variable term t equals its variable (+ constant) on dom, return that"""
    if t.op in 'cv':
        return t
    if len(t.vars) != 1:
        return t
    k = (t, dom.id)
    r = _identmemo.get(k)
    if r is None:
        v, = t.vars
        r = t
        first = None
        env = {}
        for x in dom.values():
            env[v] = x
            d = tm.ev(t, env) - x
            if first is None:
                first = d
            elif d != first:
                break
        else:
            if first is not None:
                r = tm.add(v, const(first))
        _identmemo[k] = r
    return r


class SSeq(SVal):
    __slots__ = ('c',)

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __hash__(self):
        raise Unsupported('hash of symbolic string')


def _codes(s):
    return tuple(map(ord, s))


def lift(x):
    """str|SStr -> SStr"""
    if isinstance(x, SStr):
        return x
    if isinstance(x, str):
        return SStr(_codes(x))
    raise TypeError('expected str instance, %s found' % type(x).__name__)


def mkstr(codes, lit=None):
    codes = tuple(codes)
    for e in codes:
        if not isinstance(e, int):
            return SStr(codes)
    return ''.join(map(chr, codes))


def norm_index(i, n):
    return i


def _idx(x):
    return x.__index__() if isinstance(x, SVal) else x


def codes_of(x):
    return x.c if isinstance(x, SStr) else _codes(x)


def seq_eq(a, b):
    if len(a) != len(b):
        return tm.FALSE
    ts = []
    for x, y in zip(a, b):
        t = ch_eq(x, y)
        if t is tm.FALSE:
            return t
        if t is not tm.TRUE:
            ts.append(t)
    return and_(*ts)


class SStr(SSeq):
    __slots__ = ('escaped',)

    def __init__(self, c, escaped=None):
        self.c = c
        self.escaped = escaped       # frozenset of positions that are regex-escaped literals

    # --- comparison
    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return _b(seq_eq(self.c, codes_of(o)))
        return False

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of symbolic string')

    def _less(self, o, strict):
        if not isinstance(o, (str, SStr)):
            return NotImplemented
        a, b = self.c, codes_of(o)
        # lexicographic as one term
        n = min(len(a), len(b))
        res = tm.TRUE if (len(a) < len(b) or (len(a) == len(b) and not strict)) else tm.FALSE
        for i in range(n - 1, -1, -1):
            x, y = tm.tt(a[i]), tm.tt(b[i])
            res = or_(tm.lt(x, y), and_(eq(x, y), res))
        return _b(res)

    def __lt__(self, o):
        return self._less(o, True)

    def __le__(self, o):
        return self._less(o, False)

    def __gt__(self, o):
        r = self._less(o, False)
        return r if r is NotImplemented else s_not(r)

    def __ge__(self, o):
        r = self._less(o, True)
        return r if r is NotImplemented else s_not(r)

    def __repr__(self):
        return 'SStr(%s)' % ''.join(chr(e) if isinstance(e, int) else '?' for e in self.c)

    def __str__(self):
        raise Unsupported('str() of symbolic string outside instrumented code')

    def __format__(self, spec):
        raise Unsupported('format() of symbolic string outside instrumented code')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # --- structure
    def __getitem__(self, i):
        if isinstance(i, slice):
            if any(isinstance(x, SVal) for x in (i.start, i.stop, i.step)):
                i = slice(_opt(i.start), _opt(i.stop), _opt(i.step))
            esc = None
            if self.escaped:
                esc = frozenset(k for k, p in enumerate(range(len(self.c))[i]) if p in self.escaped)
            return _mk2(self.c[i], esc)
        i = _idx(i)
        try:
            e = self.c[i]
        except IndexError:
            raise IndexError('string index out of range')
        if isinstance(e, int):
            return chr(e)
        return SStr((e,))

    def __iter__(self):
        for e in self.c:
            yield chr(e) if isinstance(e, int) else SStr((e,))

    def __add__(self, o):
        if not isinstance(o, (str, SStr)):
            return NotImplemented
        if not o:
            return self
        esc = None
        oe = getattr(o, 'escaped', None)
        if self.escaped or oe:
            n = len(self.c)
            esc = frozenset(self.escaped or ()) | frozenset(n + k for k in (oe or ()))
        return _mk2(self.c + codes_of(o), esc)

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return lift(o).__add__(self) if o else self

    def __mul__(self, n):
        return mkstr(self.c * _idx(n))

    __rmul__ = __mul__

    def __mod__(self, a):
        raise Unsupported('% on symbolic format')

    def __contains__(self, x):
        return bool(self.sx_contains(x))

    def sx_contains(self, x):
        if not isinstance(x, (str, SStr)):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(x).__name__)
        p = codes_of(x)
        return _b(or_(*[seq_eq(self.c[i:i + len(p)], p) for i in range(len(self.c) - len(p) + 1)]))

    # --- predicates
    def _all(self, name, empty=False):
        if not self.c:
            return empty
        s = unitab.cset(name)
        return _b(and_(*[ch_in(e, s) for e in self.c]))

    def isspace(self):
        return self._all('space')

    def isdigit(self):
        return self._all('digit')

    def isalpha(self):
        return self._all('alpha')

    def isalnum(self):
        return self._all('alnum')

    def isdecimal(self):
        return self._all('decimal')

    def isnumeric(self):
        return self._all('numeric')

    def isprintable(self):
        return self._all('printable', True)

    def isascii(self):
        return _b(and_(*[ch_in(e, ASCII) for e in self.c]))

    def isupper(self):
        up, bl = unitab.cset('up'), unitab.cset('blockU')
        return _b(and_(or_(*[ch_in(e, up) for e in self.c]), *[not_(ch_in(e, bl)) for e in self.c]))

    def islower(self):
        lo, bl = unitab.cset('lo'), unitab.cset('blockL')
        return _b(and_(or_(*[ch_in(e, lo) for e in self.c]), *[not_(ch_in(e, bl)) for e in self.c]))

    def isidentifier(self):
        if not self.c:
            return False
        a, b = unitab.cset('idstart'), unitab.cset('idcont')
        return _b(and_(ch_in(self.c[0], a), *[ch_in(e, b) for e in self.c[1:]]))

    def istitle(self):
        return self._concretized().istitle()

    # --- case mapping
    def _mapcase(self, which, lo=0, hi=None):
        out = []
        plan = unitab.case_plan(which)
        m = unitab.casemap(which)
        codes = self.c
        for i in range(lo, len(codes) if hi is None else hi):
            e = codes[i]
            if isinstance(e, int):
                if e == 0x3a3 and which in ('lower', 'swapcase'):
                    out.append(self._sigma(codes, i))
                else:
                    out.extend(m.get(e, (e,)))
                continue
            done = False
            for dom, names in plan[:-1]:
                if dom.size and fork(isin(e, dom)):
                    self._mapone(e, dom, names, out, which, codes, i)
                    done = True
                    break
            if not done:
                dom, names = plan[-1]
                self._mapone(e, dom, names, out, which, codes, i)
        return out

    def _mapone(self, e, dom, names, out, which, codes, i):
        if names is None:
            out.append(e)
        elif isinstance(names, int):
            out.append(simp(tm.add(e, const(names))))
        else:
            if which in ('lower', 'swapcase') and 0x3a3 in dom and fork(isin(e, iset([(0x3a3, 0x3a3)]))):
                out.append(self._sigma(codes, i))
                return
            for nm in names:
                out.append(simp(tm.fn(nm, e)))

    def _sigma(self, codes, i):
        """final sigma rule (measured on the running interpreter, see unitab)"""
        if not SIGMA_CONTEXT:
            return 0x3c3
        ign, cased = unitab.cset('sigma_ignorable'), unitab.cset('sigma_cased')
        j = i - 1
        while j >= 0 and fork(ch_in(codes[j], ign)):
            j -= 1
        if j < 0 or not fork(ch_in(codes[j], cased)):
            return 0x3c3
        j = i + 1
        while j < len(codes) and fork(ch_in(codes[j], ign)):
            j += 1
        if j < len(codes) and fork(ch_in(codes[j], cased)):
            return 0x3c3
        return 0x3c2

    def lower(self):
        return mkstr(self._mapcase('lower'))

    def upper(self):
        return mkstr(self._mapcase('upper'))

    def casefold(self):
        return mkstr(self._mapcase('casefold'))

    def swapcase(self):
        return mkstr(self._mapcase('swapcase'))

    def capitalize(self):
        if not self.c:
            return ''
        return mkstr(self._mapcase('capitalize', 0, 1) + self._mapcase('lower', 1))

    def title(self):
        return self._concretized().title()

    # --- searching
    def _bounds(self, a, b):
        n = len(self.c)
        a, b, _ = slice(_opt(a), _opt(b)).indices(n)
        return a, b

    def startswith(self, p, a=None, b=None):
        if isinstance(p, tuple):
            return s_or(*[self.startswith(x, a, b) for x in p])
        lo, hi = self._bounds(a, b)
        q = codes_of(p)
        if hi - lo < len(q):
            return False
        return _b(seq_eq(self.c[lo:lo + len(q)], q))

    def endswith(self, p, a=None, b=None):
        if isinstance(p, tuple):
            return s_or(*[self.endswith(x, a, b) for x in p])
        lo, hi = self._bounds(a, b)
        q = codes_of(p)
        if hi - lo < len(q):
            return False
        return _b(seq_eq(self.c[hi - len(q):hi], q))

    def find(self, p, a=None, b=None):
        lo, hi = self._bounds(a, b)
        q = codes_of(p)
        for i in range(lo, hi - len(q) + 1):
            if fork(seq_eq(self.c[i:i + len(q)], q)):
                return i
        return -1

    def rfind(self, p, a=None, b=None):
        lo, hi = self._bounds(a, b)
        q = codes_of(p)
        for i in range(hi - len(q), lo - 1, -1):
            if fork(seq_eq(self.c[i:i + len(q)], q)):
                return i
        return -1

    def index(self, p, a=None, b=None):
        r = self.find(p, a, b)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, p, a=None, b=None):
        r = self.rfind(p, a, b)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, p, a=None, b=None):
        lo, hi = self._bounds(a, b)
        q = codes_of(p)
        if not q:
            return hi - lo + 1
        if len(q) == 1:
            r = 0
            for e in self.c[lo:hi]:
                r = r + _i(tm.ite(ch_eq(e, q[0]), const(1), const(0)))
            return r
        n = 0
        i = lo
        while i <= hi - len(q):
            if fork(seq_eq(self.c[i:i + len(q)], q)):
                n += 1
                i += len(q)
            else:
                i += 1
        return n

    def replace(self, old, new, cnt=-1):
        q, r = codes_of(old), codes_of(new)
        cnt = _idx(cnt)
        c = self.c
        out = []
        if not q:
            n = 0
            for e in c:
                if cnt < 0 or n < cnt:
                    out.extend(r)
                    n += 1
                out.append(e)
            if cnt < 0 or n < cnt:
                out.extend(r)
            return mkstr(out)
        i = 0
        n = 0
        while i < len(c):
            if (cnt < 0 or n < cnt) and i + len(q) <= len(c) and fork(seq_eq(c[i:i + len(q)], q)):
                out.extend(r)
                i += len(q)
                n += 1
            else:
                out.append(c[i])
                i += 1
        return mkstr(out)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = _idx(maxsplit)
        c = self.c
        if sep is None:
            sp = self._space
            out = []
            i = 0
            n = len(c)
            while True:
                while i < n and fork(sp(c[i])):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkstr(c[i:n]))
                    return out
                j = i
                while j < n and not fork(sp(c[j])):
                    j += 1
                out.append(mkstr(c[i:j]))
                i = j
        q = codes_of(sep)
        if not q:
            raise ValueError('empty separator')
        out = []
        i = st = 0
        while i <= len(c) - len(q):
            if (maxsplit < 0 or len(out) < maxsplit) and fork(seq_eq(c[i:i + len(q)], q)):
                out.append(mkstr(c[st:i]))
                i += len(q)
                st = i
            else:
                i += 1
        out.append(mkstr(c[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = _idx(maxsplit)
        if sep is None:
            if maxsplit < 0:
                return self.split()
            raise Unsupported('rsplit')
        q = codes_of(sep)
        c = self.c
        out = []
        end = len(c)
        i = len(c) - len(q)
        while i >= 0:
            if (maxsplit < 0 or len(out) < maxsplit) and fork(seq_eq(c[i:i + len(q)], q)):
                out.append(mkstr(c[i + len(q):end]))
                end = i
                i -= len(q)
            else:
                i -= 1
        out.append(mkstr(c[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return mkstr(self.c[:i]), sep, mkstr(self.c[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return mkstr(self.c[:i]), sep, mkstr(self.c[i + len(sep):])

    def splitlines(self, keepends=False):
        lb = unitab.cset('linebreak')
        out = []
        cur = []
        c = self.c
        i = 0
        while i < len(c):
            if fork(ch_in(c[i], lb)):
                e = [c[i]]
                if i + 1 < len(c) and fork(and_(ch_eq(c[i], 13), ch_eq(c[i + 1], 10))):
                    e.append(c[i + 1])
                    i += 1
                out.append(mkstr(cur + (e if keepends else [])))
                cur = []
            else:
                cur.append(c[i])
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def _space(self, e):
        """what strip()/split() without argument drop: PyPy treats 0x1c-0x1f as space only in non-ASCII strings"""
        sp, odd = unitab.cset('space'), iset([(0x1c, 0x1f)])
        if not QUIRK_1C:
            return ch_in(e, sp)
        return and_(ch_in(e, sp), or_(not_(ch_in(e, odd)), *[not_(ch_in(x, ASCII)) for x in self.c]))

    def _stripset(self, chars):
        if chars is None:
            return self._space
        q = codes_of(chars)
        return lambda e: or_(*[ch_eq(e, x) for x in q])

    def lstrip(self, chars=None):
        f = self._stripset(chars)
        i = 0
        while i < len(self.c) and fork(f(self.c[i])):
            i += 1
        return mkstr(self.c[i:])

    def rstrip(self, chars=None):
        f = self._stripset(chars)
        i = len(self.c)
        while i > 0 and fork(f(self.c[i - 1])):
            i -= 1
        return mkstr(self.c[:i])

    def strip(self, chars=None):
        f = self._stripset(chars)
        c = self.c
        i, j = 0, len(c)
        while i < j and fork(f(c[i])):
            i += 1
        while j > i and fork(f(c[j - 1])):
            j -= 1
        return mkstr(c[i:j])

    def join(self, xs):
        out = []
        first = True
        for x in xs:
            if not first:
                out.extend(self.c)
            first = False
            if not isinstance(x, (str, SStr)):
                raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
            out.extend(codes_of(x))
        return mkstr(out)

    def zfill(self, n):
        n = _idx(n)
        if len(self.c) >= n:
            return self
        if fork(or_(ch_eq(self.c[0], 43), ch_eq(self.c[0], 45))):
            return mkstr(self.c[:1] + (48,) * (n - len(self.c)) + self.c[1:])
        return mkstr((48,) * (n - len(self.c)) + self.c)

    def ljust(self, n, f=' '):
        return mkstr(self.c + codes_of(f) * (max(0, _idx(n) - len(self.c))))

    def rjust(self, n, f=' '):
        return mkstr(codes_of(f) * (max(0, _idx(n) - len(self.c))) + self.c)

    def translate(self, table):
        out = []
        for e in self.c:
            if isinstance(e, int):
                out.extend(map(ord, chr(e).translate(table)))
                continue
            for k, v in table.items():
                k = ord(k) if isinstance(k, str) else k
                if fork(ch_eq(e, k)):
                    if v is not None:
                        out.extend([v] if isinstance(v, int) else codes_of(v))
                    break
            else:
                out.append(e)
        return mkstr(out)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.c) - len(p)] if p and self.endswith(p) else self

    def expandtabs(self, n=8):
        raise Unsupported('expandtabs')

    def format(self, *a, **k):
        raise Unsupported('format on symbolic template')

    def encode(self, encoding='utf-8', errors='strict'):
        from . import codecs_
        return codecs_.encode(self, encoding, errors)

    def _concretized(self):
        return concretize(self)


SIGMA_CONTEXT = 'aΣ'.lower() == 'aς'
QUIRK_1C = 'a\x1c'.strip() != 'a'


def _opt(x):
    return x.__index__() if isinstance(x, SVal) else x


def _mk2(codes, esc):
    if esc:
        return SStr(tuple(codes), esc)
    return mkstr(codes)


def mkbytes(codes):
    codes = tuple(codes)
    for e in codes:
        if not isinstance(e, int):
            return SBytes(codes)
    return bytes(codes)


def bcodes(x):
    return x.c if isinstance(x, SBytes) else tuple(x)


class SBytes(SSeq):
    __slots__ = ()

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        if isinstance(o, (bytes, SBytes)):
            return _b(seq_eq(self.c, bcodes(o)))
        return False

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of symbolic bytes')

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'SBytes(%s)' % ''.join(chr(e) if isinstance(e, int) else '?' for e in self.c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.c[slice(_opt(i.start), _opt(i.stop), _opt(i.step))])
        e = self.c[_idx(i)]
        return e if isinstance(e, int) else SInt(e)

    def __iter__(self):
        for e in self.c:
            yield e if isinstance(e, int) else SInt(e)

    def __add__(self, o):
        if not isinstance(o, (bytes, SBytes)):
            return NotImplemented
        return mkbytes(self.c + bcodes(o))

    def __radd__(self, o):
        if not isinstance(o, bytes):
            return NotImplemented
        return mkbytes(bcodes(o) + self.c)

    def __mul__(self, n):
        return mkbytes(self.c * _idx(n))

    def __contains__(self, x):
        return bool(self.sx_contains(x))

    def sx_contains(self, x):
        if _isint(x):
            return s_or(*[_b(eq(tm.tt(e), it(x))) for e in self.c])
        p = bcodes(x)
        return _b(or_(*[seq_eq(self.c[i:i + len(p)], p) for i in range(len(self.c) - len(p) + 1)]))

    def decode(self, encoding='utf-8', errors='strict'):
        from . import codecs_
        return codecs_.decode(self, encoding, errors)

    def join(self, xs):
        return mkbytes(_join(self.c, [bcodes(x) for x in xs]))

    def _wrap(name):
        def f(self, *a):
            # reuse the SStr algorithms on the code sequence
            a = [SStr(bcodes(x)) if isinstance(x, (bytes, SBytes)) else
                 (tuple(SStr(bcodes(y)) for y in x) if isinstance(x, tuple) else x) for x in a]
            r = getattr(SStr(self.c), name)(*a)
            return _to_b(r)
        return f

    for _n in ('startswith', 'endswith', 'find', 'rfind', 'index', 'rindex', 'count', 'replace', 'partition',
               'rpartition', 'rsplit', 'removeprefix', 'removesuffix'):
        locals()[_n] = _wrap(_n)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('bytes.split()')
        return _to_b(SStr(self.c).split(SStr(bcodes(sep)), maxsplit))

    def _bstrip(name):
        def f(self, chars=None):
            chars = b' \t\n\r\x0b\x0c' if chars is None else chars
            return _to_b(getattr(SStr(self.c), name)(SStr(bcodes(chars))))
        return f

    strip = _bstrip('strip')
    lstrip = _bstrip('lstrip')
    rstrip = _bstrip('rstrip')

    def lower(self):
        up = iset([(65, 90)])
        return mkbytes([(simp(tm.add(e, const(32))) if fork(isin(e, up)) else e) if isinstance(e, T)
                        else (e + 32 if 65 <= e <= 90 else e) for e in self.c])

    def upper(self):
        lo = iset([(97, 122)])
        return mkbytes([(simp(tm.add(e, const(-32))) if fork(isin(e, lo)) else e) if isinstance(e, T)
                        else (e - 32 if 97 <= e <= 122 else e) for e in self.c])


def _join(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.extend(sep)
        out.extend(p)
    return out


def _to_b(r):
    if isinstance(r, SStr):
        return mkbytes(r.c)
    if isinstance(r, str):
        return bytes(map(ord, r))
    if isinstance(r, (list, tuple)):
        return type(r)(_to_b(x) for x in r)
    return r


# -------------------------------------------------------------------- generic helpers
def concretize(x):
    """fork over all values (bounded); SVal -> plain value; containers recursively"""
    if isinstance(x, SStr):
        engine.CUR.notes.add('concretised')
        return ''.join(chr(e if isinstance(e, int) else engine.CUR.choose(e, CHOOSE_LIMIT)) for e in x.c)
    if isinstance(x, SBytes):
        engine.CUR.notes.add('concretised')
        return bytes(e if isinstance(e, int) else engine.CUR.choose(e, CHOOSE_LIMIT) for e in x.c)
    if isinstance(x, SInt):
        return x.__index__()
    if isinstance(x, SBool):
        return bool(x)
    if type(x) is list:
        return [concretize(y) for y in x]
    if type(x) is tuple:
        return tuple(concretize(y) for y in x)
    from .containers_ import SDict, SSet
    if isinstance(x, SDict):
        return {concretize(k): concretize(v) for k, v in x.items()}
    if isinstance(x, SSet):
        return {concretize(k) for k in x}
    if type(x) is dict:
        return {concretize(k): concretize(v) for k, v in x.items()}
    return x


def is_sym(x, depth=3):
    if isinstance(x, SVal):
        return True
    if depth:
        t = type(x)
        if t is list or t is tuple or t is set or t is frozenset:
            for y in x:
                if is_sym(y, depth - 1):
                    return True
        elif isinstance(x, dict):
            for k, v in x.items():
                if is_sym(k, depth - 1) or is_sym(v, depth - 1):
                    return True
    return False


def evalv(x, env):
    """evaluate a value under a model"""
    if isinstance(x, SStr):
        return ''.join(chr(e if isinstance(e, int) else tm.ev(e, env)) for e in x.c)
    if isinstance(x, SBytes):
        return bytes(e if isinstance(e, int) else tm.ev(e, env) for e in x.c)
    if isinstance(x, (SInt, SBool)):
        return tm.ev(x.t, env)
    if isinstance(x, (list, tuple)):
        r = [evalv(y, env) for y in x]
        return r
    if isinstance(x, dict):
        return [[evalv(k, env), evalv(v, env)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return sorted((evalv(k, env) for k in x), key=repr)
    from .containers_ import SSet
    if isinstance(x, SSet):
        return sorted((evalv(k, env) for k in x), key=repr)
    return x
