"""dict/set replacements that accept symbolic keys (association list; equality forks)."""
from . import engine
from . import terms as tm
from .values import SVal, SStr, is_sym, bt, s_or, _b, SBool


def symkey(k):
    if isinstance(k, SVal):
        return True
    t = type(k)
    if t is str or t is int or t is bytes or t is bool or k is None:
        return False
    if t is tuple or t is frozenset:
        for x in k:
            if symkey(x):
                return True
        return False
    h = getattr(t, '__hash__', None)
    if h is not None and h is not object.__hash__ and hasattr(k, '__dict__') and not isinstance(k, type):
        for x in k.__dict__.values():
            if symkey(x):
                return True
    return False


def eq_term(a, b):
    """term for a == b (structural)"""
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return tm.FALSE
        ts = []
        for x, y in zip(a, b):
            t = eq_term(x, y)
            if t is tm.FALSE:
                return t
            ts.append(t)
        return tm.and_(*ts)
    r = (a == b)
    return bt(r)


_MISSING = object()


class SDict(dict):
    """ordered; concrete keys indexed by hash, symbolic keys compared"""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._e = []            # entries [key, value, alive]
        self._ix = {}           # concrete key -> entry
        self._sy = []           # entries with symbolic keys
        self._n = 0
        self.default_factory = None
        self.kind = 'dict'
        if a or k:
            self._up(*a, **k)

    def _up(self, *a, **k):
        for x in a:
            if x is None:
                continue
            if isinstance(x, dict) or hasattr(x, 'keys'):
                for kk in (x.keys() if not isinstance(x, SDict) else list(x)):
                    self[kk] = x[kk]
            else:
                for kk, v in x:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    # find the entry for key, forking as needed
    def _find(self, key):
        if symkey(key):
            for e in self._e:
                if e[2] and engine.CUR.branch(eq_term(e[0], key)):
                    return e
            return None
        e = self._ix.get(key)
        if e is not None:
            return e
        for e in self._sy:
            if e[2] and engine.CUR.branch(eq_term(e[0], key)):
                return e
        return None

    def sx_contains(self, key):
        if symkey(key):
            ts = [eq_term(e[0], key) for e in self._e if e[2]]
        else:
            if key in self._ix:
                return True
            ts = [eq_term(e[0], key) for e in self._sy if e[2]]
        return _b(tm.or_(*ts))

    def __contains__(self, key):
        return bool(self.sx_contains(key))

    has_key = __contains__

    def __getitem__(self, key):
        e = self._find(key)
        if e is None:
            return self.__missing__(key)
        return e[1]

    def __missing__(self, key):
        if self.kind == 'counter':
            return 0
        if self.default_factory is not None:
            from . import runtime
            v = runtime.sx_call(self.default_factory)
            self[key] = v
            return v
        raise KeyError(key)

    def get(self, key, d=None):
        e = self._find(key)
        return d if e is None else e[1]

    def __setitem__(self, key, v):
        e = self._find(key)
        if e is not None:
            e[1] = v
            return
        e = [key, v, True]
        self._e.append(e)
        self._n += 1
        if symkey(key):
            self._sy.append(e)
        else:
            self._ix[key] = e

    def setdefault(self, key, d=None):
        e = self._find(key)
        if e is not None:
            return e[1]
        self[key] = d
        return d

    def _remove(self, e):
        e[2] = False
        self._n -= 1
        for i, x in enumerate(self._sy):
            if x is e:
                del self._sy[i]
                break
        else:
            del self._ix[e[0]]
        if len(self._e) > 32 and self._n * 2 < len(self._e):
            self._e = [x for x in self._e if x[2]]

    def __delitem__(self, key):
        e = self._find(key)
        if e is None:
            if self.kind == 'counter':
                return
            raise KeyError(key)
        self._remove(e)

    def pop(self, key, d=_MISSING):
        e = self._find(key)
        if e is None:
            if d is _MISSING:
                raise KeyError(key)
            return d
        self._remove(e)
        return e[1]

    def popitem(self, last=True):
        if not self._n:
            raise KeyError('popitem(): dictionary is empty')
        es = [e for e in self._e if e[2]]
        e = es[-1] if last else es[0]
        self._remove(e)
        return e[0], e[1]

    def clear(self):
        self._e = []
        self._ix = {}
        self._sy = []
        self._n = 0

    def update(self, *a, **k):
        if self.kind == 'counter':
            for x in a:
                if x is None:
                    continue
                if isinstance(x, dict):
                    for kk, v in list(x.items()):
                        self[kk] = self[kk] + v
                else:
                    for kk in x:
                        self[kk] = self[kk] + 1
            for kk, v in k.items():
                self[kk] = self[kk] + v
        else:
            self._up(*a, **k)

    def subtract(self, x):
        for kk, v in (x.items() if isinstance(x, dict) else ((y, 1) for y in x)):
            self[kk] = self[kk] - v

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def most_common(self, n=None):
        from . import runtime
        r = runtime.sx_sorted(self.items(), key=lambda x: x[1], reverse=True)
        return r if n is None else r[:n]

    def __len__(self):
        return self._n

    def __bool__(self):
        return self._n > 0

    def __iter__(self):
        n = self._n
        for e in list(self._e):
            if e[2]:
                yield e[0]
                if self._n != n:
                    raise RuntimeError('dictionary changed size during iteration')

    def __reversed__(self):
        return iter([e[0] for e in self._e if e[2]][::-1])

    def keys(self):
        return SView(self, 0)

    def values(self):
        return SView(self, 1)

    def items(self):
        return SView(self, 2)

    def copy(self):
        r = SDict()
        r.default_factory = self.default_factory
        r.kind = self.kind
        for e in self._e:
            if e[2]:
                f = [e[0], e[1], True]
                r._e.append(f)
                r._n += 1
                if symkey(e[0]):
                    r._sy.append(f)
                else:
                    r._ix[e[0]] = f
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = self.copy()
        for e in r._e:
            e[0] = copy.deepcopy(e[0], memo)
            e[1] = copy.deepcopy(e[1], memo)
        ix = {}
        for e in r._e:
            if not symkey(e[0]):
                ix[e[0]] = e
        r._ix = ix
        return r

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if len(self) != len(o):
            return False
        from . import runtime
        for k, v in self.items():
            w = _MISSING
            if isinstance(o, SDict):
                e = o._find(k)
                if e is not None:
                    w = e[1]
            else:
                if symkey(k):
                    for k2 in o:
                        if engine.CUR.branch(eq_term(k2, k)):
                            w = o[k2]
                            break
                elif k in o:
                    w = o[k]
            if w is _MISSING or not engine.CUR.branch(runtime.eq_deep(v, w)):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return 'SDict(%r)' % ([(e[0], e[1]) for e in self._e if e[2]],)

    def __reduce__(self):
        raise engine.Unsupported('pickling SDict')

    def __add__(self, o):
        if self.kind != 'counter':
            return NotImplemented
        r = self.copy()
        for k, v in o.items():
            r[k] = r[k] + v
        q = SDict()
        q.kind = 'counter'
        for k, v in r.items():
            if v > 0:
                q[k] = v
        return q

    def __or__(self, o):
        r = self.copy()
        r._up(o)
        return r

    def __ior__(self, o):
        self._up(o)
        return self

    @classmethod
    def fromkeys(cls, it, v=None):
        r = SDict()
        for k in it:
            r[k] = v
        return r


class SView(object):
    def __init__(self, d, w):
        self.d = d
        self.w = w

    def __iter__(self):
        d = self.d
        n = d._n
        for e in list(d._e):
            if e[2]:
                if d._n != n:
                    raise RuntimeError('dictionary changed size during iteration')
                yield e[0] if self.w == 0 else e[1] if self.w == 1 else (e[0], e[1])

    def __len__(self):
        return self.d._n

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __contains__(self, x):
        return bool(self.sx_contains(x))

    def sx_contains(self, x):
        if self.w == 0:
            return self.d.sx_contains(x)
        from . import runtime
        return _b(tm.or_(*[runtime.eq_deep(x, y) for y in self]))

    def _set(self):
        return SSet(self)

    def __and__(self, o):
        return self._set() & o

    def __sub__(self, o):
        return self._set() - o

    def __or__(self, o):
        return self._set() | o

    def __eq__(self, o):
        return self._set() == o

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)

    def __repr__(self):
        return 'SView%r' % (list(self),)


class SSet(object):
    def __init__(self, xs=()):
        self.d = SDict()
        for x in xs:
            self.d[x] = None

    def add(self, x):
        self.d[x] = None

    def discard(self, x):
        e = self.d._find(x)
        if e is not None:
            self.d._remove(e)

    def remove(self, x):
        del self.d[x]

    def pop(self):
        if not self.d:
            raise KeyError('pop from an empty set')
        return self.d.popitem(False)[0]

    def clear(self):
        self.d.clear()

    def update(self, *xs):
        for x in xs:
            for y in list(x):
                self.d[y] = None

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def sx_contains(self, x):
        return self.d.sx_contains(x)

    def __contains__(self, x):
        return bool(self.d.sx_contains(x))

    def copy(self):
        return SSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return SSet(copy.deepcopy(x, memo) for x in self)

    def union(self, *o):
        r = SSet(self)
        r.update(*o)
        return r

    def __or__(self, o):
        if not isinstance(o, (SSet, set, frozenset, SView)):
            return NotImplemented
        return self.union(o)

    __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, *os):
        r = self
        for o in os:
            o = o if isinstance(o, (SSet, SDict)) else SSet(o)
            r = SSet(x for x in r if x in o)
        return r

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def difference(self, *os):
        r = self
        for o in os:
            o = o if isinstance(o, (SSet, SDict)) else SSet(o)
            r = SSet(x for x in r if x not in o)
        return r

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    def difference_update(self, *os):
        for o in os:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *os):
        r = self.intersection(*os)
        self.d = r.d

    def symmetric_difference(self, o):
        o = SSet(o)
        return (self - o) | (o - self)

    __xor__ = symmetric_difference

    def issubset(self, o):
        o = o if isinstance(o, (SSet, SDict, set, frozenset)) else SSet(o)
        if not isinstance(o, (SSet, SDict)):
            o = SSet(o)
        return all(x in o for x in self)

    def __le__(self, o):
        return self.issubset(o)

    def issuperset(self, o):
        return all(x in self for x in o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __eq__(self, o):
        if not isinstance(o, (SSet, set, frozenset)):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return 'SSet(%r)' % (list(self),)
