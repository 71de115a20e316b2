"""Hash-consed integer/boolean terms, exact interval sets, evaluation, SMT-LIB printing."""
import zlib
from bisect import bisect_right

INF = 1 << 80
MAXCP = 0x10FFFF


# ---------------------------------------------------------------- interval sets
class ISet(object):
    __slots__ = ('r', 'starts', 'id', '_neg', '_and', 'size')
    _tab = {}

    def __repr__(self):
        return 'ISet(%s%s)' % (self.r[:4], '...' if len(self.r) > 4 else '')

    def __contains__(self, x):
        i = bisect_right(self.starts, x) - 1
        return i >= 0 and x <= self.r[i][1]

    def neg(self):
        n = self._neg
        if n is None:
            out = []
            lo = -INF
            for a, b in self.r:
                if a > lo:
                    out.append((lo, a - 1))
                lo = b + 1
            if lo <= INF:
                out.append((lo, INF))
            n = self._neg = iset(out, True)
            n._neg = self
        return n

    def __and__(self, o):
        if o is self:
            return self
        m = self._and.get(o.id)
        if m is None:
            out = []
            i = j = 0
            A, B = self.r, o.r
            while i < len(A) and j < len(B):
                lo = A[i][0] if A[i][0] > B[j][0] else B[j][0]
                hi = A[i][1] if A[i][1] < B[j][1] else B[j][1]
                if lo <= hi:
                    out.append((lo, hi))
                if A[i][1] < B[j][1]:
                    i += 1
                else:
                    j += 1
            m = iset(out, True)
            self._and[o.id] = m
            o._and[self.id] = m
        return m

    def __or__(self, o):
        return (self.neg() & o.neg()).neg()

    def values(self, limit=None):
        n = 0
        for a, b in self.r:
            for x in range(a, b + 1):
                yield x
                n += 1
                if limit is not None and n >= limit:
                    return


def iset(ranges, normal=False):
    if not normal:
        out = []
        for a, b in sorted(ranges):
            if a > b:
                continue
            if out and a <= out[-1][1] + 1:
                if b > out[-1][1]:
                    out[-1] = (out[-1][0], b)
            else:
                out.append((a, b))
        ranges = out
    key = tuple(ranges)
    s = ISet._tab.get(key)
    if s is None:
        s = ISet()
        s.r = key
        s.starts = [a for a, _ in key]
        s.id = len(ISet._tab)
        s._neg = None
        s._and = {}
        n = 0
        for a, b in key:
            n += b - a + 1
        s.size = n
        ISet._tab[key] = s
    return s


def iset_from_values(vals):
    out = []
    for v in sorted(vals):
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return iset([tuple(x) for x in out], True)


EMPTY = iset([])
FULL = iset([(-INF, INF)])
CHARS = iset([(0, 0xD7FF), (0xE000, MAXCP)])
ASCII = iset([(0, 127)])
BYTES = iset([(0, 255)])


# ---------------------------------------------------------------- terms
class T(object):
    __slots__ = ('op', 'a', 'vars', 'id', 'isbool', '_sol', '_neg', 'deep', 'h')

    def __repr__(self):
        return tstr(self)


_tab = {}
_NOVARS = frozenset()


def _mk(op, a, isbool, vars_):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.isbool = isbool
        t.vars = vars_
        t.id = len(_tab)
        t._sol = None
        t._neg = None
        d = 0
        h = zlib.crc32(op.encode())            # the same in all processes, whatever they did before: see key()
        for x in a if type(a) is tuple else (a,):
            c = type(x)
            if c is T:
                if x.deep > d:
                    d = x.deep
                h = h * 1000003 + x.h
            elif c is ISet:
                h = h * 1000003 + len(x.r)
                for lo, hi in x.r[:8]:
                    h = h * 1000003 + lo * 31 + hi
            elif c is str:
                h = h * 1000003 + zlib.crc32(x.encode('utf-8', 'surrogatepass'))
            else:
                h = h * 1000003 + int(x)
            h = (h ^ (h >> 29)) & 0x3fffffffffffff
        t.h = h
        t.deep = d + 1 if op == 'ite' else d   # how deep the conditional terms in it are nested
        _tab[k] = t
    return t


def key(t):
    """order of terms; it must not depend on which terms were made before: a decision prefix is replayed by other processes, which
    have to ask the same questions"""
    return (t.h, t.id)


def _vars(*ts):
    v = _NOVARS
    for t in ts:
        if isinstance(t, T) and t.vars:
            v = v | t.vars if v else t.vars
    return v


TRUE = _mk('b', True, True, _NOVARS)
FALSE = _mk('b', False, True, _NOVARS)


def const(n):
    return _mk('c', int(n), False, _NOVARS)


def var(name):
    t = _mk('v', name, False, None)
    if t.vars is None:
        t.vars = frozenset([t])
    return t


def tt(x):
    """int/bool/T -> T"""
    if isinstance(x, T):
        return x
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    return const(x)


def add(x, y):
    if x.op == 'c':
        x, y = y, x
    if y.op == 'c':
        if x.op == 'c':
            return const(x.a + y.a)
        if y.a == 0:
            return x
        if x.op == '+' and x.a[1].op == 'c':
            return add(x.a[0], const(x.a[1].a + y.a))
    else:
        if x.op == '+' and x.a[1].op == 'c':
            return add(add(x.a[0], y), x.a[1])
        if y.op == '+' and y.a[1].op == 'c':
            return add(add(x, y.a[0]), y.a[1])
        if x is y:
            return mul(x, const(2))
    return _mk('+', (x, y), False, _vars(x, y))


def mul(x, y):
    if x.op == 'c':
        x, y = y, x
    if y.op == 'c':
        if x.op == 'c':
            return const(x.a * y.a)
        if y.a == 0:
            return y
        if y.a == 1:
            return x
        if x.op == '*' and x.a[1].op == 'c':
            return mul(x.a[0], const(x.a[1].a * y.a))
        if x.op == '+' and x.a[1].op == 'c':
            return add(mul(x.a[0], y), const(x.a[1].a * y.a))
    return _mk('*', (x, y), False, _vars(x, y))


def _lin(t):
    """linear form: (dict term->coef, const)"""
    d = {}
    c = 0
    st = [(t, 1)]
    while st:
        t, k = st.pop()
        if t.op == 'c':
            c += k * t.a
        elif t.op == '+':
            st.append((t.a[0], k))
            st.append((t.a[1], k))
        elif t.op == '*' and t.a[1].op == 'c':
            st.append((t.a[0], k * t.a[1].a))
        else:
            d[t] = d.get(t, 0) + k
    return {a: b for a, b in d.items() if b}, c


def _unlin(d, c):
    r = None
    for t in sorted(d, key=key):
        m = mul(t, const(d[t]))
        r = m if r is None else add(r, m)
    if r is None:
        return const(c)
    return add(r, const(c)) if c else r


def sub(x, y):
    if x.op == 'c' and y.op == 'c':
        return const(x.a - y.a)
    if y.op == 'c':
        return add(x, const(-y.a))
    d, c = _lin(add(x, mul(y, const(-1))))
    return _unlin(d, c)


def addl(x, y):
    """add with full linear normalisation (used for numeric values, not characters)"""
    d, c = _lin(add(x, y))
    return _unlin(d, c)


def div(x, k):
    if x.op == 'c':
        return const(x.a // k)
    return x if k == 1 else _mk('div', (x, const(k)), False, x.vars)


def mod(x, k):
    if x.op == 'c':
        return const(x.a % k)
    return _mk('mod', (x, const(k)), False, x.vars)


# registry of unary integer functions: name -> (python function, exact domain)
FUNS = {}


def register_fun(name, f, dom):
    if name not in FUNS:
        FUNS[name] = (f, dom)
    return name


def fn(name, x):
    if x.op == 'c':
        return const(FUNS[name][0](x.a))
    return _mk('fn', (name, x), False, x.vars)


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x.isbool:
        return or_(and_(c, x), and_(not_(c), y))
    return _mk('ite', (c, x, y), False, _vars(c, x, y))


def eq(x, y):
    if x is y:
        return TRUE
    if x.op == 'c' and y.op == 'c':
        return TRUE if x.a == y.a else FALSE
    if x.isbool:
        return or_(and_(x, y), and_(not_(x), not_(y)))
    if x.op == 'c' or (y.op != 'c' and key(x) > key(y)):
        x, y = y, x
    if y.op == 'c':
        if x.op == '+' and x.a[1].op == 'c':
            return eq(x.a[0], const(y.a - x.a[1].a))
        if x.op == 'ite':
            c, a, b = x.a
            if a.op == 'c' or b.op == 'c':
                return ite(c, eq(a, y), eq(b, y))
        return isin(x, iset([(y.a, y.a)]))
    if x.op in '+*' or y.op in '+*':
        d, c = _lin(sub(x, y))
        if not d:
            return TRUE if c == 0 else FALSE
        if len(d) == 1:
            (t, k), = d.items()
            if c % k:
                return FALSE
            return isin(t, iset([(-c // k, -c // k)]))
        if d[min(d, key=key)] < 0:
            d = {t: -k for t, k in d.items()}
            c = -c
        l = _unlin(d, 0)
        return _mk('=', (l, const(-c)), True, l.vars)
    return _mk('=', (x, y), True, _vars(x, y))


def isin(x, s):
    if s is EMPTY:
        return FALSE
    if x.op == 'c':
        return TRUE if x.a in s else FALSE
    if x.op == '+' and x.a[1].op == 'c':
        k = x.a[1].a
        return isin(x.a[0], iset([(a - k if a > -INF else a, b - k if b < INF else b) for a, b in s.r], True))
    return _mk('in', (x, s), True, x.vars)


def le(x, y):
    """x <= y"""
    d, c = _lin(sub(x, y))
    if not d:
        return TRUE if c <= 0 else FALSE
    if len(d) == 1:
        (t, k), = d.items()          # k*t + c <= 0
        if k > 0:
            return isin(t, iset([(-INF, (-c) // k)]))
        return isin(t, iset([(_ceildiv(c, -k), INF)]))      # t >= c/(-k)
    l = _unlin(d, 0)
    return _mk('<=', (l, const(-c)), True, l.vars)


def _ceildiv(a, b):
    return -((-a) // b)


def lt(x, y):
    return le(add(x, const(1)), y)


def not_(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    n = x._neg
    if n is None:
        if x.op == 'not':
            n = x.a[0]
        elif x.op == 'in':
            n = _mk('in', (x.a[0], x.a[1].neg()), True, x.vars)
        elif x.op == '<=':
            n = le(add(x.a[1], const(1)), x.a[0])
        elif x.op == 'and':
            n = _mk('or', tuple(not_(y) for y in x.a), True, x.vars)
        elif x.op == 'or':
            n = _mk('and', tuple(not_(y) for y in x.a), True, x.vars)
        else:
            n = _mk('not', (x,), True, x.vars)
        x._neg = n
        if n._neg is None:
            n._neg = x
    return n


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE or x in seen:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            for y in x.a:
                if y not in seen:
                    seen.add(y)
                    out.append(y)
            continue
        seen.add(x)
        out.append(x)
    for x in out:
        if x._neg is not None and x._neg in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(out), True, _vars(*out))


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


# ---------------------------------------------------------------- evaluation
def ev(t, env):
    op = t.op
    if op == 'c' or op == 'b':
        return t.a
    if op == 'v':
        return env[t]
    a = t.a
    if op == 'in':
        return ev(a[0], env) in a[1]
    if op == 'fn':
        return FUNS[a[0]][0](ev(a[1], env))
    if op == '+':
        return ev(a[0], env) + ev(a[1], env)
    if op == '*':
        return ev(a[0], env) * ev(a[1], env)
    if op == '=':
        return ev(a[0], env) == ev(a[1], env)
    if op == '<=':
        return ev(a[0], env) <= ev(a[1], env)
    if op == 'and':
        for x in a:
            if not ev(x, env):
                return False
        return True
    if op == 'or':
        for x in a:
            if ev(x, env):
                return True
        return False
    if op == 'not':
        return not ev(a[0], env)
    if op == 'ite':
        if t.deep > 3:                         # the running value of a minimum occurs twice in each step: follow it once
            return _ev_shared(t, env, {})
        return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
    if op == 'div':
        return ev(a[0], env) // a[1].a
    if op == 'mod':
        return ev(a[0], env) % a[1].a
    raise AssertionError(op)


def _ev_shared(t, env, memo):
    if t.deep <= 3:
        return ev(t, env)
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    a = t.a
    if op == 'in':
        r = _ev_shared(a[0], env, memo) in a[1]
    elif op == 'fn':
        r = FUNS[a[0]][0](_ev_shared(a[1], env, memo))
    elif op == '+':
        r = _ev_shared(a[0], env, memo) + _ev_shared(a[1], env, memo)
    elif op == '*':
        r = _ev_shared(a[0], env, memo) * _ev_shared(a[1], env, memo)
    elif op == '=':
        r = _ev_shared(a[0], env, memo) == _ev_shared(a[1], env, memo)
    elif op == '<=':
        r = _ev_shared(a[0], env, memo) <= _ev_shared(a[1], env, memo)
    elif op == 'and':
        r = all(_ev_shared(x, env, memo) for x in a)
    elif op == 'or':
        r = any(_ev_shared(x, env, memo) for x in a)
    elif op == 'not':
        r = not _ev_shared(a[0], env, memo)
    elif op == 'ite':
        r = _ev_shared(a[1] if _ev_shared(a[0], env, memo) else a[2], env, memo)
    elif op == 'div':
        r = _ev_shared(a[0], env, memo) // a[1].a
    elif op == 'mod':
        r = _ev_shared(a[0], env, memo) % a[1].a
    else:
        raise AssertionError(op)
    memo[t] = r
    return r


_pre = {}


def _preimage(u, s):
    """values of u's single variable for which u is in s (exact, on u's domain of definition), or None"""
    op = u.op
    if op == 'v':
        return s
    k = (u, s.id)
    r = _pre.get(k)
    if r is None:
        r = _pre[k] = _preimage_(u, s)
    return r


def _preimage_(u, s):
    op = u.op
    if op == '+' and u.a[1].op == 'c':
        k = u.a[1].a
        return _preimage(u.a[0], iset([(a - k if a > -INF else a, b - k if b < INF else b) for a, b in s.r], True))
    if op == '*' and u.a[1].op == 'c':
        k = u.a[1].a
        out = []
        for a, b in s.r:                      # a <= k*x <= b
            if k < 0:
                a, b = -b, -a
            m = abs(k)
            lo = -INF if a <= -INF else _ceildiv(a, m)
            hi = INF if b >= INF else b // m
            if lo <= hi:
                out.append((lo, hi))
        return _preimage(u.a[0], iset(out))
    if op == 'fn':
        f, dom = FUNS[u.a[0]]
        inner = iset_from_values([x for x in dom.values() if f(x) in s])
        return _preimage(u.a[1], inner)
    if op == 'ite':
        c = solset(u.a[0])
        p = _preimage(u.a[1], s) if u.a[1].vars else (FULL if u.a[1].a in s else EMPTY)
        q = _preimage(u.a[2], s) if u.a[2].vars else (FULL if u.a[2].a in s else EMPTY)
        if c is None or p is None or q is None:
            return None
        return (c & p) | (c.neg() & q)
    if op in ('div', 'mod') or op == '+' or op == '*':
        dom = undom(u)
        if dom is None:
            return None
        v, = u.vars
        return iset_from_values([x for x in dom.values() if ev(u, {v: x}) in s])
    return None


VARDOM = {}      # var term -> declared domain (ISet)


def undom(u):
    v, = u.vars
    d = VARDOM.get(v)
    if d is None or d.size > 1200000:
        return None
    return d


def solset(t):
    """exact set of values of t's only variable satisfying t, or None if not computed"""
    s = t._sol
    if s is not None:
        return s
    op = t.op
    if len(t.vars) != 1:
        return None
    r = None
    if op == 'in':
        r = _preimage(t.a[0], t.a[1])
    elif op == 'not':
        x = solset(t.a[0])
        r = None if x is None else x.neg()
    elif op == 'and':
        r = FULL
        for x in t.a:
            y = solset(x)
            if y is None:
                return None
            r = r & y
    elif op == 'or':
        r = EMPTY
        for x in t.a:
            y = solset(x)
            if y is None:
                return None
            r = r | y
    elif op == '=' or op == '<=':
        dom = undom(t)
        if dom is None:
            return None
        v, = t.vars
        r = iset_from_values([x for x in dom.values() if ev(t, {v: x})])
    t._sol = r
    return r


_unary = {}


def unary(t):
    """equivalent term in which conditions on one variable are membership in their (exact) solution set"""
    r = _unary.get(t)
    if r is not None:
        return r
    r = t
    op = t.op
    if t.isbool and len(t.vars) == 1 and not (op == 'in' and t.a[0].op == 'v'):
        s = solset(t)
        if s is not None:
            v, = t.vars
            r = isin(v, s)
    if r is t:
        if op == 'and':
            r = and_(*[unary(x) for x in t.a])
        elif op == 'or':
            r = or_(*[unary(x) for x in t.a])
        elif op == 'not':
            r = not_(unary(t.a[0]))
    _unary[t] = r
    return r


def _under(t, dom, memo):
    """t simplified with what the domains of the variables say"""
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    r = t
    if op == 'in' and t.a[0].op == 'v':
        v = t.a[0]
        d = dom[v]
        x = d & t.a[1]
        r = FALSE if x is EMPTY else TRUE if x is d else t
    elif op == 'and':
        r = and_(*[_under(x, dom, memo) for x in t.a])
    elif op == 'or':
        r = or_(*[_under(x, dom, memo) for x in t.a])
    elif op == 'not':
        r = not_(_under(t.a[0], dom, memo))
    memo[t] = r
    return r


def _flat(ts):
    out = []
    for t in ts:
        if t.op == 'and':
            out.extend(_flat(t.a))
        else:
            out.append(t)
    return out


def reduce_query(ts, dom):
    """equisatisfiable query: conditions on one variable moved into its domain; variables that only occur in memberships and
    equalities get a domain of representatives (every model of the result is a model of the original).  -> (terms, domains) or None"""
    dom = dict(dom)
    ts = _flat([unary(t) for t in ts])
    while True:
        rest = []
        changed = False
        for t in ts:
            if t is FALSE:
                return None
            if t is TRUE:
                continue
            if t.op == 'in' and t.a[0].op == 'v':
                v = t.a[0]
                d = dom[v] & t.a[1]
                if d is EMPTY:
                    return None
                if d is not dom[v]:
                    dom[v] = d
                    changed = True
                continue
            if t.op == '=' and t.a[0].op == 'v' and t.a[1].op == 'v':
                x, y = t.a
                d = dom[x] & dom[y]
                if d is EMPTY:
                    return None
                if d is not dom[x] or d is not dom[y]:
                    dom[x] = dom[y] = d
                    changed = True
            rest.append(t)
        memo = {}
        new = _flat([_under(t, dom, memo) for t in rest])
        if new == rest and not changed:
            break
        ts = new
    ts = rest
    # representatives
    complex_ = set()
    sets = {}
    link = {}

    def find(v):
        while link.get(v, v) is not v:
            v = link[v]
        return v

    def walk(t):
        op = t.op
        if op == 'in' and t.a[0].op == 'v':
            sets.setdefault(t.a[0], {})[t.a[1]] = 1
        elif op == '=' and t.a[0].op == 'v' and t.a[1].op == 'v':
            a, b = find(t.a[0]), find(t.a[1])
            if a is not b:
                link[a] = b
        elif op in ('and', 'or', 'not'):
            for x in t.a:
                walk(x)
        else:
            complex_.update(t.vars)
    for t in ts:
        walk(t)
    groups = {}
    used = set()
    for t in ts:
        used |= t.vars
    for v in used:
        groups.setdefault(find(v), []).append(v)
    for g, vs in groups.items():
        if any(v in complex_ for v in vs):
            continue
        if sum(dom[v].size for v in vs) <= 64:
            continue
        ss = {}
        for v in vs:
            ss.update(sets.get(v, {}))
            if len(vs) > 1:
                ss[dom[v]] = 1
        base = EMPTY
        for v in vs:
            base = base | dom[v]
        parts = [base]
        for s in ss:
            np = []
            for p in parts:
                a = p & s
                if a is EMPTY or a is p:
                    np.append(p)
                else:
                    np.append(a)
                    np.append(p & s.neg())
            parts = np
            if len(parts) > 200:
                break
        if len(parts) > 200:
            continue
        reps = []
        for p in parts:
            reps.extend(nice(p, len(vs)))
        rs = iset_from_values(reps)
        for v in vs:
            dom[v] = dom[v] & rs
    if groups:
        memo = {}
        ts = [_restrict(t, dom, complex_, memo) for t in ts]
    return ts, {v: dom[v] for v in used}, dom


def _restrict(t, dom, complex_, memo):
    r = memo.get(t)
    if r is None:
        op = t.op
        r = t
        if op == 'in' and t.a[0].op == 'v' and t.a[0] not in complex_:
            r = isin(t.a[0], dom[t.a[0]] & t.a[1])
        elif op == 'and':
            r = and_(*[_restrict(x, dom, complex_, memo) for x in t.a])
        elif op == 'or':
            r = or_(*[_restrict(x, dom, complex_, memo) for x in t.a])
        elif op == 'not':
            r = not_(_restrict(t.a[0], dom, complex_, memo))
        memo[t] = r
    return r


_NICE = [(97, 122), (48, 57), (65, 90), (33, 126), (0, 0x2FFF)]


def nice(p, n):
    """n different values of p (or all), readable ones first"""
    out = []
    for lo, hi in _NICE:
        q = p & iset([(lo, hi)])
        for x in q.values(n) if q is not EMPTY else ():
            if x not in out:
                out.append(x)
                if len(out) == n:
                    return out
    for x in p.values(n + len(out)):
        if x not in out:
            out.append(x)
            if len(out) == n:
                break
    return out


# ---------------------------------------------------------------- printing
def _num(n):
    return str(n) if n >= 0 else '(- %d)' % -n


def tstr(t, vn=None, setname=None):
    op = t.op
    if op == 'c':
        return _num(t.a)
    if op == 'b':
        return 'true' if t.a else 'false'
    if op == 'v':
        return vn(t) if vn else '|%s|' % t.a
    a = t.a
    if op == 'in':
        return set_smt(a[1], tstr(a[0], vn, setname), setname)
    if op == 'fn':
        return '(%s %s)' % (setname.fun(a[0]) if setname else a[0], tstr(a[1], vn, setname))
    return '(%s %s)' % (op, ' '.join(tstr(x, vn, setname) for x in a))


def set_smt(s, x, setname):
    r = s.r
    if not r:
        return 'false'
    if len(r) == 1:
        a, b = r[0]
        if a == b:
            return '(= %s %s)' % (x, _num(a))
        if a == -INF and b == INF:
            return 'true'
        if a == -INF:
            return '(<= %s %s)' % (x, _num(b))
        if b == INF:
            return '(<= %s %s)' % (_num(a), x)
        return '(<= %s %s %s)' % (_num(a), x, _num(b))
    if len(r) <= 3:
        return '(or %s)' % ' '.join(set_smt(iset([q]), x, None) for q in r)
    n = s.neg()
    if len(n.r) <= 3:
        return '(not %s)' % set_smt(n, x, None)
    if setname:
        return '(%s %s)' % (setname(s), x)
    return '(in %s S%d)' % (x, s.id)


def set_tree(s):
    pts = []
    default = False
    for a, b in s.r:
        if a == -INF:
            default = True
        else:
            pts.append((a, True))
        if b != INF:
            pts.append((b + 1, False))

    def build(lo, hi, d):
        if lo == hi:
            return 'true' if d else 'false'
        m = (lo + hi) // 2
        return '(ite (< x %s) %s %s)' % (_num(pts[m][0]), build(lo, m, d), build(m + 1, hi, pts[m][1]))
    return build(0, len(pts), default)


def fun_tree(f, dom):
    """SMT body (variable x) of a unary function given extensionally on dom: pieces x+k or constants"""
    pieces = []     # (lo, kind, k)
    for a, b in dom.r:
        x = a
        while x <= b:
            d = f(x) - x
            c = f(x)
            # extend as x+d
            y = x
            while y + 1 <= b and f(y + 1) - (y + 1) == d:
                y += 1
            z = x
            while z + 1 <= b and f(z + 1) == c:
                z += 1
            if z > y:
                pieces.append((x, 'c', c))
                x = z + 1
            else:
                pieces.append((x, 'd', d))
                x = y + 1

    def leaf(p):
        return _num(p[2]) if p[1] == 'c' else ('x' if p[2] == 0 else '(+ x %s)' % _num(p[2]))

    def build(lo, hi):
        if hi - lo == 1:
            return leaf(pieces[lo])
        m = (lo + hi) // 2
        return '(ite (< x %s) %s %s)' % (_num(pieces[m][0]), build(lo, m), build(m, hi))
    if not pieces:
        return 'x'
    return build(0, len(pieces))
