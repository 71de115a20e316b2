"""Regular expressions over symbolic strings: own backtracking matcher with the semantics of re/regex
(ordered alternation, greedy/lazy), character tests fork the path; fullmatch existence is one term."""
from . import engine
from . import terms as tm
from . import unitab
from .engine import Unsupported
from .terms import iset, CHARS, T
from .values import SStr, SVal, codes_of, mkstr, fork, ch_in, ch_eq

import re as _re
import regex as _regex

SPECIAL = tm.iset_from_values([ord(c) for c in '.^$*+?{}[]\\|()'])
IGNORABLE = 0


class RxUnsupported(Exception):
    pass


class Pattern(object):
    def __init__(self, mod, src, flags):
        self.mod = mod
        self.pattern = src
        self.flags = flags
        p = Parser(mod, src, flags)
        self.node = p.parse()
        self.ngroups = p.ngroups
        self.names = p.names
        self.fn = comp(self.node, mod, flags)
        self.groups = self.ngroups
        self.groupindex = dict(self.names)

    # -- the single matching primitive
    def _at(self, c, i, end=None):
        """match at i -> (end, caps) or None; `end` forces the match to end there"""
        n = len(c)

        def k(j, caps):
            if end is not None and j != end:
                return None
            return (j, caps)
        return self.fn(c, n, i, (None,) * (self.ngroups + 1), k)

    def match(self, s, pos=0, endpos=None):
        c = _codes(s, pos, endpos)
        r = self._at(c, pos)
        return SMatch(self, s, c, pos, r) if r else None

    def fullmatch(self, s, pos=0, endpos=None):
        c = _codes(s, pos, endpos)
        if pos == 0 and not has_ref(self.node):
            t = ends(self.node, c, 0, {}, self).get(len(c), tm.FALSE)
            if not fork(t):
                return None
            return SMatch(self, s, c, pos, None)
        r = self._at(c, pos, len(c))
        return SMatch(self, s, c, pos, r) if r else None

    def search(self, s, pos=0, endpos=None):
        c = _codes(s, pos, endpos)
        for i in range(pos, len(c) + 1):
            r = self._at(c, i)
            if r:
                return SMatch(self, s, c, i, r)
        return None

    def finditer(self, s, pos=0, endpos=None, **kw):
        if kw:
            raise RxUnsupported('finditer options')
        c = _codes(s, pos, endpos)
        i = pos
        last_empty_at = -1
        while i <= len(c):
            r = None
            st = i
            while st <= len(c):
                r = self._at(c, st)
                if r:
                    break
                st += 1
            if not r:
                return
            yield SMatch(self, s, c, st, r)
            if r[0] == st:
                i = st + 1
                # a non-empty match may start where the empty one was found (python 3.7+)
                r2 = self._nonempty(c, st)
                if r2:
                    yield SMatch(self, s, c, st, r2)
                    i = r2[0]
            else:
                i = r[0]

    def _nonempty(self, c, st):
        n = len(c)
        if st >= n:
            return None
        return self.fn(c, n, st, (None,) * (self.ngroups + 1), lambda j, caps: (j, caps) if j > st else None)

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.ngroups == 0:
                out.append(m.group(0))
            elif self.ngroups == 1:
                out.append(m.group(1) or '')
            else:
                out.append(tuple(g if g is not None else '' for g in m.groups()))
        return out

    def split(self, s, maxsplit=0):
        out = []
        p = 0
        k = 0
        c = codes_of(s)
        for m in self.finditer(s):
            if maxsplit and k >= maxsplit:
                break
            if m.end() == m.start() and self.mod is _regex:
                continue
            out.append(mkstr(c[p:m.start()]))
            out.extend(m.groups())
            p = m.end()
            k += 1
        out.append(mkstr(c[p:]))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        c = codes_of(s)
        out = []
        p = 0
        k = 0
        for m in self.finditer(s):
            if count and k >= count:
                break
            out.extend(c[p:m.start()])
            if callable(repl):
                out.extend(codes_of(repl(m)))
            else:
                out.extend(codes_of(m.expand(repl)))
            p = m.end()
            k += 1
        out.extend(c[p:])
        return mkstr(out), k

    def __repr__(self):
        return 'SPattern(%r)' % (self.pattern,)


def _codes(s, pos, endpos):
    if not isinstance(s, (str, SStr)):
        raise TypeError('expected string or bytes-like object')
    c = codes_of(s)
    return c if endpos is None else c[:endpos]


def _close_order(n):
    """group -> position among the closing parentheses"""
    out = {}

    def walk(n, bad):
        if not isinstance(n, tuple):
            if isinstance(n, list):
                for x in n:
                    walk(x, bad)
            return
        if n and n[0] == 'rep':
            bad = bad or n[3] != 1
        elif n and n[0] not in ('seq', 'alt', 'grp'):
            bad = True
        for x in n[1:]:
            if isinstance(x, (tuple, list)):
                walk(x, bad)
        if n and n[0] == 'grp':
            out[n[1]] = (len(out), bad)
    walk(n, False)
    return out


class SMatch(object):
    def __init__(self, pat, s, c, start, r):
        self.re = pat
        self.string = s
        self._c = c
        self._st = start
        self._r = r
        self.pos = 0
        self.endpos = len(c)

    def _res(self):
        if self._r is None:
            r = self.re._at(self._c, self._st, len(self._c))
            if r is None:
                raise Unsupported('regex: lazy groups inconsistent')
            self._r = r
        return self._r

    def _span(self, g):
        if isinstance(g, str):
            g = self.re.names[g]
        g = int(g)
        if g == 0:
            return self._st, (len(self._c) if self._r is None else self._r[0])
        if g > self.re.ngroups:
            raise IndexError('no such group')
        x = self._res()[1][g]
        return (-1, -1) if x is None else x

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            a, b = self._span(g)
            out.append(None if a < 0 else mkstr(self._c[a:b]))
        return out[0] if len(out) == 1 else tuple(out)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        out = []
        for g in range(1, self.re.ngroups + 1):
            x = self.group(g)
            out.append(default if x is None else x)
        return tuple(out)

    def groupdict(self, default=None):
        return {k: (self.group(v) if self._span(v)[0] >= 0 else default) for k, v in self.re.names.items()}

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def span(self, g=0):
        return self._span(g)

    def expand(self, tmpl):
        if isinstance(tmpl, SStr):
            raise RxUnsupported('symbolic template')
        out = ''
        i = 0
        while i < len(tmpl):
            ch = tmpl[i]
            if ch != '\\' or i + 1 >= len(tmpl):
                out = out + ch
                i += 1
                continue
            d = tmpl[i + 1]
            if d.isdigit() and d != '0':
                out = out + (self.group(int(d)) or '')
                i += 2
            elif d == 'g' and tmpl[i + 2:i + 3] == '<':
                j = tmpl.index('>', i)
                nm = tmpl[i + 3:j]
                out = out + (self.group(int(nm) if nm.isdigit() else nm) or '')
                i = j + 1
            elif d in 'nrtabfv\\':
                out = out + {'n': '\n', 'r': '\r', 't': '\t', 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v',
                             '\\': '\\'}[d]
                i += 2
            else:
                raise RxUnsupported('template escape')
        return out

    @property
    def lastindex(self):
        best = None
        order = _close_order(self.re.node)
        for g in range(1, self.re.ngroups + 1):
            x = self._res()[1][g]
            if x is not None and (best is None or (x[1], order[g]) > best[0]):
                best = (x[1], order[g]), g
        if best is not None and best[0][1][1]:
            raise Unsupported('last group inside a repetition')
        return None if best is None else best[1]

    @property
    def lastgroup(self):
        i = self.lastindex
        for k, v in self.re.names.items():
            if v == i:
                return k
        return None

    @property
    def regs(self):
        return tuple(self._span(g) for g in range(self.re.ngroups + 1))

    def __repr__(self):
        return '<SMatch>'


# ------------------------------------------------------------------------------------------ parsing
def _verbose(c, esc):
    """the pattern without the white space and the comments that the VERBOSE flag ignores"""
    if esc or any(not isinstance(e, int) for e in c):
        raise RxUnsupported('verbose symbolic pattern')
    out = []
    i = 0
    cls = False
    while i < len(c):
        ch = chr(c[i])
        if ch == '\\':
            out += c[i:i + 2]
            i += 2
            continue
        if cls:
            if ch == '[' and c[i + 1:i + 2] == [58] or ch == '[' and tuple(c[i + 1:i + 2]) == (58,):
                j = i + 2
                while j + 1 < len(c) and (c[j], c[j + 1]) != (58, 93):
                    j += 1
                out += c[i:j + 2]
                i = j + 2
                continue
            if ch == ']':
                cls = False
        elif ch == '[':
            cls = True
            out.append(c[i])
            i += 1
            if i < len(c) and c[i] == 94:
                out.append(c[i])
                i += 1
            if i < len(c) and c[i] == 93:
                out.append(c[i])
                i += 1
            continue
        elif ch == '#':
            while i < len(c) and c[i] != 10:
                i += 1
            continue
        elif ch in ' \t\n\r\f\v':
            i += 1
            continue
        out.append(c[i])
        i += 1
    return tuple(out)


class Parser(object):
    def __init__(self, mod, src, flags):
        self.mod = mod
        self.flags = int(flags)
        ok = int(_re.UNICODE) | int(_regex.V0) | int(_regex.UNICODE) | int(_re.MULTILINE) | int(_re.DOTALL)
        if self.flags & ~(ok | int(_re.VERBOSE)):
            raise RxUnsupported('flags')
        self.c = codes_of(src)
        esc = getattr(src, 'escaped', None) or ()
        self.esc = esc
        if self.flags & int(_re.VERBOSE):
            self.c = _verbose(self.c, esc)
            self.esc = ()
        self.i = 0
        self.ngroups = 0
        self.names = {}

    def peek(self):
        """next pattern character as str, or None; ('lit', e) for a literal element"""
        if self.i >= len(self.c):
            return None
        e = self.c[self.i]
        if self.i in self.esc:
            return ('lit', e)
        if isinstance(e, T):
            if fork(ch_in(e, SPECIAL)):
                e = engine.CUR.choose(e, 20)
            else:
                return ('lit', e)
        return chr(e)

    def parse(self):
        n = self.alt()
        if self.i < len(self.c):
            raise RxUnsupported('unbalanced')
        return n

    def alt(self):
        xs = [self.seq()]
        while self.peek() == '|':
            self.i += 1
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def seq(self):
        out = []
        while True:
            p = self.peek()
            if p is None or p == '|' or p == ')':
                return ('seq', out)
            a = self.atom(p)
            while True:
                p = self.peek()
                if p is None or isinstance(p, tuple):
                    break
                if p in '*+?':
                    self.i += 1
                    lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[p]
                elif p == '{':
                    q = self._braces()
                    if q is None:
                        break
                    lo, hi = q
                else:
                    break
                greedy = True
                q = self.peek()
                if q == '?':
                    self.i += 1
                    greedy = False
                elif q == '+':
                    if self.mod is _regex:
                        raise RxUnsupported('possessive')
                    raise RxUnsupported('multiple repeat')
                if a[0] in ('bol', 'eol', 'A', 'Z', 'wb'):
                    raise RxUnsupported('repeat of assertion')
                a = ('rep', a, lo, hi, greedy)
            out.append(a)

    def _braces(self):
        j = self.i + 1
        t = ''
        while j < len(self.c) and isinstance(self.c[j], int) and j not in self.esc and chr(self.c[j]) != '}':
            t += chr(self.c[j])
            j += 1
        if j >= len(self.c):
            return None
        m = _re.fullmatch('([0-9]*)(,?)([0-9]*)', t)
        if not m or t in ('', ','):
            return None
        self.i = j + 1
        lo = int(m.group(1) or 0)
        hi = lo if not m.group(2) else (int(m.group(3)) if m.group(3) else None)
        return lo, hi

    def atom(self, p):
        if isinstance(p, tuple):
            self.i += 1
            return p
        if p == '(':
            return self.group()
        if p == '[':
            return self.cls()
        self.i += 1
        if p == '.':
            if self.flags & _re.DOTALL:
                return ('set', CHARS)
            return ('set', CHARS & iset([(10, 10)]).neg())
        if p == '^':
            return ('bol', bool(self.flags & _re.MULTILINE))
        if p == '$':
            return ('eol', bool(self.flags & _re.MULTILINE))
        if p == '\\':
            return self.escape()
        if p in '*+?':
            raise RxUnsupported('nothing to repeat')
        return ('lit', ord(p))

    def escape(self):
        p = self.peek()
        if p is None or isinstance(p, tuple):
            raise RxUnsupported('bad escape')
        self.i += 1
        if p in 'dDwWsS':
            return ('set', CHARS & unitab.regex_set(self.mod, '\\' + p))
        if p in 'bB':
            return ('wb', p == 'B')
        if p == 'A':
            return ('A',)
        if p == 'Z':
            return ('Z',)
        if p in 'ntrfva':
            return ('lit', ord({'n': '\n', 't': '\t', 'r': '\r', 'f': '\f', 'v': '\v', 'a': '\a'}[p]))
        if p in '123456789':
            return ('ref', int(p))
        if p in 'xuU':
            k = {'x': 2, 'u': 4, 'U': 8}[p]
            h = ''.join(chr(e) for e in self.c[self.i:self.i + k] if isinstance(e, int))
            if len(h) != k:
                raise RxUnsupported('bad escape')
            self.i += k
            return ('lit', int(h, 16))
        if p in 'pP' and self.mod is _regex:
            q = self.peek()
            if q == '{':
                j = self.i
                t = ''
                while chr(self.c[j]) != '}':
                    t += chr(self.c[j])
                    j += 1
                self.i = j + 1
                t += '}'
            else:
                t = q
                self.i += 1
            return ('set', CHARS & unitab.regex_set(self.mod, '\\' + p + t))
        if p.isalnum():
            raise RxUnsupported('escape \\' + p)
        return ('lit', ord(p))

    def group(self):
        self.i += 1
        idx = None
        if self.peek() == '?':
            self.i += 1
            p = self.peek()
            if p == ':':
                self.i += 1
            elif p == '=' or p == '!':
                self.i += 1
                n = self.alt()
                self.close()
                return ('look', 1, p == '!', n)
            elif p == '<' or p == 'P':
                self.i += 1
                if p == 'P':
                    if self.peek() != '<':
                        raise RxUnsupported('(?P')
                    self.i += 1
                q = self.peek()
                if p == '<' and q in ('=', '!'):
                    self.i += 1
                    n = self.alt()
                    self.close()
                    w = width(n)
                    if w is None:
                        raise RxUnsupported('variable look-behind')
                    return ('look', -w, q == '!', n)
                nm = ''
                while self.peek() != '>':
                    nm += self.peek()
                    self.i += 1
                self.i += 1
                self.ngroups += 1
                idx = self.ngroups
                self.names[nm] = idx
            else:
                raise RxUnsupported('(?' + str(p))
        else:
            self.ngroups += 1
            idx = self.ngroups
        n = self.alt()
        self.close()
        return n if idx is None else ('grp', idx, n)

    def close(self):
        if self.peek() != ')':
            raise RxUnsupported('missing )')
        self.i += 1

    def cls(self):
        self.i += 1
        neg = False
        if self.peek() == '^':
            neg = True
            self.i += 1
        s = tm.EMPTY
        syms = []
        first = True
        while True:
            p = self.peek()
            if p is None:
                raise RxUnsupported('class')
            if isinstance(p, tuple):
                self.i += 1
                if isinstance(p[1], int):
                    s = s | iset([(p[1], p[1])])
                else:
                    syms.append(p[1])
                continue
            if p == ']' and not first:
                self.i += 1
                break
            first = False
            if p == '[':
                if self.mod is _regex and self.c[self.i + 1:self.i + 2] == (58,):
                    j = self.i + 2
                    while self.c[j:j + 2] != (58, 93):
                        j += 1
                    t = ''.join(map(chr, self.c[self.i:j + 2]))
                    self.i = j + 2
                    s = s | unitab.regex_set(self.mod, '[' + t + ']')
                    continue
            self.i += 1
            lo = None
            if p == '\\':
                q = self.escape()
                if q[0] == 'set':
                    s = s | q[1]
                    continue
                if q[0] == 'wb':
                    q = ('lit', 8)
                if q[0] != 'lit':
                    raise RxUnsupported('class escape')
                lo = q[1]
            else:
                lo = ord(p)
            hi = lo
            if self.peek() == '-' and self.c[self.i + 1:self.i + 2] != (93,) and self.i + 1 < len(self.c):
                self.i += 1
                q = self.peek()
                if isinstance(q, tuple):
                    raise RxUnsupported('symbolic range')
                self.i += 1
                if q == '\\':
                    q = self.escape()
                    if q[0] != 'lit':
                        raise RxUnsupported('range')
                    hi = q[1]
                else:
                    hi = ord(q)
                if hi < lo:
                    raise RxUnsupported('bad range')
            s = s | iset([(lo, hi)])
        if syms:
            return ('symset', s, tuple(syms), neg)
        s = CHARS & (s.neg() if neg else s)
        return ('set', s)


def width(n):
    k = n[0]
    if k in ('lit', 'set', 'symset'):
        return 1
    if k == 'seq':
        t = 0
        for x in n[1]:
            w = width(x)
            if w is None:
                return None
            t += w
        return t
    if k == 'alt':
        ws = {width(x) for x in n[1]}
        return ws.pop() if len(ws) == 1 else None
    if k == 'grp':
        return width(n[2])
    if k == 'rep':
        w = width(n[1])
        return w * n[2] if w is not None and n[2] == n[3] else None
    if k == 'ref':
        return None
    return 0


def has_ref(n):
    k = n[0]
    if k == 'ref':
        return True
    if k in ('seq', 'alt'):
        return any(has_ref(x) for x in n[1])
    if k == 'grp':
        return has_ref(n[2])
    if k == 'rep':
        return has_ref(n[1])
    if k == 'look':
        return has_ref(n[3])
    return False


def test_term(n, e):
    if n[0] == 'lit':
        return ch_eq(e, n[1])
    if n[0] == 'set':
        return ch_in(e, n[1])
    t = tm.or_(ch_in(e, n[1]), *[ch_eq(e, x) for x in n[2]])
    return tm.not_(t) if n[3] else t


_word = {}


def wordset(mod):
    return CHARS & unitab.regex_set(mod, '\\w')


def zero_term(n, c, i, mod):
    """term of a zero-width assertion at i"""
    k = n[0]
    ln = len(c)
    if k == 'A':
        return tm.TRUE if i == 0 else tm.FALSE
    if k == 'Z':
        return tm.TRUE if i == ln else tm.FALSE
    if k == 'bol':
        if i == 0:
            return tm.TRUE
        return ch_eq(c[i - 1], 10) if n[1] else tm.FALSE
    if k == 'eol':
        if i == ln:
            return tm.TRUE
        if n[1] or i == ln - 1:
            return ch_eq(c[i], 10)
        return tm.FALSE
    if k == 'wb':
        w = wordset(mod)
        a = ch_in(c[i - 1], w) if i > 0 else tm.FALSE
        b = ch_in(c[i], w) if i < ln else tm.FALSE
        x = tm.not_(tm.eq(a, b))
        return tm.not_(x) if n[1] else x
    raise AssertionError(k)


# ------------------------------------------------------------------------ backtracking (forks)
def comp(n, mod, flags):
    k = n[0]
    if k in ('lit', 'set', 'symset'):
        def f(c, ln, i, caps, cont):
            if i < ln and fork(test_term(n, c[i])):
                return cont(i + 1, caps)
            return None
        return f
    if k in ('A', 'Z', 'bol', 'eol', 'wb'):
        def f(c, ln, i, caps, cont):
            if fork(zero_term(n, c, i, mod)):
                return cont(i, caps)
            return None
        return f
    if k == 'seq':
        fs = [comp(x, mod, flags) for x in n[1]]

        def f(c, ln, i, caps, cont):
            def go(j, i, caps):
                if j == len(fs):
                    return cont(i, caps)
                return fs[j](c, ln, i, caps, lambda i2, caps2: go(j + 1, i2, caps2))
            return go(0, i, caps)
        return f
    if k == 'alt':
        fs = [comp(x, mod, flags) for x in n[1]]

        def f(c, ln, i, caps, cont):
            for g in fs:
                r = g(c, ln, i, caps, cont)
                if r is not None:
                    return r
            return None
        return f
    if k == 'grp':
        g = comp(n[2], mod, flags)
        idx = n[1]

        def f(c, ln, i, caps, cont):
            return g(c, ln, i, caps, lambda j, cp: cont(j, cp[:idx] + ((i, j),) + cp[idx + 1:]))
        return f
    if k == 'rep':
        g = comp(n[1], mod, flags)
        lo, hi, greedy = n[2], n[3], n[4]

        def f(c, ln, i, caps, cont):
            def loop(cnt, i, caps):
                def more():
                    if hi is not None and cnt >= hi:
                        return None
                    return g(c, ln, i, caps,
                             lambda j, cp: loop(cnt + 1, j, cp) if (j > i or cnt < lo) else None)
                if cnt < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else cont(i, caps)
                r = cont(i, caps)
                return r if r is not None else more()
            return loop(0, i, caps)
        return f
    if k == 'look':
        g = comp(n[3], mod, flags)
        d, neg = n[1], n[2]

        def f(c, ln, i, caps, cont):
            st = i if d == 1 else i + d
            end = None if d == 1 else i
            if d != 1 and st < 0:
                r = None
            else:
                r = g(c, ln, st, caps, lambda j, cp: (j, cp) if end is None or j == end else None)
            if neg:
                return cont(i, caps) if r is None else None
            return cont(i, r[1]) if r is not None else None
        return f
    if k == 'ref':
        def f(c, ln, i, caps, cont):
            s = caps[n[1]]
            if s is None:
                return None
            for p in range(s[0], s[1]):
                if i >= ln or not fork(ch_eq(c[i], c[p])):
                    return None
                i += 1
            return cont(i, caps)
        return f
    raise RxUnsupported(k)


# ------------------------------------------------------------------------ set of end positions as terms
def ends(n, c, i, memo, pat):
    key = (id(n), i)
    r = memo.get(key)
    if r is None:
        r = memo[key] = _ends(n, c, i, memo, pat)
    return r


def _merge(d, j, t):
    if t is tm.FALSE:
        return
    d[j] = tm.or_(d[j], t) if j in d else t


def _ends(n, c, i, memo, pat):
    k = n[0]
    if k in ('lit', 'set', 'symset'):
        if i >= len(c):
            return {}
        t = test_term(n, c[i])
        return {} if t is tm.FALSE else {i + 1: t}
    if k in ('A', 'Z', 'bol', 'eol', 'wb'):
        t = zero_term(n, c, i, pat.mod)
        return {} if t is tm.FALSE else {i: t}
    if k == 'seq':
        cur = {i: tm.TRUE}
        for x in n[1]:
            nx = {}
            for j, t in cur.items():
                for j2, t2 in ends(x, c, j, memo, pat).items():
                    _merge(nx, j2, tm.and_(t, t2))
            cur = nx
        return cur
    if k == 'alt':
        out = {}
        for x in n[1]:
            for j, t in ends(x, c, i, memo, pat).items():
                _merge(out, j, t)
        return out
    if k == 'grp':
        return ends(n[2], c, i, memo, pat)
    if k == 'rep':
        lo, hi = n[2], n[3]
        cur = {i: tm.TRUE}
        out = dict(cur) if lo == 0 else {}
        cnt = 0
        while cur and (hi is None or cnt < hi):
            nx = {}
            for j, t in cur.items():
                for j2, t2 in ends(n[1], c, j, memo, pat).items():
                    if j2 > j or cnt < lo:
                        _merge(nx, j2, tm.and_(t, t2))
            cnt += 1
            cur = nx
            if cnt >= lo:
                for j, t in cur.items():
                    _merge(out, j, t)
            if cnt > len(c) + lo + 1:
                break
        return out
    if k == 'look':
        d, neg = n[1], n[2]
        if d == 1:
            t = tm.or_(*ends(n[3], c, i, memo, pat).values())
        else:
            t = tm.FALSE if i + d < 0 else ends(n[3], c, i + d, memo, pat).get(i, tm.FALSE)
        if neg:
            t = tm.not_(t)
        return {} if t is tm.FALSE else {i: t}
    raise RxUnsupported(k)


# ------------------------------------------------------------------------ module level API
_pc = {}


def compile_(mod, p, flags=0):
    if isinstance(p, Pattern):
        return p
    if not isinstance(p, (str, SStr)):
        if hasattr(p, 'pattern'):
            flags = p.flags & ~int(_re.UNICODE) if isinstance(p.flags, int) else 0
            p = p.pattern
    if isinstance(p, str):
        key = (mod, p, int(flags))
        r = _pc.get(key)
        if r is None:
            getattr(mod, 'compile')(p, flags)            # real syntax errors surface here
            r = _pc[key] = Pattern(mod, p, flags)
        return r
    return Pattern(mod, p, flags)


def escape(mod, s):
    if isinstance(s, str):
        return mod.escape(s)
    return SStr(s.c, frozenset(range(len(s.c))))
