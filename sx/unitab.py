"""Character tables dumped from the running interpreter / real regex engines (cached on disk)."""
import os
import pickle
import sys
import unicodedata

from . import terms as tm
from .terms import iset, CHARS

CACHE = os.environ.get('SX_CACHE', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tables'))
VER = 'v1-%s-%s' % ('.'.join(map(str, sys.version_info[:3])), unicodedata.unidata_version)

_mem = {}


def _disk(name, compute):
    if name in _mem:
        return _mem[name]
    import hashlib
    fn = os.path.join(CACHE, VER, hashlib.sha1(name.encode('utf-8', 'backslashreplace')).hexdigest()[:16])
    try:
        with open(fn, 'rb') as f:
            n, v = pickle.load(f)
            if n == name:
                _mem[name] = v
                return v
    except Exception:
        pass
    v = compute()
    _mem[name] = v
    if not os.environ.get('SX_TABLES_WRITE'):
        return v
    try:
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        tmp = '%s.%d' % (fn, os.getpid())
        with open(tmp, 'wb') as f:
            pickle.dump((name, v), f)
        os.rename(tmp, fn)
    except Exception:
        pass
    return v


def _ranges(pred):
    out = []
    s = None
    for lo, hi in CHARS.r:
        for c in range(lo, hi + 1):
            if pred(chr(c)):
                if s is None:
                    s = c
            elif s is not None:
                out.append((s, c - 1))
                s = None
        if s is not None:
            out.append((s, hi))
            s = None
    return out


def charset(name, pred):
    """ISet of characters with pred; pred depends only on the runtime"""
    return iset(_disk('set:' + name, lambda: _ranges(pred)))


_ALL = None


def regex_set(module, atom, flags=0):
    """ISet of the characters the one-character pattern `atom` matches in the real engine"""
    def compute():
        global _ALL
        if _ALL is None:
            _ALL = ''.join(chr(c) for lo, hi in CHARS.r for c in range(lo, hi + 1))
        r = module.compile(atom, flags)
        return sorted_ranges(m.start() for m in r.finditer(_ALL))

    def sorted_ranges(idx):
        out = []
        for i in idx:
            c = i if i <= 0xD7FF else i + 0x800
            if out and out[-1][1] == c - 1:
                out[-1] = (out[-1][0], c)
            else:
                out.append((c, c))
        return out
    return iset(_disk('rx:%s:%s:%d' % (module.__name__, atom, int(flags)), compute))


METH = {
    'up': str.isupper, 'lo': str.islower,
    'blockU': lambda c: not ('A' + c).isupper(),
    'blockL': lambda c: not ('a' + c).islower(),
    'space': str.isspace, 'digit': str.isdigit, 'alpha': str.isalpha, 'alnum': str.isalnum,
    'decimal': str.isdecimal, 'numeric': str.isnumeric, 'printable': str.isprintable,
    'linebreak': lambda c: len(('a' + c + 'b').splitlines()) > 1,
    'sigma_cased': lambda c: (c + '\u03a3').lower()[-1] == '\u03c2',
    'sigma_ignorable': lambda c: ('a' + c + '\u03a3').lower()[-1] == '\u03c2' and (c + '\u03a3').lower()[-1] != '\u03c2',
    'cased': lambda c: c.isupper() or c.islower() or c.istitle(),
    'idcont': lambda c: ('a' + c).isidentifier(), 'idstart': str.isidentifier,
    'intspace': lambda c: _intok(c + '1'),
}


def _intok(s):
    try:
        int(s)
        return not s[0].isdecimal() and s[0] not in '+-'
    except ValueError:
        return False


def cset(name):
    return charset(name, METH[name])


CASEF = {'lower': str.lower, 'upper': str.upper, 'capitalize': str.capitalize, 'title': str.title,
         'casefold': str.casefold, 'swapcase': str.swapcase}


def casemap(which):
    """dict char code -> tuple of codes, for the characters changed by the mapping (applied to the single char)"""
    f = CASEF[which]

    def compute():
        d = {}
        for lo, hi in CHARS.r:
            for c in range(lo, hi + 1):
                s = chr(c)
                t = f(s)
                if t != s:
                    d[c] = tuple(map(ord, t))
        return d
    return _disk('case:' + which, compute)


_plans = {}


def case_plan(which):
    """-> list of (ISet, [function names]) partitioning CHARS by length of the image.
    The identity class comes first, then ASCII letters, then others by image length."""
    p = _plans.get(which)
    if p is None:
        m = casemap(which)
        changed = tm.iset_from_values(m.keys())
        p = [(CHARS & changed.neg(), None)]
        asc = [c for c in m if c < 128]
        bylen = {}
        for c, t in m.items():
            if c >= 128:
                bylen.setdefault(len(t), []).append(c)
        p.append((tm.iset_from_values(asc), asc_shift(m, asc)))
        for n in sorted(bylen):
            dom = tm.iset_from_values(bylen[n])
            names = []
            for i in range(n):
                nm = 'case_%s_%d_%d' % (which, n, i)
                tm.register_fun(nm, (lambda i: lambda x: m[x][i] if x in m and i < len(m[x]) else x)(i), dom)
                names.append(nm)
            p.append((dom, names))
        _plans[which] = p
    return p


def asc_shift(m, asc):
    ds = {m[c][0] - c for c in asc if len(m[c]) == 1}
    if len(ds) == 1 and all(len(m[c]) == 1 for c in asc):
        return ds.pop()
    # e.g. swapcase: treat like general functions
    nm = 'case_asc_%d' % id(m)
    tm.register_fun(nm, lambda x: m[x][0] if x in m else x, tm.iset_from_values(asc))
    return [nm]


def decimal_value_set():
    return cset('decimal')


def dec_fun():
    def f(x):
        try:
            return unicodedata.decimal(chr(x))
        except Exception:
            return -1
    return tm.register_fun('decimal_value', f, cset('decimal'))
