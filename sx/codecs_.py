"""encode/decode of symbolic strings, repr of bytes, literal_eval of bytes literals."""
from . import terms as tm
from . import engine
from .engine import Unsupported
from .terms import iset, isin, T, const, eq
from .values import SStr, SBytes, mkstr, mkbytes, fork, ch_in, ch_eq, simp, codes_of, bcodes, simplify_unary, concretize

NOTSUR = tm.CHARS


def _classes(name, sets, enc):
    """register functions for position i of the encoding on each class"""
    out = []
    for dom, n in sets:
        fs = []
        for i in range(n):
            fs.append(tm.register_fun('%s_%d_%d' % (name, n, i), (lambda i: lambda x: enc(x)[i])(i), dom))
        out.append((dom, n, fs))
    return out


_U8 = None
_UE = None
_REPR = None


def _u8enc(x):
    return chr(x).encode('utf-8')


def _init():
    global _U8, _UE, _REPR
    if _U8:
        return
    _U8 = [(iset([(0, 0x7f)]), 1, None), (iset([(0x80, 0x7ff)]), 2, _u8(2, 0xc0)),
           (iset([(0x800, 0xd7ff), (0xe000, 0xffff)]), 3, _u8(3, 0xe0)), (iset([(0x10000, 0x10ffff)]), 4, _u8(4, 0xf0))]
    ue = lambda x: chr(x).encode('unicode-escape')
    lens = {}
    plain = []
    for x in range(0x100):
        e = ue(x)
        if e == bytes([x]):
            plain.append(x)
        else:
            lens.setdefault(len(e), []).append(x)
    tm.register_fun('hexd', lambda d: ord('%x' % d), iset([(0, 15)]))
    _UE = [(tm.iset_from_values(plain), 1, None)]
    _UE += _classes('ue', [(tm.iset_from_values(lens[n]), n) for n in sorted(lens)], ue)
    _UE += [(iset([(0x100, 0xd7ff), (0xe000, 0xffff)]), 6, _uesc(117, 4, 4)),
            (iset([(0x10000, 0x10ffff)]), 10, _uesc(85, 6, 8))]


def _u8(n, lead):
    def f(x):
        ds = engine.CUR.digits(x, 64, n)
        return [tm.add(d, const(0x80 if i else lead)) for i, d in enumerate(ds)]
    return f


def _uesc(ch, n, width):
    def f(x):
        ds = engine.CUR.digits(x, 16, n)
        return [92, ch] + [48] * (width - n) + [tm.fn('hexd', d) for d in ds]
    return f


def encode(s, encoding, errors):
    _init()
    enc = concretize(encoding).lower().replace('_', '-')
    out = []
    if enc in ('ascii', 'us-ascii'):
        for i, e in enumerate(s.c):
            if fork(ch_in(e, tm.ASCII)):
                out.append(e)
            elif errors == 'ignore':
                pass
            elif errors == 'replace':
                out.append(63)
            elif errors != 'strict':
                return concretize(s).encode(encoding, errors)
            else:
                raise UnicodeEncodeError('ascii', '\x80', 0, 1, 'ordinal not in range(128)')
        return mkbytes(out)
    if enc in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1'):
        for e in s.c:
            if fork(ch_in(e, tm.BYTES)):
                out.append(e)
            elif errors == 'ignore':
                pass
            elif errors == 'replace':
                out.append(63)
            else:
                raise UnicodeEncodeError('latin-1', '\u0100', 0, 1, 'ordinal not in range(256)')
        return mkbytes(out)
    if enc in ('utf-8-sig', 'utf8-sig'):
        out.extend((0xef, 0xbb, 0xbf))
        enc = 'utf-8'
    if enc in ('utf-8', 'utf8'):
        plan = _U8
    elif enc == 'unicode-escape':
        plan = _UE
    else:
        return concretize(s).encode(encoding, errors)
    for e in s.c:
        if isinstance(e, int):
            out.extend(chr(e).encode(enc, errors))
            continue
        for k, (dom, n, fs) in enumerate(plan):
            if k == len(plan) - 1 or fork(isin(e, dom)):
                if fs is None or plan is _U8 and n == 1:
                    out.append(e)
                elif callable(fs):
                    r = fs(e)
                    engine.CUR.undo[tuple(r)] = e
                    out.extend(r)
                else:
                    out.extend(simp(tm.fn(f, e)) for f in fs)
                break
    return mkbytes(out)


def _undo(es, fs):
    """if es are fs applied to one and the same term, return that term"""
    if callable(fs):
        return engine.CUR.undo.get(tuple(es))
    if len(es) != len(fs):
        return None
    x = None
    for e, f in zip(es, fs):
        if not (isinstance(e, T) and e.op == 'fn' and e.a[0] == f):
            return None
        if x is None:
            x = e.a[1]
        elif x is not e.a[1]:
            return None
    return x


HEXD = iset([(48, 57), (65, 70), (97, 102)])


def _hexval(x):
    try:
        return int(chr(x), 16) if x < 128 else -1
    except ValueError:
        return -1


def hexnum(ds):
    tm.register_fun('hexval', _hexval, HEXD)
    t = const(0)
    for d in ds:
        d = tm.tt(d)
        h = d.a[1] if d.op == 'fn' and d.a[0] == 'hexd' else tm.fn('hexval', d)
        t = tm.add(tm.mul(t, const(16)), h)
    return t


def decode(b, encoding, errors):
    _init()
    enc = concretize(encoding).lower().replace('_', '-')
    c = b.c
    if enc in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1'):
        return mkstr(c)
    if enc in ('ascii', 'us-ascii'):
        for e in c:
            if not fork(ch_in(e, tm.ASCII)):
                raise UnicodeDecodeError('ascii', b'\x80', 0, 1, 'ordinal not in range(128)')
        return mkstr(c)
    if enc in ('utf-8-sig', 'utf8-sig'):
        if len(c) >= 3 and all([fork(ch_in(e, iset([(m, m)]))) for e, m in zip(c, (0xef, 0xbb, 0xbf))]):
            c = c[3:]
        enc = 'utf-8'
    if enc in ('utf-8', 'utf8'):
        if errors in ('replace', 'ignore', 'surrogateescape'):
            return mkstr(_dec_u8(c, errors))
        if errors != 'strict':
            return concretize(b).decode(encoding, errors)
        return mkstr(_dec_u8(c))
    if enc == 'unicode-escape':
        return mkstr(_dec_ue(c))
    return concretize(b).decode(encoding, errors)


def _bad(enc, why):
    return UnicodeDecodeError(enc, b'\xff', 0, 1, why)


def _lenient(c, out, errors):
    if errors == 'replace':
        out.append(0xfffd)
    elif errors == 'surrogateescape':
        for e in c:
            out.append(simp(tm.add(tm.tt(e), const(0xdc00))))


def _seq_len(c, i):
    """UTF-8 sequence at c[i] that does not start with an ASCII character -> (bytes that belong together, valid?)"""
    n = len(c)
    e = c[i]
    cont = iset([(0x80, 0xbf)])
    for lo, hi, k, second in ((0xc2, 0xdf, 2, cont), (0xe0, 0xe0, 3, iset([(0xa0, 0xbf)])), (0xe1, 0xec, 3, cont),
                              (0xed, 0xed, 3, iset([(0x80, 0x9f)])), (0xee, 0xef, 3, cont), (0xf0, 0xf0, 4, iset([(0x90, 0xbf)])),
                              (0xf1, 0xf3, 4, cont), (0xf4, 0xf4, 4, iset([(0x80, 0x8f)]))):
        if fork(ch_in(e, iset([(lo, hi)]))):
            break
    else:
        return 1, False
    for j in range(1, k):
        if i + j >= n or not fork(ch_in(c[i + j], second if j == 1 else cont)):
            return j, False
    return k, True


def _dec_u8(c, errors=None):
    out = []
    i = 0
    n = len(c)
    while i < n:
        e = c[i]
        done = False
        if isinstance(e, T):
            for dom, k, fs in _U8[1:]:
                x = _undo(c[i:i + k], fs)
                if x is not None:
                    out.append(simp(x))
                    i += k
                    done = True
                    break
            if done:
                continue
        if fork(ch_in(e, tm.ASCII)):
            out.append(e)
            i += 1
            continue
        if errors:
            k, ok = _seq_len(c, i)
            if not ok:
                _lenient(c[i:i + k], out, errors)
                i += k
                continue
        if fork(ch_in(e, iset([(0xc2, 0xdf)]))):
            k, base = 2, 0xc0
        elif fork(ch_in(e, iset([(0xe0, 0xef)]))):
            k, base = 3, 0xe0
        elif fork(ch_in(e, iset([(0xf0, 0xf4)]))):
            k, base = 4, 0xf0
        else:
            raise _bad('utf-8', 'invalid start byte')
        if i + k > n:
            raise _bad('utf-8', 'unexpected end of data')
        cont = iset([(0x80, 0xbf)])
        v = tm.add(tm.tt(e), const(-base))
        for j in range(1, k):
            if not fork(ch_in(c[i + j], cont)):
                raise _bad('utf-8', 'invalid continuation byte')
            v = tm.addl(tm.mul(v, const(64)), tm.add(tm.tt(c[i + j]), const(-0x80)))
        ok = {2: iset([(0x80, 0x7ff)]), 3: iset([(0x800, 0xd7ff), (0xe000, 0xffff)]),
              4: iset([(0x10000, 0x10ffff)])}[k]
        if not fork(isin(v, ok)):
            raise _bad('utf-8', 'invalid continuation byte')
        out.append(simp(v))
        i += k
    return out


_SIMPLE = {ord('\\'): 92, ord("'"): 39, ord('"'): 34, ord('a'): 7, ord('b'): 8, ord('t'): 9, ord('n'): 10,
           ord('v'): 11, ord('f'): 12, ord('r'): 13}


def _dec_ue(c):
    """unicode-escape decoding; bytes are latin-1 outside escapes"""
    out = []
    i = 0
    n = len(c)
    while i < n:
        e = c[i]
        if isinstance(e, T) and e.op == 'fn' or not isinstance(e, T) and e == 92:
            done = False
            for dom, k, fs in _UE[1:]:
                x = _undo(c[i:i + k], fs)
                if x is not None:
                    out.append(simp(x))
                    i += k
                    done = True
                    break
            if done:
                continue
        if not fork(ch_eq(e, 92)):
            out.append(e)
            i += 1
            continue
        i += 1
        if i >= n:
            raise _bad('unicodeescape', '\\ at end of string')
        e = c[i]
        i += 1
        for k, v in _SIMPLE.items():
            if fork(ch_eq(e, k)):
                out.append(v)
                break
        else:
            if fork(ch_eq(e, 10)):
                continue
            oct_ = iset([(48, 55)])
            if fork(ch_in(e, oct_)):
                v = tm.add(tm.tt(e), const(-48))
                j = 0
                while j < 2 and i < n and fork(ch_in(c[i], oct_)):
                    v = tm.addl(tm.mul(v, const(8)), tm.add(tm.tt(c[i]), const(-48)))
                    i += 1
                    j += 1
                out.append(simp(v))
                continue
            k = None
            for ch, kk in ((120, 2), (117, 4), (85, 8)):
                if fork(ch_eq(e, ch)):
                    k = kk
                    break
            if k is None:
                if fork(ch_eq(e, 78)):
                    raise Unsupported('\\N{...} escape') if i < n and fork(ch_eq(c[i], 123)) else \
                        _bad('unicodeescape', 'malformed \\N character escape')
                out.append(92)
                out.append(e)
                continue
            if i + k > n:
                raise _bad('unicodeescape', 'truncated escape')
            for d in c[i:i + k]:
                if not fork(ch_in(d, HEXD)):
                    raise _bad('unicodeescape', 'truncated escape')
            v = hexnum(c[i:i + k])
            if v.op != 'c':
                v = simplify_unary(v, _fndom(v))
            if k == 8 and not fork(isin(v, iset([(0, 0x10ffff)]))):
                raise _bad('unicodeescape', 'illegal Unicode character')
            out.append(simp(v))
            i += k
    return out


def _fndom(t):
    """intersection of the domains of definition of the functions in t (for identity simplification)"""
    d = tm.CHARS
    st = [t]
    while st:
        u = st.pop()
        if u.op == 'fn':
            if u.a[1].op == 'v':
                d = d & tm.FUNS[u.a[0]][1]
            st.append(u.a[1])
        elif u.op in ('+', '*'):
            st.extend(u.a)
    return d


def bytes_repr(b):
    """repr of a bytes value"""
    c = b.c if isinstance(b, SBytes) else tuple(b)
    has_sq = fork(tm.or_(*[ch_eq(e, 39) for e in c]))
    has_dq = fork(tm.or_(*[ch_eq(e, 34) for e in c])) if has_sq else True
    q = 34 if has_sq and not has_dq else 39
    plain = iset([(32, 126)])
    hx = lambda k: tm.register_fun('hexdig%d' % k, lambda x: ord(('%02x' % (x & 255))[k]), tm.BYTES)
    out = [98, q]
    for e in c:
        if isinstance(e, int):
            if e == q or e == 92:
                out += [92, e]
            elif 32 <= e <= 126:
                out.append(e)
            elif e in (9, 10, 13):
                out += [92, {9: 116, 10: 110, 13: 114}[e]]
            else:
                out += [92, 120] + [ord(z) for z in '%02x' % e]
            continue
        if fork(tm.or_(ch_eq(e, q), ch_eq(e, 92))):
            out += [92, e]
        elif fork(ch_in(e, plain)):
            out.append(e)
        elif fork(ch_eq(e, 9)):
            out += [92, 116]
        elif fork(ch_eq(e, 10)):
            out += [92, 110]
        elif fork(ch_eq(e, 13)):
            out += [92, 114]
        else:
            out += [92, 120, tm.fn(hx(0), e), tm.fn(hx(1), e)]
    out.append(q)
    return mkstr(out)


def literal_bytes(s):
    """ast.literal_eval restricted to one bytes literal on one line (trailing whitespace allowed)"""
    c = codes_of(s)
    n = len(c)
    while n and not isinstance(c[n - 1], T) and c[n - 1] in (10, 32, 9):
        n -= 1
    if n < 3 or c[0] != 98 or c[1] not in (39, 34):
        raise Unsupported('literal_eval of non-bytes literal')
    q = c[1]
    out = []
    i = 2
    while True:
        if i >= n:
            raise SyntaxError('EOL while scanning string literal')
        e = c[i]
        if fork(ch_eq(e, q)):
            break
        if fork(ch_in(e, iset([(10, 10), (13, 13)]))):
            raise SyntaxError('EOL while scanning string literal')
        if not fork(ch_in(e, tm.ASCII)):
            raise SyntaxError('bytes can only contain ASCII literal characters')
        if fork(ch_eq(e, 0)):
            raise ValueError('source code string cannot contain null bytes')
        i += 1
        if not fork(ch_eq(e, 92)):
            out.append(e)
            continue
        e = c[i]
        i += 1
        for k, v in _SIMPLE.items():
            if fork(ch_eq(e, k)):
                out.append(v)
                break
        else:
            if fork(ch_eq(e, 120)):
                ds = c[i:i + 2]
                if len(ds) < 2 or not all(fork(ch_in(d, HEXD)) for d in ds):
                    raise ValueError('invalid \\x escape')
                v = hexnum(ds)
                if v.op != 'c':
                    v = simplify_unary(v, _fndom(v) & tm.BYTES)
                out.append(simp(v))
                i += 2
            elif fork(ch_in(e, iset([(48, 55)]))):
                raise Unsupported('octal escape in literal')
            else:
                out += [92, e]
    if i + 1 != n:
        raise SyntaxError('invalid syntax')
    return mkbytes(out)
