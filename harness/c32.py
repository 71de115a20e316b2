"""C32: source files are read completely and in the right encoding."""
import pygments
import pygments.lexers
from pygments.token import Token
from pygments.util import ClassNotFound

from sx import api as A
from sx import patching
from harness import vfs, texts

ASSUMPTIONS = ['the Pygments lexer is replaced by one that reports the text it was given as one token and records its name']
KNOWN = ['java', 'py', 'c', 'js', 'xml+php']
SEEN = []


class _Lexer(object):
    def __init__(self, name):
        self.name = name


def _by_name(name, **k):
    for x in KNOWN:
        if len(x) == len(name) and A.decide(x == name):
            return _Lexer(x)
    raise ClassNotFound('no lexer for alias found')


def _guess(text, **k):
    return _Lexer('guessed')


def _lex(text, lexer, formatter=None):
    SEEN.append((text, lexer.name))
    return iter([(Token.Keyword, text)] if len(text) else [])


def _stub():
    del SEEN[:]
    patching.patch('codeprep', [(pygments.lex, _lex), (pygments.lexers.get_lexer_by_name, _by_name), (pygments.lexers.guess_lexer, _guess)], {})


def _utf8(b):
    """code points, or None if this is not valid UTF-8"""
    out = []
    i = 0
    n = len(b)
    while i < n:
        c = b[i]
        if A.decide(c < 0x80):
            out.append(c)
            i += 1
            continue
        for k, lo, hi, least in ((2, 0xc2, 0xdf, 0x80), (3, 0xe0, 0xef, 0x800), (4, 0xf0, 0xf4, 0x10000)):
            if A.decide(A.conj(c >= lo, c <= hi)):
                break
        else:
            return None
        if i + k > n:
            return None
        v = c - {2: 0xc0, 3: 0xe0, 4: 0xf0}[k]
        for d in [b[j] for j in range(i + 1, i + k)]:
            if not A.decide(A.conj(d >= 0x80, d <= 0xbf)):
                return None
            v = v * 64 + (d - 0x80)
        if not A.decide(A.conj(v >= least, v <= 0x10ffff)) or A.decide(A.conj(v >= 0xd800, v <= 0xdfff)):
            return None
        out.append(v)
        i += k
    return out


def _text(b):
    """the code points the file stands for"""
    cs = _utf8(b)
    if cs is None:
        cs = [b[i] for i in range(len(b))]
    out = []
    i = 0
    while i < len(cs):
        if A.decide(cs[i] == 13):
            out.append(10)
            if i + 1 < len(cs) and A.decide(cs[i + 1] == 10):
                i += 1
        else:
            out.append(cs[i])
        i += 1
    return out


def _same(s, cs, what):
    """the text consists of these code points; one line break at its end does not count"""
    want = list(cs)
    if len(want) and A.decide(want[-1] == 10) and len(s) == len(want) - 1:
        want.pop()
    A.check(len(s) == len(want), what + ': length')
    A.check(A.conj(*[ord(s[i]) == want[i] for i in range(len(want))]), what)


def read(parts, dom):
    """parts: numbers of symbolic bytes and fixed bytes"""
    fs = vfs.fresh()
    b = b''.join([A.bytestr('b%d' % i, p, dom) if isinstance(p, int) else p for i, p in enumerate(parts)])
    fs.put('/data/a.java', b)
    r = A.bind('codeprep.fileutils', 'read_file_contents')(b'/data/a.java')
    A.check(r is not None, 'the file cannot be read')
    lines, path = r
    lines = [l for l in lines]
    A.observe(lines)
    A.check_eq(path, b'/data/a.java', 'path')
    for l in lines:
        A.check(A.neg('\n' in l), 'line break in a line')
    _same('\n'.join(lines), _text(b), 'text of the file')


def parsed(n, dom, src, ndom):
    """what is converted is the text of the file, in the language its extension names"""
    f = A.bind('codeprep.pipeline.parse_projects', 'preprocess_and_write')
    fs = vfs.fresh()
    b = b'a' + A.bytestr('b', n, dom) if n else b''
    nm = b''.join([A.bytestr('n%d' % i, p, ndom) if isinstance(p, int) else p for i, p in enumerate(src)])
    if len(nm) <= 2:
        A.assume(A.conj(nm != b'.', nm != b'..'))
    path = b'/data/v1.2/' + nm
    fs.put(path, b)
    _stub()
    f((path, b'/out/x.parsed'))
    A.check(fs.exists(b'/out/x.parsed'), 'no result')
    with vfs.GzFile(b'/out/x.parsed', 'rb') as g:
        toks = g.get_object()
    A.check(len(SEEN) == 1, 'read once')
    text, lexer = SEEN[0]
    A.observe(lexer, text)
    _same(text, _text(b), 'text that is converted')
    # the extension: after the last point that is not at the beginning of the name
    k = len(nm) - 1
    while k >= 0 and not A.decide(nm[k:k + 1] == b'.'):
        k -= 1
    lead = 0
    while lead < len(nm) and A.decide(nm[lead:lead + 1] == b'.'):
        lead += 1
    ext = nm[k + 1:] if k >= lead and k > 0 else b''
    for x in KNOWN:
        if len(x) == len(ext):
            A.check(A.implies(ext == x.encode(), lexer == x), 'language of the file')
    if lexer == 'guessed':
        return
    A.check(lexer in KNOWN, 'language of the file')
    # what was saved are the tokens of this text
    _stub()
    want = [t for t in A.bind('codeprep.parse.core', 'convert_text')(text, 'java')]
    A.check([type(t) for t in toks] == [type(t) for t in want], 'tokens of the text')
    for x, y in zip(toks, want):
        A.check_eq(str(x), str(y), 'token of the text')


OFFS = [512, 1024, 2048, 4096, 8192, 65536]


def _far(offsets, second=None):
    """characters of two bytes across the given offsets, their second bytes symbolic (or as given)"""
    parts = []
    n = 0
    for o in offsets:
        parts.append((b'xyz;\n' * o)[:o - 1 - n] + b'\xc3' + (second or b''))
        if second is None:
            parts.append(1)
        n = o + 1
    return parts + [b'\n']


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    ALL = [(0, 255)]
    for n in (0, 1, 2) + ((3,) if q else (3, 4)):
        add('any-%d' % n, read, 'every file of %d bytes' % n, parts=[n], dom=ALL)
    # representatives of every class of bytes of UTF-8, and of every kind of line break
    CL = [0x0a, 0x41, 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xbf, 0xc1, 0xc3, 0xe0, 0xe2, 0xed, 0xf0, 0xf4, 0xf5]
    add('utf8-4', read, 'files of 4 bytes of all classes that UTF-8 distinguishes', parts=[4], dom=[(c, c) for c in (CL if not q else [0x41, 0x80, 0xbf, 0xe0, 0xf0, 0xf4])])
    BR = [(c, c) for c in (9, 0x0a, 0x0b, 0x0c, 0x0d, 0x1c, 0x1e, 0x20, 0x41)]
    add('breaks-4', read, 'files of 4 bytes that are letters or any kind of white space', parts=[4 if q else 5], dom=BR)
    add('breaks-crlf', read, 'files of 6 bytes over line break characters', parts=[6 if q else 8], dom=[(0x0a, 0x0a), (0x0d, 0x0d)])
    add('breaks-unicode', read, 'line separators of Unicode between other characters', parts=[b'a\xe2\x80', 1, b'b\xc2', 1, b'\n', 1], dom=[(0x80, 0xbf), (0x0a, 0x0d)])
    add('latin', read, 'ISO-8859-1 after valid UTF-8', parts=[b'\xc3\xa9\xe4\xb8\xad\r\n', 2, b'\n\n'], dom=ALL)
    add('bom', read, 'byte order marks', parts=[b'\xef\xbb\xbf', 2, b'\xff\xfe'] if q else [b'\xef\xbb\xbf', 2], dom=ALL)
    add('long', read, 'the first byte that is not UTF-8 is far behind', parts=[b'int x;\r\n' * 30, 1, b'y' * 1000, 1, b'\n'], dom=ALL)
    add('very-long', read, 'symbolic bytes around offsets 512, 1024, 4096, 8192 and 65536', parts=_far(OFFS), dom=[(0x80, 0xbf)])
    add('very-long-any', read, 'any byte after %d bytes of valid UTF-8' % OFFS[-1], parts=_far(OFFS[-1:], b'\xa9') + [1], dom=ALL)
    add('conv-bytes', parsed, 'every contents of 3 bytes', n=2 if q else 3, dom=ALL, src=[b'a.py'], ndom=None)
    add('conv-name', parsed, 'every name of 3 bytes', n=0, dom=ALL, src=[3], ndom=[(1, 46), (48, 255)])
    add('conv-ext', parsed, 'names over "jpyavc." of 4 characters', n=0, dom=ALL, src=[4 if q else 5], ndom='pyc.')
    add('conv-ext-any', parsed, 'every extension of 2 bytes', n=0, dom=ALL, src=[b'a.', 2], ndom=[(1, 46), (48, 255)])
    add('conv-ext-java', parsed, 'extensions of 4 characters over "javJ."', n=0, dom=ALL, src=[b'.x.', 4], ndom='javJ.')
    return out
