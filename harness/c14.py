"""C14: comment and string options change only comments and strings."""
from sx import api as A
from harness import texts
from pygments.token import Token

ASSUMPTIONS = [texts.ASSUMPTION, 'limits below 2 count as 2, limits of 62 and more as no limit (documented encoding of the configuration)']
COMMENTS = (Token.Comment.Single, Token.Comment.Multiline, Token.Comment)
T = {'com': Token.Comment.Single, 'block': Token.Comment.Multiline, 'str': Token.Literal.String, 'name': Token.Name,
     'num': Token.Literal.Number, 'op': Token.Operator, 'kw': Token.Keyword, 'text': Token.Text, 'str2': Token.Literal.String.Double}
MODES = [('nosplit', {}), ('nosplit', {'full_strings': True}), ('basic', {}), ('basic', {'split_numbers': True}),
         ('basic', {'no_case': True}), ('chars', {}), ('bpe', {})]


def data(mode):
    return texts.bpe_data([('a', 'a'), ('"', 'a')]) if mode == 'bpe' else None


def mark(toks, mode):
    if mode in ('chars', 'bpe') and toks:
        return toks[:-1] + [toks[-1] + '</t>']
    return toks


def is_comment(toks):
    C = A.bind('codeprep.tokens.containers')
    return len(toks) == 1 and isinstance(toks[0], C.Comment)


def is_string(toks):
    C = A.bind('codeprep.tokens.containers')
    return len(toks) == 1 and isinstance(toks[0], C.StringLiteral)


def expect(seq, mode, base, no_com, no_str, limit):
    """what the output has to be, from the outputs of the single tokens without the options"""
    out = []
    for typ, v in seq:
        toks = texts.parse([(typ, v)])
        plain = list(texts.represent(toks, mode, data(mode), **base)[0])
        if is_comment(toks) and no_com:
            out += mark(['<comment>'], mode)
        elif is_string(toks) and no_str:
            out += mark(['<str-literal>'], mode)
        elif is_string(toks) and limit is not None and limit < 62 and len(v) > max(limit, 2):
            out += mark(['""'] if base.get('full_strings') else ['"', '"'], mode)
        else:
            out += plain
    return out


def actual(seq, mode, base, **opts):
    k = dict(base)
    k.update(opts)
    return list(texts.run(seq + [(Token.Keyword, 'kw')], mode, data(mode), **k)[0])


def sequence(shape, dom, mode, base):
    seq = [(T[k], texts.sym('v%d' % i, n, dom)) for i, (k, n) in enumerate(shape)]
    no_com, what = A.flag('no_com'), A.choice('strings', 3)
    opts = {}
    if no_com:
        opts['no_com'] = True
    if what == 1:
        opts['no_str'] = True
    limit = None
    if what == 2:
        limit = opts['max_str_length'] = A.pick('limit', [2, 3, 4])
    r = actual(seq, mode, base, **opts)
    A.observe(r)
    A.check_eq(r, expect(seq + [(Token.Keyword, 'kw')], mode, base, no_com, what == 1, limit), 'output with the options')


def limits(mode, base, lo, hi):
    limit = lo + A.choice('limit', hi - lo + 1)
    d = A.choice('more', 4) - 1
    n = max(limit + d, 1)
    c = A.string('c', 1, 'a"\u00e9')
    v = c + 'b' * (n - 1)
    seq = [(T['name'], 'x'), (T['str'], v), (T['com'], v)]
    no_str = False
    r = actual(seq, mode, base, max_str_length=limit)
    A.observe(r)
    A.check_eq(r, expect(seq + [(Token.Keyword, 'kw')], mode, base, False, False, limit), 'string limit %d, literal of %d characters' % (limit, n))


def both(mode, base):
    """no_str wins over a limit"""
    limit = A.pick('limit', [0, 1, 2, 3, 61, 62, 1000])
    v = A.string('v', 3, 'a"')
    r = actual([(T['str'], v)], mode, base, max_str_length=limit, no_str=True)
    A.check_eq(r, expect([(T['str'], v), (Token.Keyword, 'kw')], mode, base, False, True, None), 'no_str with a limit')


def jobs(tier):
    q = tier == 'quick'
    out = []
    shapes = [[('com', 1), ('str', 3)], [('str', 3), ('name', 1)], [('text', 2), ('block', 1)], [('num', 1), ('str2', 2), ('op', 1)]]
    if not q:
        shapes += [[('com', 2), ('str', 3)], [('str', 3), ('name', 2)], [('str', 4)], [('str', 2), ('com', 2), ('str', 3)], [('str', 5)], [('com', 3), ('kw', 2), ('block', 1)], [('name', 3), ('str', 3)]]
    for i, (mode, base) in enumerate(MODES):
        nm = mode + ''.join('-' + k for k in base)
        for sh in shapes:
            t = texts.label(sh)
            D = {'nosplit': '\u00e9 ', 'basic': 'a1 ' if base.get('split_numbers') else 'aB ', 'chars': 'a ', 'bpe': 'a "'}[mode] if q else 'aA\u00e9 "\n' if len(sh) < 3 else 'a\u00e9 "'
            out.append(('%s-%s' % (nm, t), sequence, dict(shape=sh, dom=D, mode=mode, base=base),
                        dict(bounds='%s %s: lexer tokens %s (kind, characters) over %s; all combinations of no_com and no_str / limit 2..4' % (mode, base, texts.shown(sh), ascii(D)))))
        for sh in texts.LONG + ([] if q else texts.LONGER):
            if len(sh) < 100 or not q:
                out.append(('%s-%s' % (nm, texts.label(sh)), sequence, dict(shape=sh, dom='a ', mode=mode, base=base),
                            dict(bounds='%s %s: lexer tokens %s (kind, characters) over "a "; all combinations of no_com and no_str / '
                                        'limit 2..4' % (mode, base, texts.shown(sh)))))
        out.append(('%s-line_breaks' % nm, sequence, dict(shape=[('str', 4), ('com', 2)], dom='a\n', mode=mode, base=base),
                    dict(bounds='%s %s: strings and comments with line breaks' % (mode, base))))
        out.append(('limits-%s-long' % nm, limits, dict(mode=mode, base=base, lo=200, hi=203),
                    dict(bounds='%s %s: limits 200..203, literals one shorter to two longer than the limit' % (mode, base))))
        for lo, hi in ((0, 34), (35, 70)):
            out.append(('limits-%s-%d' % (nm, lo), limits, dict(mode=mode, base=base, lo=lo, hi=hi),
                        dict(bounds='%s %s: limits %d..%d, literals one shorter to two longer than the limit' % (mode, base, lo, hi))))
        out.append(('both-%s' % nm, both, dict(mode=mode, base=base), dict(bounds='no_str together with a limit, literals of 3 characters')))
    return out
