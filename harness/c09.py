"""C09: metadata describes the token list exactly."""
from sx import api as A
from harness import texts
from harness.c14 import T, MODES
from pygments.token import Token

ASSUMPTIONS = [texts.ASSUMPTION]


def data(mode):
    return texts.bpe_data([('a', 'a'), ('a', '@')]) if mode == 'bpe' else None


def options(mode, base, which):
    o = dict(base)
    for k in which:
        if k == 'str':
            w = A.choice('strings', 3)
            if w == 1:
                o['no_str'] = True
            elif w == 2:
                o['max_str_length'] = 2
        elif A.flag(k):
            o[k] = True
    return o


def full_tokens(toks, opts, mode):
    """the full tokens the parsed tokens consist of, and the type each has to have"""
    C = A.bind('codeprep.tokens.containers')
    NonEng = A.bind('codeprep.tokens.noneng', 'NonEng')
    Space = A.bind('codeprep.tokens.whitespace', 'SpaceInString')
    out = []
    for t in toks:
        whole = not isinstance(t, C.TextContainer)
        if isinstance(t, C.Comment):
            whole = bool(opts.get('no_com'))
        elif isinstance(t, C.StringLiteral):
            whole = bool(opts.get('no_str') or mode in ('chars', 'bpe') or opts.get('full_strings') or t.length > opts.get('max_str_length', 10 ** 9))
        if whole:
            out.append((t, (C.SplitContainer, NonEng) if isinstance(t, NonEng) else (type(t),), type(t)))
        else:
            for u in t.get_subtokens():
                if not (isinstance(t, C.StringLiteral) and isinstance(u, Space)):
                    out.append((u, (type(t),), type(t)))
            if isinstance(t, C.OneLineComment):
                out.append((None, (type(t),), type(t)))
    return out


def check_metadata(r, m):
    b, ty = list(m.word_boundaries), list(m.token_types)
    A.check(len(b) > 0 and b[0] == 0, 'boundaries start at 0')
    for x, y in zip(b, b[1:]):
        A.check(x < y, 'boundaries increase')
    A.check(b[-1] == len(r), 'boundaries end at the number of subtokens')
    A.check(len(ty) == len(b) - 1, 'one type per full token')


def described(shape, dom, mode, base, which, eof=False):
    seq = [(T[k], texts.sym('v%d' % i, n, dom)) for i, (k, n) in enumerate(shape)]
    opts = options(mode, base, which)
    d = data(mode)
    toks = texts.parse(seq)
    r, m = texts.represent(toks, mode, d, **opts)
    r = list(r)
    A.observe(r, list(m.word_boundaries), [t.__name__ for t in m.token_types])
    check_metadata(r, m)
    exp = []
    for t, types, own in full_tokens(toks, opts, mode):
        if t is None:
            g = texts.mark(['<EOL>'], mode)
        else:
            g, gm = texts.represent([t], mode, d, **opts)
            g = list(g)
            A.check_eq(list(gm.word_boundaries), [0, len(g)] if g else [0], 'boundaries of a single token')
        if g:
            exp.append((g, types))
    gr = texts.groups(r, m)
    A.check(len(gr) == len(exp), 'number of full tokens')
    for g, ty, (e, types) in zip(gr, m.token_types, exp):
        A.check_eq(g, e, 'subtokens of a full token')
        A.check(ty in types, 'type of a full token')
    for x in list(m.nonprocessable_tokens):
        A.check(A.disj(*[A.disj(s == x, s == x + '</t>') for s in r]), 'unsplittable token does not occur in the output')


def merged(na, nb):
    """joining the metadata of two token lists describes the joined list"""
    Meta = A.bind('codeprep.preprocess.metadata', 'PreprocessingMetadata')

    class X(object):
        pass

    class Y(object):
        pass
    out = []
    for name, n in (('a', na), ('b', nb)):
        b = [0]
        for i in range(n):
            b.append(b[-1] + A.integer('%s%d' % (name, i), 1, 1000))
        ty = [X if A.flag('%st%d' % (name, i)) else Y for i in range(n)]
        s = set(A.string('%ss%d' % (name, i), 1) for i in range(A.choice(name + 's', 2)))
        out.append((b, ty, s))
    (ba, ta, sa), (bb, tb, sb) = out
    m1 = Meta(set(sa), list(ba), list(ta))
    m2 = Meta(set(sb), list(bb), list(tb))
    m = m1.update(m2)
    A.check_eq(list(m.word_boundaries), ba + [ba[-1] + x for x in bb[1:]], 'boundaries of the joined list')
    A.check(list(m.token_types) == ta + tb, 'types of the joined list')
    A.check(len(m.nonprocessable_tokens) == len(sa | sb), 'unsplittable tokens')
    for x in list(sa) + list(sb):
        A.check(x in m.nonprocessable_tokens, 'unsplittable token lost')
    A.check_eq(list(m2.word_boundaries), bb, 'second operand changed')
    A.check(list(m2.token_types) == tb, 'second operand changed')
    # again: nothing is shared with the operands
    m.update(Meta(set(), [0, 1], [X]))
    A.check_eq(list(m2.word_boundaries), bb, 'second operand changed later')
    A.check(list(m2.token_types) == tb, 'second operand changed later')


ALL = ['no_com', 'str', 'no_spaces', 'no_unicode']


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(mode, base, sh, dom, which):
        nm = mode + ''.join('-' + k for k in base)
        out.append(('%s-%s%s' % (nm, texts.label(sh), '' if dom else '-all'), described,
                    dict(shape=sh, dom=dom, mode=mode, base=base, which=which),
                    dict(bounds='%s %s: lexer tokens %s (kind, characters) over %s; all combinations of %s' % (mode, base, texts.shown(sh), ascii(dom) if dom else 'all of Unicode', which))))
    for mode, base in MODES:
        su = ['str', 'no_unicode'] if not base.get('no_unicode') else ['str']
        add(mode, base, [('str', 3)], 'a\n ' if q else 'a\u00e9\n "', su + ['no_spaces'])
        add(mode, base, [('com', 2), ('text', 1)], 'a\u00e9\n ', ['no_com', 'no_spaces', 'no_unicode'])
        add(mode, base, [('block', 2)], 'a1\t ', ['no_com', 'no_spaces'])
        add(mode, base, [('name', 3)], 'aA_\u00e9', ['no_unicode'])
        add(mode, base, [('name', 1), ('str', 2), ('com', 1)], 'a ', ALL)
        add(mode, base, [('op', 1), ('kw', 1), ('num', 2)], 'a ;', ['no_spaces'])
        add(mode, base, [('text', 2)], None, ['no_unicode'])
        for sh in texts.LONG + ([] if q else texts.LONGER):
            add(mode, base, sh, 'a ' if q else 'aA\n\xe9', (['str', 'no_com'] if len(sh) < 3 else []) if q else ALL)
        if not q:
            for k in ('str', 'com', 'block', 'num', 'kw', 'op', 'name'):
                add(mode, base, [(k, 2)], None, ALL)
                add(mode, base, [(k, 3)], 'aA1\u00e9\n ', ALL)
            add(mode, base, [('com', 2), ('str', 2), ('name', 1)], 'a \n\u00e9', ALL)
            add(mode, base, [('str', 3), ('text', 2)], 'a \n\u00e9', ALL)
    for na, nb in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (3, 1), (1, 3)]:
        out.append(('merged-%d-%d' % (na, nb), merged, dict(na=na, nb=nb), dict(bounds='metadata of %d and %d full tokens joined, any lengths up to 1000' % (na, nb))))
    return out
