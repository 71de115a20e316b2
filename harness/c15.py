"""C15: no_spaces and no_unicode guarantees."""
from sx import api as A
from harness import texts
from harness.c14 import T, MODES
from pygments.token import Token

ASSUMPTIONS = [texts.ASSUMPTION, 'a word is a maximal run of word characters (\\w); operators, keywords and single other characters are not words']
ASC = [(0, 127)]


def data(mode):
    return texts.bpe_data([('a', 'a'), ('\xf7', 'a'), ('a', '@')]) if mode == 'bpe' else None


def spaces(shape, dom, mode, base):
    seq = [(T[k], texts.sym('v%d' % i, n, dom)) for i, (k, n) in enumerate(shape)] + [(Token.Keyword, 'kw')]
    r, m = texts.run(seq, mode, data(mode), **base)
    r2, m2 = texts.run(seq, mode, data(mode), no_spaces=True, **base)
    exp = []
    for g in texts.groups(r, m):
        if not (len(g) == 1 and A.decide(A.disj(*[g[0] == x for x in ('\n', '\t', '\n</t>', '\t</t>')]))):
            exp += g
    A.observe(list(r), list(r2))
    A.check_eq(list(r2), exp, 'output with no_spaces')
    for g in texts.groups(r2, m2):
        if len(g) == 1:
            A.check(A.conj(*[A.neg(g[0] == x) for x in ('\n', '\t', '\n</t>', '\t</t>')]), 'tab or newline token in the output')


def replaced(s, keep=''):
    """maximal runs of non-ASCII characters (but those of keep) become one replacement character"""
    out = []
    run = False
    for c in s:
        if A.decide(A.disj(A.char_in(c, ASC), *[c == k for k in keep])):
            run = False
            out.append(c)
        else:
            if not run:
                out.append('\xf7')
            run = True
    return ''.join(out)


def words(shape, dom, mode, base):
    C = A.bind('codeprep.tokens.containers')
    NonEng = A.bind('codeprep.tokens.noneng', 'NonEng')
    Space = A.bind('codeprep.tokens.whitespace', 'SpaceInString')
    get = A.bind('codeprep.bpepkg.bpe_encode', 'get_bpe_subwords')
    bpe = mode in ('chars', 'bpe')
    d = data(mode) or texts.bpe_data()
    seq = [(T[k], texts.sym('v%d' % i, n, dom)) for i, (k, n) in enumerate(shape)] + [(Token.Keyword, 'kw')]

    def leaf(t):
        s = str(t)
        plain = list(texts.represent([t], mode, d, **base)[0])
        if isinstance(t, (C.SplitContainer, NonEng)) and not A.decide(A.all_chars(s, ASC)):
            if bpe:
                return texts.mark(list(get(replaced(s), d)), mode)
            return ['<non-en>']
        return plain

    exp = []
    for x in seq:
        for t in texts.parse([x]):
            if isinstance(t, C.StringLiteral) and (bpe or base.get('full_strings')):
                s = replaced(''.join([str(u) for u in t.get_subtokens()]), keep='\xa0')
                exp += texts.mark(list(get(s, d)), mode) if bpe else [s]
            elif isinstance(t, C.TextContainer):
                for u in t.get_subtokens():
                    if not (isinstance(t, C.StringLiteral) and isinstance(u, Space)):
                        exp += leaf(u)
                if isinstance(t, C.OneLineComment):
                    exp += texts.mark(['<EOL>'], mode)
            else:
                exp += leaf(t)
    r = list(texts.run(seq, mode, d, no_unicode=True, **base)[0])
    A.observe(r)
    A.check_eq(r, exp, 'output with no_unicode')


def ascii_runs(n, dom):
    rep = A.bind('codeprep.noneng', 'replace_non_ascii_seqs')
    w = A.string('w', n, dom)
    c = A.string('c', 1)
    r = rep(w, c)
    A.observe(r)
    exp = []
    for x in replaced(w):
        exp.append(x)
    # the replacement characters of the oracle become c
    out = ''
    run = False
    for x in w:
        if A.decide(A.char_in(x, ASC)):
            run = False
            out = out + x
        else:
            if not run:
                out = out + c
            run = True
    A.check(r == out, 'runs of non-ASCII characters')
    A.check(A.raises(ValueError, rep, w, A.string('d', 2)), 'long replacement accepted')
    A.check(A.raises(ValueError, rep, w, ''), 'empty replacement accepted')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(kind, f, mode, base, sh, dom):
        out.append(('%s-%s%s-%s%s' % (kind, mode, ''.join('-' + k for k in base), texts.label(sh), '' if dom else '-all'), f,
                    dict(shape=sh, dom=dom, mode=mode, base=base),
                    dict(bounds='%s %s: lexer tokens %s (kind, characters) over %s' % (mode, base, texts.shown(sh), ascii(dom) if dom else 'all of Unicode'))))
    for mode, base in MODES:
        for k in ('text', 'com', 'str', 'block'):
            add('spaces', spaces, mode, base, [(k, 3)], 'a \t\n')
        add('spaces', spaces, mode, base, [('text', 1), ('name', 1), ('text', 1)], ' a\t\n')
        add('spaces', spaces, mode, base, [('text', 6)], ' \n')
        for k in ('name', 'com', 'str', 'block'):
            add('words', words, mode, base, [(k, 3)], 'aA\u00e9 ')
        add('words', words, mode, base, [('name', 2)], None)
        add('words', words, mode, base, [('str', 2)], None)
        add('words', words, mode, base, [('name', 1), ('op', 1), ('kw', 1), ('num', 1), ('text', 1)], 'a\u00e9')
        for sh in texts.LONG + ([] if q else texts.LONGER):
            add('spaces', spaces, mode, base, sh, 'a\n' if len(sh) < 3 else 'a ')
            add('words', words, mode, base, sh, 'a\xe9')
        add('words', words, mode, base, [('name', ('\xe9' * 40 + 'ab' * 30, 1, '\u4e2d' * 40)), ('str', ('"' + '\xfc ' * 40, 1, '\xe9' * 30 + '"'))],
            'a\xe9')
        for n in (120, 270) if q else (120, 270, 600, 1100):
            add('words', words, mode, base, [('name', ('a' * n, 1, 'b' * 20)), ('com', ('// ' + 'A' * n, 1, ' x'))], 'a\xe9')
        if not q:
            for k in ('text', 'com', 'str', 'block', 'name', 'kw', 'op', 'num'):
                add('spaces', spaces, mode, base, [(k, 2)], None)
                add('spaces', spaces, mode, base, [(k, 4)], 'aB \t\n')
            for k in ('name', 'com', 'str', 'block', 'text', 'kw', 'op', 'num'):
                add('words', words, mode, base, [(k, 4)], 'aA\u00e9 1\u4e2d')
                if (k, 2) not in (('name', 2), ('str', 2)):
                    add('words', words, mode, base, [(k, 2)], None)
            for k in ('name', 'str'):
                add('words', words, mode, base, [(k, 3)], None)
            add('words', words, mode, base, [('str', 4)], 'a\u00e9 \xa0\xf7/')
    for n in (0, 1, 2, 3) + (() if q else (4, 5, 6)):
        out.append(('replace-n%d' % n, ascii_runs, dict(n=n, dom=None), dict(bounds='replacement in words of %d characters over all of Unicode' % n)))
    return out
