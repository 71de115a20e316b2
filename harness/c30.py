"""C30: whatever the lexer reports is converted completely."""
from sx import api as A
from harness import texts
from pygments.token import Token

ASSUMPTIONS = [texts.ASSUMPTION, 'visible characters are those that are not white space (str.isspace)']


def visible(s):
    """the characters of s that are not white space"""
    out = []
    for c in s:
        if not A.decide(c.isspace()):
            out.append(c)
    return ''.join(out)


def inner(tokens):
    containers = A.bind('codeprep.tokens.containers')
    r = []
    for t in tokens:
        if isinstance(t, containers.TextContainer):
            r += inner(t.get_subtokens())
        else:
            r.append(t)
    return r


def kind_ok(typ, value, toks):
    """the parsed tokens are of the kind the lexer token type asks for"""
    C = A.bind('codeprep.tokens.containers')
    W = A.bind('codeprep.tokens.word')
    WS = A.bind('codeprep.tokens.whitespace')
    Num = A.bind('codeprep.tokens.numeric', 'Number')
    NonEng = A.bind('codeprep.tokens.noneng', 'NonEng')
    if A.decide(value == '\n'):
        return len(toks) == 1 and type(toks[0]) is WS.NewLine
    if A.decide(value == '\t'):
        return len(toks) == 1 and type(toks[0]) is WS.Tab
    if A.decide(visible(value) == '') and all(type(t) is WS.Tab for t in toks):
        return True
    if typ is Token.Comment.Single:
        return len(toks) == 1 and type(toks[0]) is C.OneLineComment
    if typ in Token.Comment:
        return len(toks) == 1 and type(toks[0]) is C.MultilineComment
    if typ in Token.Literal.String:
        return len(toks) == 1 and type(toks[0]) is C.StringLiteral
    if typ in Token.Literal.Number:
        return all(isinstance(t, Num) for t in toks)
    if typ in Token.Keyword:
        return all(type(t) is W.KeyWord for t in toks)
    if typ is Token.Operator or typ in Token.Punctuation:
        return all(isinstance(t, W.Operator) for t in toks)
    if typ in Token.Name:
        if A.decide(A.all_chars(value, 'rx:\\w')):
            return len(toks) == 1 and isinstance(toks[0], (C.SplitContainer, NonEng, Num))
    return all(isinstance(t, (C.SplitContainer, NonEng, Num, W.NonCodeChar, WS.Tab, WS.NewLine)) for t in toks)


def one(n, dom, kinds):
    typ = A.pick('type', kinds)
    v = texts.sym('v', n, dom)
    toks = texts.parse([(typ, v)])
    flat = inner(toks)
    exp = v.lower() if typ in Token.Literal.Number else v
    got = ''.join([str(t) for t in flat])
    A.observe(got, [type(t).__name__ for t in toks])
    Num = A.bind('codeprep.tokens.numeric', 'Number')
    if any(isinstance(t, Num) for t in flat) and typ not in Token.Literal.Number:
        A.check(visible(got).lower() == visible(exp).lower(), 'visible characters (up to letter case)')
    else:
        A.check(visible(got) == visible(exp), 'visible characters')
    A.check(kind_ok(typ, v, toks), 'kind of parsed token')
    for t in toks:
        r, m = texts.represent([t], 'nosplit')
        for x in r:
            A.check(A.all_chars(x, [(0, 31), (33, 0x10FFFF)]), 'a plain space is printed')


def sequence(ns, dom, kinds):
    """the parsed tokens of a sequence are those of its lexer tokens, in order"""
    seq = [(A.pick('type%d' % i, kinds), texts.sym('v%d' % i, n, dom)) for i, n in enumerate(ns)]
    got = texts.parse(seq)
    exp = []
    for s in seq:
        exp += texts.parse([s])
    A.observe([str(t) for t in got])
    A.check(len(got) == len(exp), 'number of tokens')
    for a, b in zip(got, exp):
        A.check(type(a) is type(b), 'kinds of tokens')
        A.check_eq([str(x) for x in inner([a])], [str(x) for x in inner([b])], 'tokens')


def jobs(tier):
    q = tier == 'quick'
    out = []
    K = texts.KINDS

    def add(name, n, dom, kinds):
        out.append(('one-%s-n%d' % (name, n), one, dict(n=n, dom=dom, kinds=kinds),
                    dict(bounds='one lexer token of %d characters over %s, token types %s' % (
                        n, 'all of Unicode' if dom is None else ascii(dom), ' '.join(str(k)[6:] or 'Token' for k in kinds)))))
    LONG = [('ab c' * 40, 1, ' x' * 30), (' ' * 67, 1, ' ' * 66), ('a' + '    ' * 20, 1, '\n' * 30 + '\t' * 9), ('x=1;' * 60, 1, '"' * 9),
            ('\xe9' * 90 + ' 0x1F ' * 20, 1, '\u4e2d' * 60), ('+' * 40 + '  <= ' * 20, 1, '=' * 70)]
    for j, n in enumerate(LONG):
        for i in range(0, len(K), 7):
            out.append(('one-long%d-%d' % (j, i), one, dict(n=n, dom=' a1\n=', kinds=K[i:i + 7]),
                        dict(bounds='one lexer token of %d fixed characters and one of " a1\\n=", 7 token types' % len(n[0] + n[2]))))
    for k, ns in enumerate([('x',) * 60 + (1,) + ('\n', '+', ' ') * 9, tuple('t%d' % i for i in range(130)) + (1,), ((' ' * 70, 1, 'q'), 1)]):
        out.append(('sequence-long%d' % k, sequence, dict(ns=ns, dom=' a1\n;', kinds=[Token.Text, Token.Literal.String] if k == 2 else
                                                          [Token.Name]),
                    dict(bounds='%d lexer tokens, fixed but for one or two characters over " a1\\n;"' % len(ns))))
    for n in (0, 1):
        add('any', n, None, K)
    for i in range(0, len(texts.SUBKINDS), 9):
        add('subtypes%d' % i, 2, ' a1\n=\xe9', texts.SUBKINDS[i:i + 9])
    for i in range(0, len(K), 5):
        add('any%d' % i, 2, None, K[i:i + 5])
    for i in range(0, len(K), 4):
        add('mixed%d' % i, 3, ' a1\n\u00e9=', K[i:i + 4])
    for k in (Token.Text, Token.Keyword, Token.Literal.String, Token.Comment.Single):
        add('spaces-%s' % str(k)[6:], 6, ' a\t', [k])
    for k in (Token.Operator, Token.Punctuation, Token.Literal.Number, Token.Keyword.Namespace):
        add('spaces-%s' % str(k)[6:], 4, ' a;1', [k])
    S = [Token.Text, Token.Name, Token.Literal.String, Token.Comment.Single, Token.Keyword, Token.Literal.Number, Token.Operator]
    for ns in [(), (1, 1), (0, 2)] + ([] if q else [(2, 2), (1, 1, 1)]):
        out.append(('sequence-%s' % (ns,), sequence, dict(ns=ns, dom=' a1\n;', kinds=S), dict(bounds='sequences of lexer tokens of %s characters' % (ns,))))
    if not q:
        for i in range(0, len(K), 3):
            add('any%d' % i, 3, None, K[i:i + 3])
        for i in range(0, len(K), 4):
            add('mixed%d' % i, 4, ' a1A\n\u00e9=_', K[i:i + 4])
    return out
