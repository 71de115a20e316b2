"""C29: numbers are recognised by one grammar and split without loss."""
from sx import api as A
from harness import texts
from pygments.token import Token

ASSUMPTIONS = [texts.ASSUMPTION, 'oracle: the grammar of the property, written as a hand-made recogniser']


def _in(c, dom):
    return A.decide(A.char_in(c, dom))


def _digits(s, i, dom):
    """end of the longest run of characters of dom from i"""
    while i < len(s) and _in(s[i], dom):
        i += 1
    return i


def _grouped(s, dom):
    """digits with single underscores between groups"""
    if len(s) == 0:
        return False
    i = 0
    while True:
        j = _digits(s, i, dom)
        if j == i:
            return False
        if j == len(s):
            return True
        if not A.decide(s[j] == '_'):
            return False
        i = j + 1


def _exp_suffix(s, i, need_exp):
    """optional exponent and float suffix from i to the end"""
    had = False
    if i < len(s) and _in(s[i], 'eE'):
        j = i + 1
        if j < len(s) and _in(s[j], '+-'):
            j += 1
        k = _digits(s, j, '0123456789')
        if k > j:
            i = k
            had = True
    if need_exp and not had:
        return False
    if i < len(s) and _in(s[i], 'fFdD'):
        i += 1
    return i == len(s)


def ref(s):
    D = '0123456789'
    n = len(s)
    for prefix, dom in (('x', '0123456789abcdefABCDEF'), ('b', '01')):
        if n > 2 and A.decide(A.conj(s[0] == '0', s[1] == prefix)):
            if _grouped(s[2:], dom):
                return True
            if _in(s[n - 1], 'lL') and _grouped(s[2:n - 1], dom):
                return True
    if _grouped(s, D):
        return True
    if n > 1 and _in(s[n - 1], 'lLfFdD') and _grouped(s[:n - 1], D):
        return True
    i = _digits(s, 0, D)
    if i < n and A.decide(s[i] == '.'):
        j = _digits(s, i + 1, D)
        if i == 0 and j == i + 1:
            return False
        return _exp_suffix(s, j, False)
    if i > 0:
        return _exp_suffix(s, i, True)
    return False


def grammar(n, dom):
    isn = A.bind('codeprep.parse.subtokens', 'is_number')
    w = texts.sym('w', n, dom)
    r = bool(isn(w))
    A.observe(r)
    A.check(r == ref(w), 'number grammar')


def as_token(n, dom):
    """in text, a word is parsed as a number exactly when it is one"""
    Number = A.bind('codeprep.tokens.numeric', 'Number')
    w = texts.sym('w', n, dom)
    toks = texts.parse([(Token.Text, w)])
    if A.decide(A.all_chars(w, 'rx:\\w')):
        A.check(len(toks) == 1, 'one word, one token')
        A.check(isinstance(toks[0], Number) == ref(w), 'parsed as a number')


def split(n, dom, where):
    w = texts.sym('w', n, dom)
    A.assume(ref(w))
    Number = A.bind('codeprep.tokens.numeric', 'Number')
    if where == 'parsed':
        toks = [Number(w)]
    else:
        toks = texts.parse([(Token.Literal.Number if where == 'lexer' else Token.Text, w)])
    low = w.lower()
    r, m = texts.represent(toks, 'basic', split_numbers=True)
    r = list(r)
    A.observe(r)
    if len(w) == 1:
        A.check_eq(r, [low], 'single digit')
    else:
        A.check_eq(r, ['<w>'] + [c for c in low] + ['</w>'], 'digits of a number')
    r, m = texts.represent(toks, 'basic')
    A.check_eq(list(r), [low], 'unsplit number')
    r, m = texts.represent(toks, 'chars')
    A.check(''.join(r) == low + '</t>', 'characters of a number')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(kind, f, n, dom=None, **k):
        out.append(('%s-n%d%s' % (kind, n, '' if dom is None else '-' + dom), f, dict(n=n, dom=dom, **k),
                    dict(bounds='%s, words of %d characters over %s' % (kind, n, 'all of Unicode' if dom is None else dom))))
    N = '09_.eExXbBlLfFdDaAgG+-'
    LONG = [('1234567890' * 7, 2, ''), ('0x' + 'aF' * 40, 1, 'c' * 30 + 'L'), ('0b' + '10' * 40, 2, ''), ('1_' * 45, 2, '9'), ('.' + '12' * 50, 2, ''),
            ('9' * 60, 2, '8' * 60), ('3.' + '1' * 70, 1, '5' * 64), ('', 2, '7' * 140), ('5' * 64 + 'e', 2, '3' * 40 + 'f')]
    for i, n in enumerate(LONG):
        b = dict(bounds='words of %d fixed characters and %d over "0_.eExL+af"' % (len(n[0] + n[2]), n[1]))
        out.append(('grammar-long%d' % i, grammar, dict(n=n, dom='0_.eExL+af'), b))
        if '.' not in n[0] + n[2]:
            out.append(('token-long%d' % i, as_token, dict(n=n, dom='0_.eExL+af'), b))
        out.append(('split-lexer-long%d' % i, split, dict(n=n, dom='0_.eExL+af', where='lexer'), b))
    for n in (0, 1, 2, 3) + (() if q else (4, 5)):
        add('grammar', grammar, n)
    add('grammar', grammar, 4, N)
    add('grammar', grammar, 5, '01_.eE+xbLf')
    add('grammar', grammar, 6, '0_.eLx')
    add('grammar', grammar, 7, '0_xL')
    add('grammar', grammar, 8, '0_b.' if q else '01_bl')
    if not q:
        add('grammar', grammar, 6, N)
        add('grammar', grammar, 7, '09_.eE+-xbLfa')
        add('grammar', grammar, 8, '0_.e+L')
    for n in (1, 2) + (() if q else (3,)):
        add('token', as_token, n)
    add('token', as_token, 3, '0_aLxFe')
    for n in (1, 2, 3) + (() if q else (4, 5)):
        add('split', split, n, where='parsed')
    add('split-lexer', split, 4, N, where='lexer')
    for n in (1, 2):
        add('split-text', split, n, '019lLfFdDaA', where='text')
    add('split-text', split, 4, '01_xbXBaFL', where='text')
    return out
