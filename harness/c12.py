"""C12: lowercasing keeps the case information."""
from sx import api as A
from harness import texts
from pygments.token import Token

ASSUMPTIONS = [texts.ASSUMPTION]
UP = [(65, 90)]
LO = [(97, 122)]
ALPHA = [(65, 90), (97, 122)]
ASCII = [(48, 57), (65, 90), (95, 95), (97, 122)]


def strip_bounds(b):
    if len(b) > 2 and A.decide(A.conj(b[0] == '<w>', b[-1] == '</w>')):
        return b[1:-1], True
    return b, False


def marked(part):
    """what the part of an identifier has to be in the output"""
    low = part.lower()
    if A.decide(A.char_in(part[0], UP)):
        if A.decide(A.all_chars(part, UP)):
            return ['<CAPS>', low]
        if A.decide(A.all_chars(part[1:], LO)):
            return ['<Cap>', low]
        A.fail('a part mixes cases: not only its first letter is upper case, and not all')
    return [low]


def rebuild(toks):
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t == '<Cap>':
            i += 1
            out.append(toks[i][0].upper() + toks[i][1:])
        elif t == '<CAPS>':
            i += 1
            out.append(toks[i].upper())
        else:
            out.append(t)
        i += 1
    return ''.join(out)


WHERE = {'name': Token.Name, 'comment': Token.Comment.Single, 'string': Token.Literal.String, 'text': Token.Text}


def ident(n, dom, where, opts):
    w = texts.sym('w', n, dom)
    num = A.bind('codeprep.parse.subtokens', 'is_number')
    A.assume(A.neg(bool(num(w))))
    seq = [(WHERE[where], w)]
    plain, m = texts.run(seq, 'basic', **opts)
    low, m2 = texts.run(seq, 'basic', no_case=True, **opts)
    plain, low = list(plain), list(low)
    if where == 'comment':
        A.check(plain[-1] == '<EOL>' and low[-1] == '<EOL>', 'end of comment')
        plain, low = plain[:-1], low[:-1]
    A.observe(plain, low)
    parts, wrapped = strip_bounds(plain)
    got, wrapped2 = strip_bounds(low)
    A.check(wrapped == wrapped2, 'word boundary tokens')
    A.check(wrapped == (len(parts) > 1), 'word boundary tokens')
    exp = []
    for p in parts:
        exp += marked(p)
    A.check_eq(got, exp, 'lowercased parts with their markers')
    A.check(rebuild(got) == w, 'the identifier cannot be rebuilt')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(n, dom=None, where='name', **opts):
        out.append(('%s-n%d%s%s' % (where, n, '' if dom is None else '-' + dom, ''.join('-' + k for k in opts)), ident,
                    dict(n=n, dom=dom or ASCII, where=where, opts=opts),
                    dict(bounds='identifier of %d characters over %s, in %s, options %s' % (n, dom or 'ASCII letters, digits and underscore', where, opts))))
    LONG = [('aBc_' * 18, 1, 'Z9' * 14), ('Get' * 50, 1, 'er'), ('HTTP' * 20, 2, '_SERVER' * 12), ('a' * 80 + 'Ba' * 60, 1, 'Qq' * 40),
            ('Value' * 9, 2, 'x' * 150), ('A' * 300, 1, '')] + ([] if q else [('aB_' * 400, 1, 'Zz'), ('Ab' * 300, 2, 'X' * 99)])
    for i, n in enumerate(LONG):
        for where in WHERE:
            out.append(('%s-long%d' % (where, i), ident, dict(n=n, dom='aZ_9', where=where, opts={}),
                        dict(bounds='identifier of %d characters, %d of them any of "aZ_9", the others fixed, in %s' % (
                            len(n[0] + n[2]) + n[1], n[1], where))))
    for n in (1, 2, 3, 4):
        add(n)
    for wh in ('comment', 'string', 'text'):
        add(3, where=wh)
    add(5, 'aA_1')
    add(3, split_numbers=True, no_spaces=True)
    add(3, no_unicode=True, no_com=True, no_str=True)
    if not q:
        add(5)
        add(6, 'aB_1')
        add(7, 'aB')
        add(4, where='text')
        add(4, split_numbers=True)
    return out
