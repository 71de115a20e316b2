"""C11: splitting an identifier loses nothing."""
from sx import api as A
from harness import texts
from pygments.token import Token

ASSUMPTIONS = [texts.ASSUMPTION, 'word characters are those matched by \\w of the regex module']
W = 'rx:\\w'


def ident(n, dom, where):
    w = texts.sym('w', n, dom)
    num = A.bind('codeprep.parse.subtokens', 'is_number')
    A.assume(A.neg(bool(num(w))))
    seq = [(Token.Name if where == 'name' else Token.Text, w)]
    parsed = texts.parse(seq)
    A.check(len(parsed) == 1, 'one identifier gives one token')
    A.check(str(parsed[0]) == w, 'parsed identifier prints another word')
    r, m = texts.run(seq, 'nosplit')
    A.check_eq(list(r), [w], 'no-split output')
    b, m = texts.run(seq, 'basic')
    b = list(b)
    A.observe(r, b)
    if len(b) > 1:
        A.check(b[0] == '<w>' and b[-1] == '</w>', 'several parts without word boundary tokens')
        parts = b[1:-1]
        A.check(len(parts) > 1, 'word boundary tokens around a single part')
    else:
        parts = b
    for p in parts:
        A.check(len(p) > 0, 'empty part')
    A.check(''.join(parts) == w, 'parts do not concatenate to the identifier')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(n, dom=None, where='name'):
        out.append(('%s-n%d%s' % (where, n, '' if dom is None else '-' + (ascii(dom)[1:-1] if isinstance(dom, str) else 'ascii')), ident, dict(n=n, dom=dom or W, where=where),
                    dict(bounds='identifier of %d characters over %s' % (n, 'all word characters' if dom is None else ascii(dom) if isinstance(dom, str) else 'ASCII letters, digits, underscore'))))
    LONG = [('aBc_' * 18, 1, 'Z9' * 14), ('get' * 50, 1, ''), ('', 1, 'A' * 130), ('_' * 70, 2, 'x' * 70), ('aB' * 130, 1, '1_' * 9),
            ('x1' * 40 + '\xe9Y' * 40, 1, 'Qq')] + ([] if q else [('aB_' * 400, 1, 'Zz'), ('\u4e2d' * 200 + 'aB' * 99, 2, 'Zz9')])
    for i, n in enumerate(LONG):
        for where in ('name', 'text'):
            out.append(('%s-long%d' % (where, i), ident, dict(n=n, dom='aZ_9', where=where),
                        dict(bounds='identifier of %d characters, %d of them any of "aZ_9", the others fixed' % (len(n[0] + n[2]) + n[1], n[1]))))
    add(1)
    add(2)
    add(3)
    add(1, where='text')
    add(2, 'aA_1\u0130\u212a\u00df\u01c5\u4e2d', 'text')
    add(3, 'aA_1\u03f4')
    add(3, 'aZ_9')
    add(4, 'aA_1')
    add(3, [(48, 57), (65, 90), (95, 95), (97, 122)])
    add(3, 'a\u01c4\u01c5\u01c6\u0345\u00aa')
    if not q:
        add(5, 'aB_1')
        add(6, 'aB_')
        add(4)
        add(4, [(48, 57), (65, 90), (95, 95), (97, 122)])
        add(4, 'aA\u00c4\u00e4\u0130_')
    return out
