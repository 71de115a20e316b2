"""C13: tokenising text keeps every visible character in order."""
from sx import api as A
from harness import texts
from harness.c30 import inner
from pygments.token import Token

ASSUMPTIONS = [texts.ASSUMPTION]
NBSP = '\xa0'


def expected(s, in_string):
    """the text with its spaces turned into what stands for them"""
    out = []
    run = 0
    for c in s:
        if A.decide(c == ' '):
            run += 1
            if in_string:
                out.append(NBSP)
            elif run % 4 == 0:
                out.append('\t')
        else:
            run = 0
            out.append(c)
    return ''.join(out)


def compare(toks, s, in_string, msg):
    Num = A.bind('codeprep.tokens.numeric', 'Number')
    exp = expected(s, in_string)
    i = 0
    for t in toks:
        x = str(t)
        A.check(len(x) > 0, msg + ': empty token')
        A.check(i + len(x) <= len(exp), msg + ': more characters than in the text')
        y = exp[i:i + len(x)]
        if isinstance(t, Num):
            A.check(A.disj(x == y, x == y.lower()), msg + ': number')
        else:
            A.check(x == y, msg)
        i += len(x)
    A.check(i == len(exp), msg + ': characters lost')


def runs_kept(toks, s):
    """in strings every maximal run of spaces is one token of its length"""
    Sp = A.bind('codeprep.tokens.whitespace', 'SpaceInString')
    lens = []
    prev = False
    for c in s:
        sp = A.decide(c == ' ')
        if sp and prev:
            lens[-1] += 1
        elif sp:
            lens.append(1)
        prev = sp
    got = [len(str(t)) for t in toks if isinstance(t, Sp)]
    A.check(got == lens, 'lengths of the runs of spaces in a string')


def direct(n, dom, in_string):
    words, string = A.bind('codeprep.parse.subtokens', 'split_into_words', 'split_string')
    s = texts.sym('s', n, dom)
    toks = (string if in_string else words)(s)
    A.observe([str(t) for t in toks])
    compare(toks, s, in_string, 'tokens of the text')
    if in_string:
        runs_kept(toks, s)


TYPES = {'text': Token.Text, 'name': Token.Name, 'comment': Token.Comment.Single, 'block': Token.Comment.Multiline,
         'string': Token.Literal.String}


def visible_output(n, dom, where, mode):
    """the same through the public functions: what is printed"""
    s = texts.sym('s', n, dom)
    A.assume(A.neg(s.strip() == ''))
    in_string = where == 'string'
    seq = [(TYPES[where], s)]
    toks = inner(texts.parse(seq))
    compare(toks, s, in_string, 'tokens of the text')
    Num = A.bind('codeprep.tokens.numeric', 'Number')
    has_num = any(isinstance(t, Num) for t in toks)
    words = in_string and mode in ('words', 'basic')
    r, m = texts.run(seq + [(Token.Keyword, 'kw')], 'nosplit' if mode == 'words' else mode, **(dict(full_strings=True) if in_string and mode == 'nosplit' else {}))
    r = list(r)
    A.observe(r)
    if mode == 'chars':
        joined = ''.join(r)
        A.check(joined[-6:] == 'kw</t>', 'last token')
        out = joined[:-6].replace('</t>', '')
    else:
        A.check(r[-1] == 'kw', 'last token')
        out = ''.join([x for x in r[:-1]])
    exp = expected(s, in_string)
    if words:
        # the words of the string: its spaces are not printed
        exp = ''.join([c for c in s if not A.decide(c == ' ')])
    if where == 'comment':
        exp = exp + '<EOL>'
    if mode == 'basic':
        out = out.replace('<w>', '').replace('</w>', '')
    if has_num:
        A.check(out.lower() == exp.lower(), 'printed characters, up to case')
    else:
        A.check(out == exp, 'printed characters')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(n, dom=None, name=''):
        for ins in (False, True):
            out.append(('%s-n%d%s' % ('string' if ins else 'text', n, name), direct, dict(n=n, dom=dom, in_string=ins),
                        dict(bounds='%s of %d characters over %s' % ('string literal' if ins else 'text', n, ascii(dom) if dom else 'all of Unicode'))))

    def pub(where, mode, n, dom, name=''):
        out.append(('printed-%s-%s-n%d%s' % (where, mode, n, name), visible_output, dict(n=n, dom=dom, where=where, mode=mode),
                    dict(bounds='%s of %d characters over %s, %s' % (where, n, ascii(dom) if dom else 'all of Unicode', mode))))
    LONG = [('ab c' * 40, 2, ' x' * 30), (' ' * 67, 1, ' ' * 66), ('a' + '    ' * 20, 1, '\n' * 30 + '\t' * 9), ('x=1;' * 60, 1, '"' * 9),
            ('\xe9' * 90 + ' 0x1F ' * 20, 1, '\u4e2d' * 60), ('get_Value(' * 30, 1, ')' * 130)] + ([] if q else [
            ('wOrd 7 \n' * 150, 2, '  ' * 200), (' ' * 1030, 1, 'x'), ('a' * 2000, 1, 'b')])
    for i, n in enumerate(LONG):
        for ins in (False, True):
            out.append(('%s-long%d' % ('string' if ins else 'text', i), direct, dict(n=n, dom=' a1\n=', in_string=ins),
                        dict(bounds='text of %d fixed characters and %d over " a1\\n="' % (len(n[0] + n[2]), n[1]))))
        for where in TYPES:
            for mode in ('nosplit', 'chars') + (('basic',) if where != 'string' else ()):
                out.append(('printed-%s-%s-long%d' % (where, mode, i), visible_output, dict(n=n, dom=' a1', where=where, mode=mode),
                            dict(bounds='%s of %d fixed characters and %d over " a1", %s' % (where, len(n[0] + n[2]), n[1], mode))))
    for n in (0, 1, 2):
        add(n)
    add(3)
    add(4, ' aA1_\t\n\xa0\u00e9.', '-mixed')
    add(5, ' a=1', '-s')
    add(6, ' a\t', '-runs')
    add(9, ' a', '-longruns')
    for where in TYPES:
        for mode in ('nosplit', 'chars') + (('basic',) if where != 'string' else ()):
            pub(where, mode, 3, ' a1\n\u00e9/', '-mixed')
            pub(where, mode, 3, 'a \t\r', '-blanks')
    for mode in ('words', 'basic'):
        pub('string', mode, 3, ' a1\n\u00e9/', '-mixed')
        pub('string', mode, 3, 'a \t\r', '-blanks')
        out.append(('printed-string-%s-long' % mode, visible_output, dict(n=LONG[0], dom=' a1', where='string', mode=mode),
                    dict(bounds='string of %d fixed characters and 2 over " a1", %s' % (len(LONG[0][0] + LONG[0][2]), mode))))
    pub('comment', 'nosplit', 5, ' a')
    pub('string', 'nosplit', 5, ' a')
    if not q:
        add(4)
        add(5, ' aA1_\t\xa0\u00e9.', '-mixed')
        add(7, ' a\t1', '-runs')
        add(12, ' a', '-longruns')
        for where in TYPES:
            for mode in ('nosplit', 'chars') + (('basic',) if where != 'string' else ()):
                pub(where, mode, 2, None, '-all')
                pub(where, mode, 4, ' aA1_\n\u00e9/', '-more')
    return out
