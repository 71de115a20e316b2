"""C10: end-of-word marks identify full tokens and only them."""
from sx import api as A
from harness import texts
from harness.c14 import T
from pygments.token import Token

ASSUMPTIONS = [texts.ASSUMPTION, 'no merge of the list builds the text of the mark (</t>) itself']
MARK = '</t>'


def outcome(check, r, m):
    try:
        check(r, m)
        return True
    except (ValueError, AssertionError):
        return False


def marks(shape, dom, mode, merges, which, cached=False, one=False):
    check = A.bind('codeprep.preprocess.metadata', 'check_metadata_validity')
    Meta = A.bind('codeprep.preprocess.metadata', 'PreprocessingMetadata')
    seq = [(T[k], texts.sym('v%d' % i, n, dom)) for i, (k, n) in enumerate(shape)]
    opts = {}
    for k in which:
        if A.flag(k):
            opts[k] = True
    toks = texts.parse(seq)
    cache = {'a@': ['a@']} if cached else None
    r, m = texts.represent(toks, mode, texts.bpe_data(merges, cache), **opts)
    r = list(r)
    A.observe(r)
    b = list(m.word_boundaries)
    for i, t in enumerate(r):
        A.check(A.iff(t.endswith(MARK), (i + 1) in b), 'mark at the end of full tokens only')
    full = []
    cur = ''
    for t in r:
        if A.decide(t.endswith(MARK)):
            full.append(cur + t[:-len(MARK)])
            cur = ''
        else:
            cur = cur + t
    A.check(cur == '', 'characters after the last mark')
    plain, pm = texts.represent(toks, 'nosplit', full_strings=True, **opts)
    A.check_eq(full, list(plain), 'full tokens')
    A.check(outcome(check, r, m), 'validity check rejects a result')
    # any other increasing list of boundaries is rejected
    bad = [0]
    if one and len(r):
        # one boundary added or removed
        k = A.choice('altered', len(r))
        bad = [x for x in b if x != k] if k in b else sorted(b + [k])
        A.assume(0 < k)
        bad = bad[:-1]
    for i in range(1, len(r) + 1 if not one else 0):
        if i < len(r) and A.flag('b%d' % i):
            bad.append(i)
    if len(r):
        bad.append(len(r))
        A.assume(bad != b)
        bm = Meta(set(), list(bad), [type(toks[0])] * (len(bad) - 1))
        A.check(not outcome(check, r, bm), 'validity check accepts altered boundaries')


def frame(n):
    """lists of boundaries that do not start at 0 or do not end at the number of subtokens are rejected"""
    check = A.bind('codeprep.preprocess.metadata', 'check_metadata_validity')
    Meta = A.bind('codeprep.preprocess.metadata', 'PreprocessingMetadata')
    r = ['a' + MARK for _ in range(n)]
    first, last = A.integer('first', 0, 9), A.integer('last', 0, 9)
    b = [first] + list(range(1, n)) + [last]
    m = Meta(set(), b, [object] * n)
    ok = outcome(check, r, m)
    A.check(A.iff(ok, A.conj(first == 0, last == n)), 'first and last boundary')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(mode, sh, dom, merges=(), which=(), cached=False, one=False):
        out.append(('%s-%s%s%s%s' % (mode, texts.label(sh), '-' + ascii(dom)[1:-1].replace(' ', 'sp') if dom else '-all', '-m%d' % len(merges) if merges else '', '-cached' if cached else ''), marks,
                    dict(shape=sh, dom=dom, mode=mode, merges=merges, which=which, cached=cached, one=one),
                    dict(bounds='%s: lexer tokens %s (kind, characters) over %s, merges %s, altered boundaries: %s' % (mode, texts.shown(sh), ascii(dom) if dom else 'all of Unicode', merges, 'one' if one else 'all'))))
    M = [('a', 'a'), ('a', '@'), ('aa', 'b'), ('@@', 'a'), ('@', '@@')]
    # the mark is only ever added at the end: characters of the mark themselves occur in the texts in chars mode
    for k in ('name', 'str', 'com', 'num', 'kw', 'op'):
        add('chars', [(k, 2)], None)
        add('bpe', [(k, 3)], 'a@b ', M)
    add('chars', [('str', 4)], '<t/')
    add('chars', [('str', 4)], 'a>t/')
    add('chars', [('name', 1), ('str', 2), ('com', 1)], 'a \n', (), ['no_com', 'no_str', 'no_spaces'])
    add('bpe', [('name', 2), ('num', 1), ('op', 1)], 'a1@;', M, ['no_spaces'])
    add('bpe', [('name', 2), ('text', 2)], 'a @', M, (), True)
    add('bpe', [('str', 3), ('kw', 1)], 'a @\n', M[:2], ['no_str', 'no_spaces'])
    # tokens that are kept whole can contain or be the mark itself
    add('chars', [('op', 1), ('kw', 4)], '</t>')
    add('bpe', [('kw', 4), ('op', 4)], '</t>')
    # subtokens of more than a hundred characters
    D = [('a' * 2 ** i, 'a' * 2 ** i) for i in range(7)] + [('a' * 128, '@'), ('a' * 128, '"')]
    for k in ('str', 'com', 'name', 'text'):
        add('bpe', [(k, ('a' * 126, 2, '')), ('name', 'a' * 128)], 'ab', D, one=True)
    for mode in ('chars', 'bpe'):
        for sh in texts.LONG[:5] + [texts.LONG[5][:26] + [('str', 2), ('com', 1)]] + ([] if q else texts.LONG[5:]):
            add(mode, sh, 'a ' if mode == 'chars' else 'a@', M if mode == 'bpe' else (), [], one=True)
    for n in (1, 2, 3):
        out.append(('frame-%d' % n, frame, dict(n=n), dict(bounds='%d full tokens, first and last boundary 0..9' % n)))
    if not q:
        for k in ('name', 'str', 'com', 'text'):
            add('chars', [(k, 3)], None)
            add('bpe', [(k, 4)], 'a@b \u00e9', M)
            add('bpe', [(k, 2)], None, [('a', 'b'), ('@', '@@')])
        add('chars', [('str', 5)], '</t>')
        add('bpe', [('name', 3), ('text', 2), ('num', 1)], 'a @', M)
    return out
