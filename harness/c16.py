"""C16: preprocessing configurations encode and decode faithfully."""
import sys
import types

from sx import api as A
from harness import texts

ASSUMPTIONS = ['an unknown code is any six characters; whether lowercasing may be combined with character splitting (8) is left open',
               'the ronin splitter and the stemmer (not installed here) are replaced by stand-ins']
ALPHA = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
VALUES = ['uU', '0c', ALPHA, '0F123s456789', 's0', 'ul']
SPLITS = VALUES[3]
FLAT, BPE = '0F', '45679'


def stubs():
    def split(s):
        return ['r', s]
    m = types.ModuleType('spiral')
    m.ronin = types.ModuleType('spiral.ronin')
    m.ronin.split = split
    sys.modules['spiral'] = m
    sys.modules['spiral.ronin'] = m.ronin

    def stem(s):
        return '<' + s + '>'
    st = types.ModuleType('codeprep.stemming')
    st.stem = stem
    return st


def _in(c, vs):
    return A.disj(*[c == v for v in vs])


def valid(s):
    """-> (must be accepted, must be rejected)"""
    ok = A.conj(*[_in(s[i], VALUES[i]) for i in range(6)])
    low = s[5] == 'l'
    bad = A.conj(low, _in(s[3], FLAT + BPE))
    return A.conj(ok, A.neg(bad), A.neg(A.conj(low, s[3] == '8'))), A.disj(A.neg(ok), bad)


def codes(n, dom):
    PC, PP = A.bind('codeprep.prepconfig', 'PrepConfig', 'PrepParam')
    s = A.string('s', n, dom)
    try:
        c = PC.from_encoded_string(s)
    except ValueError:
        A.observe('rejected')
        A.check(A.neg(valid(s)[0]) if n == 6 else True, 'a valid code is rejected')
        return
    A.check(n == 6, 'a code of wrong length is accepted')
    A.check(A.neg(valid(s)[1]), 'an invalid code is accepted')
    t = str(c)
    A.observe(t)
    A.check_eq(t, s, 'code of the configuration')
    for i, p in enumerate(PP):
        A.check_eq(c.get_param_value(p), s[i], 'value of a parameter')
    d = PC.from_encoded_string(t)
    A.check(d == c, 'the configuration is not rebuilt')
    A.check_eq(str(d), s, 'code of the rebuilt configuration')


def params(dom, missing):
    """configurations built from values"""
    PC, PP = A.bind('codeprep.prepconfig', 'PrepConfig', 'PrepParam')
    s = A.string('s', 6, dom)
    ps = {p: s[i] for i, p in enumerate(PP)}
    if missing is not None:
        del ps[list(PP)[missing]]
    try:
        c = PC(ps)
    except ValueError:
        A.check(A.disj(missing is not None, A.neg(valid(s)[0])), 'a valid configuration is rejected')
        return
    A.check(missing is None, 'an incomplete configuration is accepted')
    A.check(A.neg(valid(s)[1]), 'an invalid configuration is accepted')
    A.check_eq(str(c), s, 'code')
    A.observe(str(c))
    A.check(PC.from_encoded_string(str(c)) == c, 'the configuration is not rebuilt')


def two(dom, pos):
    """two configurations are equal exactly if their codes are"""
    PC = A.bind('codeprep.prepconfig', 'PrepConfig')
    s = A.string('s', 6, dom)
    t = ''.join([A.string('t%d' % i, 1, dom) if i in pos else s[i] for i in range(6)])
    A.assume(valid(s)[0])
    A.assume(valid(t)[0])
    a, b = PC.from_encoded_string(s), PC.from_encoded_string(t)
    A.check(A.iff(a == b, s == t), 'equality of configurations')
    A.check(A.iff(str(a) == str(b), s == t), 'equality of codes')


def settings(cfg, split, exp):
    """the representation settings of cfg are those in exp"""
    C = A.bind('codeprep.tokens.containers')
    Word = A.bind('codeprep.tokens.word', 'Word')
    Number = A.bind('codeprep.tokens.numeric', 'Number')
    NonEng = A.bind('codeprep.tokens.noneng', 'NonEng')
    WS = A.bind('codeprep.tokens.whitespace')
    d = texts.bpe_data([('a', 'b'), ('b', '@')])
    st = stubs()
    import codeprep
    codeprep.stemming = st
    sys.modules['codeprep.stemming'] = st
    r = cfg.get_repr_config(d)
    ts = r.types_to_be_repr
    has = [t in ts for t in (C.SplitContainer, Word, Number, C.OneLineComment, C.MultilineComment, C.StringLiteral, NonEng,
                             WS.NewLine, WS.Tab)]
    words = split not in ('nosplit', 'full')
    numbers = split in ('numbers', 'ronin', 'stem', 'chars', 'bpe')
    A.observe(has)
    A.check(has == [words, words, numbers, exp['no_com'], exp['no_com'], exp['no_str'], exp['no_unicode'], exp['no_spaces'],
                    exp['no_spaces']], 'what is split and replaced')
    known = set([C.SplitContainer, Word, Number, C.OneLineComment, C.MultilineComment, C.StringLiteral, NonEng, WS.NewLine, WS.Tab])
    A.check(not [t for t in ts if t not in known], 'another kind of token is replaced')
    bpe = split in ('chars', 'bpe')
    A.check(cfg.is_bpe() == bpe, 'bpe')
    A.check((r.bpe_data is d) if bpe else (r.bpe_data is None), 'bpe data')
    A.check(bool(r.should_lowercase) == exp['no_case'], 'lowercasing')
    A.check(bool(r.full_strings) == (split == 'full'), 'whole strings')
    if not exp['no_str']:
        m = exp['limit']
        if m is None:
            A.check(r.max_str_length >= 10 ** 9, 'no limit of the length of strings')
        else:
            A.check(r.max_str_length == m, 'limit of the length of strings')
    w = A.string('w', 2, 'ab@1')
    gold = A.bind('codeprep.bpepkg.bpe_encode', 'get_bpe_subwords')
    if bpe:
        e = gold(w, texts.bpe_data([('a', 'b'), ('b', '@')]))
        A.check_eq(list(r.word_splitter(w, d)), list(e), 'word splitter')
        A.check_eq(list(r.number_splitter(w, d)), list(e), 'number splitter')
    else:
        if numbers:
            A.check_eq(list(r.number_splitter(w, d)), [w[0], w[1]], 'number splitter')
        if split in ('basic', 'numbers'):
            A.check_eq(list(r.word_splitter(w, d)), [w], 'word splitter')
        elif split == 'ronin':
            A.check_eq(list(r.word_splitter(w, d)), ['r', w], 'ronin splitter')
        elif split == 'stem':
            A.check_eq(list(r.word_splitter(w, d)), ['<r>', '<' + w + '>'], 'stemming splitter')


BY_CODE = {'0': 'nosplit', 'F': 'full', '1': 'basic', '2': 'numbers', '3': 'ronin', 's': 'stem', '4': 'bpe', '5': 'bpe', '6': 'bpe',
           '7': 'bpe', '8': 'chars', '9': 'bpe'}


def derived(splits):
    """settings derived from a code"""
    PC = A.bind('codeprep.prepconfig', 'PrepConfig')
    s = ''.join([A.pick('v%d' % i, splits if i == 3 else 'u' if i == 5 and splits[0] in FLAT + BPE + '8' else vs)
                 for i, vs in enumerate(VALUES) if i != 2])
    k = A.integer('k', 0, 61)
    x = A.string('x', 1, ALPHA)
    for i, ch in enumerate(ALPHA):
        A.assume(A.iff(k == i, x == ch))
    c = PC.from_encoded_string(s[:2] + x + s[2:])
    zero = A.decide(k == 0)
    one = A.decide(k == 1)
    settings(c, BY_CODE[s[2]], dict(no_unicode=s[0] == 'U', no_com=s[1] == '0', no_str=zero, limit=None if zero or one else k,
                                    no_spaces=s[3] == '0', no_case=s[4] == 'l'))


def asked(mode, hi):
    """settings derived from the options of a call"""
    cfg = A.bind('codeprep.api.common', 'create_prep_config')
    o = {}
    for k in ('no_spaces', 'no_unicode', 'no_com', 'no_str'):
        if A.flag(k):
            o[k] = True
    split = mode
    codes_id = None
    if mode == 'nosplit':
        if A.flag('full_strings'):
            o['full_strings'] = True
            split = 'full'
    elif mode == 'basic':
        if A.flag('no_case'):
            o['no_case'] = True
        n = A.choice('variant', 4)
        if n:
            o['split_numbers'] = True
            split = 'numbers'
        if n > 1:
            o['ronin'] = True
            split = 'ronin'
        if n > 2:
            o['stem'] = True
            split = 'stem'
            if A.flag('only stem'):
                # stemming implies the others
                del o['ronin']
                del o['split_numbers']
        elif n == 2 and A.flag('only ronin'):
            del o['split_numbers']
    elif mode == 'bpe':
        codes_id = A.pick('id', ['1k', '5k', '10k', 'custom-7'])
    else:
        codes_id = '0'
    limit = None
    if A.flag('limited'):
        limit = A.integer('limit', 0, hi)
        o['max_str_length'] = limit
        if A.decide(limit < 2):
            limit = 2
        elif A.decide(limit > 61):
            limit = None
    c = cfg(mode, codes_id, **o)
    A.observe(str(c))
    settings(c, split, dict(no_unicode='no_unicode' in o, no_com='no_com' in o, no_str='no_str' in o, no_spaces='no_spaces' in o,
                            no_case='no_case' in o, limit=limit))


def rejected():
    """lowercasing without splitting or with byte-pair encoding is rejected"""
    cfg = A.bind('codeprep.api.common', 'create_prep_config')
    mode = A.pick('mode', ['nosplit', 'bpe'])
    o = dict(full_strings=A.flag('full')) if mode == 'nosplit' else {}
    ok = A.raises(ValueError, cfg, mode, A.pick('id', ['1k', '5k', '10k', 'x-3']), no_case=True, no_spaces=A.flag('s'),
                  no_unicode=A.flag('u'), no_com=A.flag('c'), no_str=A.flag('n'), max_str_length=A.integer('limit', 0, 70), **o)
    A.check(ok, 'not rejected')


def learning():
    """the configuration under which data for learning BPE is prepared"""
    BC, BP = A.bind('codeprep.bpepkg.bpe_config', 'BpeConfig', 'BpeParam')
    u = A.pick('unicode', ['yes', 'no', 'bytes'])
    c = BC({BP.CASE: 'yes', BP.WORD_END: A.flag('end'), BP.BASE: A.pick('base', ['all', 'code', 'java']), BP.UNICODE: u})
    p = c.to_prep_config()
    A.observe(str(p))
    A.check(p.is_base_bpe_config(), 'base configuration')
    settings(p, 'full', dict(no_unicode=u == 'no', no_com=True, no_str=False, no_spaces=False, no_case=False, limit=14))


def learning_values(dom):
    BC, BP = A.bind('codeprep.bpepkg.bpe_config', 'BpeConfig', 'BpeParam')
    n = A.choice('len', 6)
    u = A.string('u', n, dom)
    b = A.string('b', A.choice('blen', 5), dom)
    ps = {BP.CASE: 'yes', BP.WORD_END: A.flag('end'), BP.BASE: b, BP.UNICODE: u}
    ok = A.decide(A.conj(_in(u, ['yes', 'no', 'bytes']), _in(b, ['all', 'code', 'java'])))
    if A.flag('missing'):
        del ps[A.pick('which', list(BP))]
        ok = False
    try:
        c = BC(ps)
    except ValueError:
        A.check(not ok, 'a valid learning configuration is rejected')
        return
    A.check(ok, 'an invalid learning configuration is accepted')
    A.check_eq(c.get_param_value(BP.UNICODE), u, 'value')


def base(dom):
    """exactly the configurations used for learning count as such"""
    PC = A.bind('codeprep.prepconfig', 'PrepConfig')
    s = A.string('s', 6, dom)
    A.assume(valid(s)[0])
    c = PC.from_encoded_string(s)
    A.check(A.iff(c.is_base_bpe_config(), s[1:] == '0EFsu'), 'base configuration')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    for n in (0, 1, 2, 3, 4, 5, 6, 7, 8):
        add('codes-%d' % n, codes, 'all strings of %d characters' % n, n=n, dom=None)
    add('params', params, 'all combinations of six one-character values', dom=None, missing=None)
    for i in range(6):
        add('params-without-%d' % i, params, 'configurations without parameter %d' % i, dom=None, missing=i)
    add('two', two, 'all pairs of valid codes', dom=None, pos=[0, 1, 2, 3, 4, 5])
    for g in ['0', 'F', '1', '2', '3', 's', '4567', '8', '9']:
        add('derived-' + g, derived, 'all valid codes with splitting %s, every limit, all words of 2 characters over "ab@1"' % g, splits=g)
    for m in ('nosplit', 'chars', 'basic', 'bpe'):
        add('asked-' + m, asked, 'all combinations of options of mode %s, limits 0..%s' % (m, 200 if q else 10 ** 9), mode=m,
            hi=200 if q else 10 ** 9)
    add('rejected', rejected, 'all option combinations with lowercasing in modes nosplit and bpe')
    add('learning', learning, 'all learning configurations')
    add('learning-values', learning_values, 'learning configurations with any values of up to 5 (4) characters', dom=None)
    add('base', base, 'all valid codes', dom=None)
    return out
