"""C33: text functions do not depend on history and their extra options only add what they say."""
import pygments
import pygments.lexers
from pygments.token import Token

from sx import api as A
from sx import patching
from harness import vfs, texts, c17
from harness.c14 import T

ASSUMPTIONS = [texts.ASSUMPTION, 'reloading of BPE data is not switched off by the caller (except where that is what is checked)']
IDS = ['1k', '5k', '10k', 'mine-1', 'mine-2']
MERGES = dict(c17.MERGES)
# words whose segmentations are stored with the merge lists of 10000 merges and 'mine-2'
CACHED = ['abaBcabC', 'abaBc', 'ab', 'aB', 'ba', 'b', 'aBc', 'bac']
CALLS = ['nosplit', 'basic', 'chars'] + IDS


def _install(fs):
    c17.install(fs)
    cfg = A.bind('codeprep.config')
    dump = A.bind('codeprep.bpepkg.cache', 'dump_bpe_cache')
    for k, ps in (('mine-2', [cfg.USER_BPE_DIR + '/ds_24-01-01T00-00-00/2/']), ('10k', ['%s/%s/10k/' % (cfg.DEFAULT_BPE_CACHE_DIR, c) for c in ('case', 'nocase')])):
        for p in ps:
            fs.makedirs(p[:-1], exist_ok=True)
            dump(dict([(w + '@', _split(w + '@', MERGES[k])) for w in CACHED]), p + 'merges_cache.txt')


def _split(w, merges):
    parts = list(w)
    for a, b in merges:
        out = []
        for x in parts:
            if out and x == b and out[-1] == a:
                out[-1] = a + b
            else:
                out.append(x)
        parts = out
    return parts


def _call(what, seq, **opts):
    """a text function"""
    m = A.bind('codeprep.api.text')
    texts.lexed(seq)
    if what in ('nosplit', 'basic', 'chars'):
        return getattr(m, what)('', extension='java', **opts)
    return m.bpe('', what, extension='java', **opts)


def _mode(what):
    return what if what in ('nosplit', 'basic', 'chars') else 'bpe'


def _expect(what, seq, eof=False, **opts):
    toks = texts.parse(seq)
    NL = A.bind('codeprep.tokens.whitespace', 'NewLine')
    if toks and type(toks[-1]) is NL:
        toks = toks[:-1]
    if eof:
        toks = toks + [A.bind('codeprep.tokens.word', 'SpecialToken')('<EOF>')]
    mode = _mode(what)
    return texts.represent(toks, mode, texts.bpe_data(MERGES[what if mode == 'bpe' else '0']) if mode in ('bpe', 'chars') else None, **opts)


def _seq(shape, dom, tail=0):
    s = []
    for i, k in enumerate(shape):
        s.append((T[k[0]], A.string('v%d' % i, k[1], dom) if isinstance(k[1], int) else k[1]))
    return s + [(Token.Text, '\n')] * tail


def _forget():
    """as in a new process"""
    A.bind('codeprep.pipeline.to_repr').__dict__.pop('global_bpe_data', None)


def history(before, shape, dom, last):
    """the result does not depend on what was done before"""
    fs = vfs.fresh()
    _install(fs)
    _forget()
    for i in range(before if isinstance(before, int) else len(before)):
        c = CALLS[A.choice('before%d' % i, len(CALLS))] if isinstance(before, int) or before[i] is None else before[i]
        got = _call(c, [(Token.Name, 'abaBc')] + ([(Token.Name, A.string('p%d' % i, 1, dom))] if i == 0 else []))
        A.check(len(got) > 0, 'no result')
    what = CALLS[A.choice('call', len(CALLS))] if last is None else last
    seq = _seq(shape, dom)
    got = list(_call(what, seq))
    A.observe(what, got)
    A.check_eq(got, list(_expect(what, seq)[0]), 'the result depends on what was done before')
    A.check_eq(list(_call(what, seq)), got, 'the same call again')


def extras(shape, dom, tail, whats, **opts):
    """metadata, the end-of-file token, and a line break at the end"""
    fs = vfs.fresh()
    _install(fs)
    _forget()
    what = whats[A.choice('call', len(whats))]
    seq = _seq(shape, dom, A.choice('line breaks', tail + 1))
    eof = A.flag('eof')
    opts = dict([(k, True) for k in opts if A.flag(k)])
    k = dict(opts)
    if eof:
        k['append_eof'] = True
    plain = list(_call(what, seq, **opts))
    got = list(_call(what, seq, **k))
    both = _call(what, seq, return_metadata=True, **k)
    A.check(isinstance(both, tuple) and len(both) == 2, 'result with metadata')
    r, m = both
    A.observe(what, got)
    A.check_eq(list(r), got, 'tokens with metadata')
    er, em = _expect(what, seq, eof, **opts)
    A.check_eq(got, list(er), 'tokens')
    A.check(list(m.word_boundaries) == list(em.word_boundaries), 'boundaries')
    A.check([t.__name__ for t in m.token_types] == [t.__name__ for t in em.token_types], 'types')
    if eof:
        A.check_eq(got, plain + texts.mark(['<EOF>'], _mode(what)), 'the end-of-file token')
        A.check(m.word_boundaries[-1] == len(got) and m.word_boundaries[-2] == len(got) - 1, 'boundaries of the end-of-file token')
        A.check(m.token_types[-1].__name__ == 'SpecialToken', 'type of the end-of-file token')


def keep(shape, dom):
    """without reloading, the data that is there is used"""
    fs = vfs.fresh()
    _install(fs)
    _forget()
    what = IDS[A.choice('id', len(IDS))]
    first = A.choice('first', 3)
    seq = _seq(shape, dom)
    if first:
        _call(what, [(Token.Name, 'ab')], **(dict(force_reinit_bpe_data=False) if first == 2 else {}))
        # nothing is read any more
        fs.log[:] = []
    got = list(_call(what, seq, force_reinit_bpe_data=False))
    A.observe(what, got)
    A.check_eq(got, list(_expect(what, seq)[0]), 'without reloading')
    if first:
        A.check(not [l for l in fs.log if str(l[-1]).endswith('merges.txt')], 'the merges are read again')
    other = IDS[A.choice('other', len(IDS))]
    A.check_eq(list(_call(other, seq)), list(_expect(other, seq)[0]), 'another list of merges')


_LEXED = []


def _by_text(text, lexer, formatter=None):
    for t, seq in _LEXED:
        if A.decide(t == text):
            return iter(list(seq))
    A.fail('a text that is in no file')


def corpus(files, dom, whats, ncpu=1, switches=None, sub='sub/', calc=False):
    """a file of a corpus gives the tokens of the text function"""
    fs = vfs.fresh(now=1600000000, ncpu=ncpu, free=switches is not None, max_switches=switches or 0)
    _install(fs)
    _forget()
    what = whats[A.choice('call', len(whats))]
    texts.lexed([])
    del _LEXED[:]
    names = []
    for i, shape in enumerate(files):
        body = 'file %d' % i
        nm = '/data/proj/%sf%d.java' % (sub if i % 2 or switches is not None else '', i)
        fs.put(nm, body + '\n')
        names.append((nm, body))
        _LEXED.append((body, [(T[k], A.string('v%d_%d' % (i, j), n, dom) if isinstance(n, int) else n) for j, (k, n) in enumerate(shape)] + [(Token.Text, '\n')]))
    patching.patch('codeprep', [(pygments.lex, _by_text)], {})
    patching.patch('codeprep', [(texts._lex, _by_text)], {})
    m = A.bind('codeprep.api.corpus')
    out = '/data/out'
    fs.makedirs(out)
    fs.preempt = switches is not None
    if _mode(what) == 'bpe':
        pc = m.bpe('/data/proj', what, output_path=out, calc_vocab=calc)
    else:
        pc = getattr(m, what)('/data/proj', output_path=out, calc_vocab=calc)
    fs.preempt = False
    un = A.bind('codeprep.util', 'to_non_literal_str')
    t = A.bind('codeprep.api.text')
    n = 0
    every = []
    for nm, body in names:
        p = pc.path_to_prep_dataset + nm[len('/data/proj'):] + '.prep'
        s = fs.text(p)
        A.check(s is not None, 'no result for a file')
        got = [un(x) for x in s[:-1].split(' ')]
        n += len(got)
        every += got
        if _mode(what) == 'bpe':
            want = t.bpe(body, what, extension='java', append_eof=True)
        else:
            want = getattr(t, what)(body, extension='java', append_eof=True)
        A.check_eq(got, list(want[:-1]) + texts.mark(['\n'], _mode(what)) + list(want[-1:]), 'tokens of a file')
    A.observe(what, n)
    A.check(pc.get_corpus_size() == n, 'size of the corpus')
    return pc, every


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    add('history-1', history, 'one call of any kind before, a word of 3 characters over "abBc"', before=1, shape=[('name', 2 if q else 3)], dom='abB', last=None)
    add('history-2', history, 'two calls of any kind before', before=2, shape=[('name', 'abaBcabC')], dom='ab', last='5k' if q else None)
    add('history-many', history, '40 calls of all kinds before, one of them any', before=[CALLS[(3 * i + i // 8) % 8] for i in range(20)] + [None] + [CALLS[(5 * i) % 8] for i in range(19)], shape=[('name', 'abaBcabC'), ('name', 1)], dom='aB', last='10k')
    add('history-long', history, 'a text of 150 tokens', before=1, shape=[('name', ['getX', 'abaBcabC', 'x1'][i % 3]) if i % 2 else ('op', ['(', '=', '.'][i % 3]) for i in range(150)] + [('name', 1)], dom='aB', last='mine-2' if q else None)
    for i, w in enumerate((['nosplit', 'basic'], ['chars'], ['1k', 'mine-2'])):
        add('extras-%d' % i, extras, 'calls of %s, a word and a string, up to two line breaks at the end' % w, shape=[('name', 2), ('str', 1)], dom='aB ', tail=2, whats=w, no_spaces=1)
        add('extras-empty-%d' % i, extras, 'calls of %s, nothing or line breaks only' % w, shape=[], dom='a', tail=3, whats=w, no_spaces=1)
        add('extras-one-%d' % i, extras, 'calls of %s, a token of any character' % w, shape=[('text', 1)], dom=None, tail=1, whats=w)
    add('keep', keep, 'without reloading, a word of 3 characters over "aBc"', shape=[('name', 3)], dom='aBc')
    for w in ('nosplit', 'basic', 'chars', '5k', 'mine-2'):
        add('corpus-' + w, corpus, 'two files with words of 2 and 1 characters', files=[[('name', 2), ('op', '='), ('str', '"a  b"')], [('name', 1), ('com', '//\u4e00')]], dom='aB', whats=[w], ncpu=1)
    add('corpus-many', corpus, '12 files', files=[[('name', ['getX', 'abaBc', 'x1'][i % 3]), ('op', '='), ('str', '"%d"' % i)] + ([('name', 1)] if i in (4, 10) else []) for i in range(12)], dom='aB', whats=['basic', 'mine-2'], ncpu=1)
    add('corpus-pool', corpus, 'several processes', files=[[('name', 1)], [('name', 'ab')], [('name', 'ba')]], dom='ab', whats=['nosplit', 'mine-2'], ncpu=3)
    for k in (0, 1) if q else (0, 1, 2):
        add('corpus-together-%d' % k, corpus, 'two processes working on files of the same new directories, every order with up to %d changes from one to the other '
            'before one is done with its files' % k, files=[[('name', 1)], [('name', 'ab')]], dom='ab', whats=['nosplit', 'mine-2'] if k < 2 else ['nosplit'], ncpu=2,
            switches=k, sub='new/sub/')
    return out
