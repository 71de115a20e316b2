"""C34: the vocabularies of a merge list are complete."""
import pygments
from pygments.token import Token

from sx import api as A
from sx import patching
from harness import vfs, texts, c28, c33
from harness.c14 import T

ASSUMPTIONS = [texts.ASSUMPTION, 'tokens contain no space; files of the directory of a merge list are those written by codeprep']
ROOT = '/data/proj'
ALL = [(0, 31), (33, 0xD7FF), (0xE000, 0x10FFFF)]


SOME = ['w', 'a\\n', '<', '"x\u4e00', '\\', "it's\t"]


def _placeholders():
    return list(A.bind('codeprep.preprocess.placeholders', 'placeholders').values())


def _union(lists):
    out = []
    for l in lists:
        for x in l:
            if not [y for y in out if len(y) == len(x) and A.decide(y == x)]:
                out.append(x)
    return out


def _same_set(got, want, what):
    got = list(got)
    A.check(len(got) == len(want), what + ': number')
    for w in want:
        A.check(len([1 for g in got if len(g) == len(w) and A.decide(g == w)]) == 1, what + ': missing')


def gathered(sizes, n, dom, left=False, order=False):
    """the tokens of all files"""
    fs = vfs.fresh(now=1600000000)
    fs.put(ROOT + '/a.java', 'x')
    ds, bc = c28._dataset()
    fs.any_order = order
    save = A.bind('codeprep.preprocess.metadata', 'save_metadata')
    Meta = A.bind('codeprep.preprocess.metadata', 'PreprocessingMetadata')
    part = ds.path_to_nonbpe_vocab_file + '_part'
    fs.makedirs(part)
    sets = []
    for i, k in enumerate(sizes):
        ts = [A.string('t%d_%d' % (i, j), n, dom) for j in range(k)] if isinstance(k, int) else [t if isinstance(t, str) else A.string('t%d_%d' % (i, j), t, dom) for j, t in enumerate(k)]
        sets.append(ts)
        m = Meta(A.sset(ts) if hasattr(A, 'sset') else set(ts), [0], [])
        save(m, part + '/f%d' % i)
    if left:
        # left by a run that was stopped
        fs.put(part + '/f9.part', 'half')
    A.bind('codeprep.pipeline.vocabloader', 'gather_non_bpe_vocab')(ds)
    A.check(not fs.exists(part), 'partial vocabularies are removed')
    got = A.bind('codeprep.pipeline.vocab', '_load_vocab_set')(ds.path_to_nonbpe_vocab_file)
    want = _union(sets + [_placeholders()])
    A.observe(len(want))
    _same_set(got, want, 'tokens that must not be split')


def whole(files, dom, ncpu=1, pool=False, again=False, coarse=False, switches=None):
    """preprocessing a data set; files: (name, lexer tokens)"""
    fs = vfs.fresh(now=1600000000, ncpu=ncpu, free=switches is not None, max_switches=switches or 0)
    fs.pool_order = pool
    fs.coarse = coarse
    del c33._LEXED[:]
    tokens = []
    for i, (nm, shape) in enumerate(files):
        fs.put(ROOT + '/' + nm, 'file %d\n' % i)
        seq = [(T[k], A.string('v%d_%d' % (i, j), n, dom) if isinstance(n, int) else n) for j, (k, n) in enumerate(shape)]
        c33._LEXED.append(('file %d' % i, seq))
        tokens.append(seq)
    ds, bc = c28._dataset()
    texts.lexed([])
    patching.patch('codeprep', [(pygments.lex, c33._by_text), (texts._lex, c33._by_text)], {})
    if again:
        # all files were preprocessed, but then the run was stopped
        real = A.bind('codeprep.pipeline.vocabloader')
        g = real.gather_non_bpe_vocab
        real.gather_non_bpe_vocab = _stop
        try:
            A.bind('codeprep.pipeline.stages', 'run_until_base_bpe_vocab')(ds, None)
            A.fail('not stopped')
        except KeyboardInterrupt:
            pass
        finally:
            real.gather_non_bpe_vocab = g
    fs.preempt = switches is not None
    A.bind('codeprep.pipeline.stages', 'run_until_base_bpe_vocab')(ds, None)
    fs.preempt = False
    want = []
    cfg = bc.to_prep_config()
    to_repr, conv = A.bind('codeprep.pipeline.to_repr', 'to_repr'), A.bind('codeprep.parse.core', 'convert_text')
    every = []
    for i in range(len(files)):
        Special = A.bind('codeprep.tokens.word', 'SpecialToken')
        r, m = to_repr(cfg, [t for t in conv('file %d' % i, 'java')] + [Special('<EOF>')])
        want.append(list(m.nonprocessable_tokens))
        every += list(r)
    want = _union(want + [_placeholders()])
    got = A.bind('codeprep.pipeline.vocab', '_load_vocab_set')(ds.path_to_nonbpe_vocab_file)
    A.observe(len(want))
    _same_set(got, want, 'tokens that must not be split')
    # and through the id of the list
    ds.assign_bpe_codes_id(bc, 'mine')
    L = A.bind('codeprep.pipeline.vocabloader')
    _same_set(L.nonbpe('mine'), want, 'tokens that must not be split, by id')
    al = L.all('mine')
    _same_set(al.keys(), _union([every]), 'all tokens')
    base = L.base('mine')
    for t in every:
        k = len([1 for x in every if len(x) == len(t) and A.decide(x == t)])
        A.check(c28._lookup(al, t) == k, 'count of a token')
        non = len([1 for w in want if len(w) == len(t) and A.decide(w == t)]) > 0
        A.check((c28._lookup(base, t) is None) == non, 'tokens that may be split')
        if not non:
            A.check(c28._lookup(base, t) == k, 'count of a token that may be split')
    A.check(len(base) == len([t for t in _union([every]) if not [1 for w in want if len(w) == len(t) and A.decide(w == t)]]), 'number of tokens')


def _stop(ds):
    raise KeyboardInterrupt()


def loaders(nv, nn, n, dom, more=0):
    """whole vocabulary, non-BPE vocabulary and their difference; vocabularies of n merges"""
    fs = vfs.fresh(now=1600000000)
    fs.put(ROOT + '/a.java', 'x')
    fs.put('/data/other/a.java', 'x')
    ds, bc = c28._dataset()
    DS, Inv = A.bind('codeprep.pipeline.dataset', 'Dataset'), A.bind('codeprep.pipeline.bperegistry', 'InvalidBpeCodesIdError')
    od = DS.create('/data/other', bc.to_prep_config(), None, None, bc)
    L = A.bind('codeprep.pipeline.vocabloader')
    lit = A.bind('codeprep.util', 'to_literal_str')
    ds.assign_bpe_codes_id(bc, 'mine')
    od.assign_bpe_codes_id(bc, 'other')
    words = []
    for i in range(nv):
        w = A.string('w%d' % i, n, dom)
        for o, _ in words:
            A.assume(A.neg(o == w))
        words.append((w, A.integer('c%d' % i, 1, 9)))
    non = [A.string('o%d' % i, n, dom) for i in range(nn)]
    for i in range(more):
        words.append(('%s%d' % (SOME[i % len(SOME)], i), 1 + i * i))
        if i % 3 == 0:
            non.append(words[-1][0])
    nv += more
    non = _union([non])
    fs.put(ds.path_to_bpe_vocab_file, ''.join(['%s\t%s\n' % (lit(w), str(c)) for w, c in words]))
    fs.put(ds.path_to_nonbpe_vocab_file, ''.join(['%s\n' % lit(w) for w in non]))
    fs.put(od.path_to_bpe_vocab_file, 'other\t5\n')
    fs.put(od.path_to_nonbpe_vocab_file, 'another\n')
    for d, k in ((ds, 3), (ds, 12), (od, 2)):
        fs.put('%s/%d/vocab_res.txt' % (d.bpe_path, k), 'n%d\t%d\n%s\t2\n' % (k, k, lit(words[0][0]) if d is ds and words else 'y'))
    al, no, base = L.all('mine'), L.nonbpe('mine'), L.base('mine')
    A.check(len(al) == nv, 'number of tokens')
    rest = 0
    for w, c in words:
        A.check(c28._lookup(al, w) == c, 'count of a token')
        k = len([1 for o in non if A.decide(o == w)])
        g = c28._lookup(base, w)
        A.check((g is None) == (k > 0), 'tokens that may be split')
        if not k:
            A.check(g == c, 'count of a token that may be split')
            rest += 1
    A.check(len(base) == rest, 'number of tokens that may be split')
    _same_set(no, non, 'tokens that must not be split')
    A.observe(rest)
    A.check(L.all('other') == {'other': 5} and set(L.nonbpe('other')) == {'another'}, 'another list')
    k = A.integer('n', 0, 13)
    have = [(3, 'mine'), (12, 'mine'), (2, 'other')]
    for nm in ('mine', 'other', 'none'):
        try:
            v = L.bpe(nm, k)
        except Inv:
            A.check(A.conj(*[k != x for x, y in have if y == nm]), 'a vocabulary that is there is not found')
            continue
        x = [x for x, y in have if y == nm and A.decide(k == x)]
        A.check(len(x) == 1, 'a vocabulary that is not there')
        A.check(c28._lookup(v, 'n%d' % x[0]) == x[0], 'vocabulary of another number of merges')
    A.check(A.raises(Inv, L.all, 'none'), 'unknown list')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    add('gather-any', gathered, 'one file with a token of any character but the space', sizes=[1], n=1, dom=ALL)
    add('gather-2', gathered, 'two files with tokens over "a<\\\\\\n"', sizes=[2, 1], n=1, dom='a\\\n\u00e9')
    add('gather-3', gathered, 'three files, one empty, and a left-over', sizes=[1, 0, 2], n=1 if q else 2, dom='a\t@', left=True, order=True)
    add('gather-none', gathered, 'no files', sizes=[], n=1, dom='a', left=True)
    add('gather-many', gathered, '14 files with up to 40 tokens, two of them symbolic', sizes=[['%s%d' % (SOME[j % 6], j * i) for j in range(3 * i)] for i in range(13)] + [[1, 'w0', 2]], n=1, dom='w0\\\\')
    add('gather-wide', gathered, 'a file with 300 tokens', sizes=[['%s%d' % (SOME[j % 6], j) for j in range(300)], [1]], n=1, dom='w')
    F = [('a.java', [('kw', 2), ('name', 'xy'), ('op', '=')]), ('sub/b.java', [('kw', 1), ('name', 1)])]
    S = [('a.py', [('kw', 1), ('name', 'x')]), ('d/a.py', [('op', 1), ('name', 'x')]), ('e/a.py', [('kw', 'end')])]
    add('files', whole, 'two files', files=F, dom='ab')
    add('files-text', whole, 'operators and words of one character', files=[('a.java', [('op', 1), ('name', 1), ('kw', 1)])], dom='a=\u00e9')
    add('same-name', whole, 'three files of the same name in different directories, clock too coarse to tell them apart', files=S, dom='ab', coarse=True)
    add('same-name-pool', whole, 'three files of the same name, several processes, any order', files=S[:2] if q else S, dom='a', ncpu=3, pool=True, coarse=True)
    for k in (0, 1) if q else (0, 1, 2):
        add('together-%d' % k, whole, 'two files of the same name in new directories, two processes, every order with up to %d changes from one to the other '
            'before one is done with its files' % k, files=[('x/d/a.java', [('op', '=')]), ('x/e/a.java', [('kw', 1)])], dom='a', ncpu=2, switches=k, coarse=True)
    add('stopped', whole, 'run again after it was stopped', files=F, dom='a', again=True)
    add('stopped-same', whole, 'run again after it was stopped', files=S, dom='a', again=True)
    add('load-any', loaders, 'one token of any character', nv=1, nn=1, n=1, dom=ALL)
    add('load', loaders, 'three tokens, two of them not to be split', nv=3, nn=2, n=1, dom='abc\\')
    add('load-many', loaders, '90 tokens, 30 of them not to be split; one symbolic', nv=1, nn=1, n=1, dom='w<\\\\', more=90)
    add('same-many', whole, '12 files of the same name', files=[('d%d/a.py' % i, [('kw', 'k%d' % i), ('name', 'x'), ('op', '=')] + ([('kw', 1)] if i in (5, 11) else [])) for i in range(12)], dom='ab', coarse=True)
    add('load-2', loaders, 'two tokens of 2 characters', nv=2, nn=1 if q else 2, n=2, dom='a\t')
    return out
