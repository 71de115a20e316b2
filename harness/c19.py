"""C19: the vocabulary counts every token occurrence exactly once."""
from sx import api as A
from harness import vfs

ASSUMPTIONS = ['the preprocessed files are what C08 states: one line of tokens separated by single spaces',
               'a process waiting for a queue gives up only when no other process can run (the timeouts are long enough)']


def _files(fs, sizes, dom, fixed):
    """preprocessed files; -> paths, all tokens"""
    paths = []
    toks = []
    i = 0
    for n in sizes:
        ts = []
        for j in range(n):
            if dom:
                ts.append(A.string('t%d_%d' % (i, j), 1, dom))
            else:
                ts.append(fixed[(i + j) % len(fixed)])
        toks += ts
        p = (fs.home + '/prep/d%d/f%d.prep' % (i % 2, i)).encode()
        fs.put(p, ' '.join(ts) + '\n')
        paths.append(p)
        i += 1
    return paths, toks


def _lines(fs, path):
    """the vocabulary file as (token, count) pairs"""
    s = fs.text(path)
    A.check(s is not None, 'no vocabulary was written')
    A.check(len(s) > 0 and s[-1] == '\n', 'vocabulary is incomplete')
    out = []
    for l in s[:-1].split('\n'):
        w = l.split('\t')
        A.check(len(w) == 2, 'format of the vocabulary')
        out.append((w[0], int(w[1])))
    return out


def compare(vocab, toks):
    """vocab holds every token of toks with the number of its occurrences"""
    n = 0
    for i in range(len(vocab)):
        for j in range(i):
            A.check(A.neg(vocab[i][0] == vocab[j][0]), 'token listed twice')
        A.check(vocab[i][1] == sum([1 for t in toks if A.decide(t == vocab[i][0])]), 'count of a token')
        n += vocab[i][1]
    A.check(n == len(toks), 'tokens are not counted')


def shape(n_chunks, n_groups):
    m = A.bind('codeprep.pipeline.vocab')
    if n_chunks and hasattr(m, 'N_CHUNKS'):
        m.N_CHUNKS = n_chunks
    if n_groups and hasattr(m, 'MAX_INIT_PARTIAL_VOCABS'):
        m.MAX_INIT_PARTIAL_VOCABS = n_groups


def calc(sizes, dom, ncpu, free, switches, chunks=0, groups=0, system='Linux', pool=False, fixed='ab'):
    fs = vfs.fresh(ncpu=ncpu, free=free, max_switches=switches, system=system)
    fs.pool_order = pool
    shape(chunks, groups)
    paths, toks = _files(fs, sizes, dom, fixed)
    out = fs.home + '/out'
    fs.makedirs(out)
    A.bind('codeprep.pipeline.vocab', 'calc_vocab')(fs.home + '/prep', iter(paths), out)
    A.check(not [p for p in fs.sched.procs if not p._done], 'a process did not terminate')
    v = _lines(fs, out + '/vocab')
    A.observe(sorted([c for w, c in v]), len(fs.sched.procs))
    compare(v, toks)
    w = [l for l in fs.log if l[0] != 'r' and l[-1] == out + '/vocab']
    A.check(len(w) == 1, 'not exactly one process writes the result')
    st = fs.text(out + '/vocabsize')
    A.check(st is not None, 'no statistics')
    A.check(st.split('\n')[0] == str(len(v)), 'vocabulary size')
    if system == 'Darwin':
        A.check(len(fs.sched.procs) == 1, 'a single process on OSX')


def big(sizes, dom, ncpu):
    """big files, one token of each is any"""
    fs = vfs.fresh(ncpu=ncpu)
    shape(2, 2)
    paths = []
    count = {}
    toks = []
    for i, n in enumerate(sizes):
        ts = ['w%d' % ((7 * j + i) % (n // 3 + 1)) for j in range(n)]
        for t in ts:
            count[t] = count.get(t, 0) + 1
        t = A.string('t%d' % i, 2, dom)
        toks.append(t)
        ts[n // 2:n // 2] = [t]
        p = (fs.home + '/prep/f%d.prep' % i).encode()
        fs.put(p, ' '.join(ts) + '\n')
        paths.append(p)
    out = fs.home + '/out'
    fs.makedirs(out)
    A.bind('codeprep.pipeline.vocab', 'calc_vocab')(fs.home + '/prep', iter(paths), out)
    v = _lines(fs, out + '/vocab')
    A.observe(len(v))
    n = 0
    for w, k in v:
        for t, c in count.items():
            if A.decide(t == w):
                break
        else:
            c = 0
        A.check(k == c + sum([1 for t in toks if A.decide(t == w)]), 'count of a token')
        n += k
    A.check(n == sum(sizes) + len(sizes), 'tokens are not counted')
    A.check(fs.text(out + '/vocabsize').split('\n')[0] == str(len(v)), 'vocabulary size')


def api(files, dom, what, calc):
    """the vocabulary of a corpus, as the user gets it"""
    from harness import c33
    pc, toks = c33.corpus(files, dom, [what], calc=calc)
    if not calc:
        A.check(A.raises(ValueError, pc.load_vocab), 'a vocabulary that was not calculated')
        return
    v = pc.load_vocab()
    A.observe(sorted(v.values()))
    for t in toks:
        f = [v[w] for w in v if len(w) == len(t) and A.decide(w == t)]
        A.check(len(f) == 1, 'a token is missing or there twice')
        A.check(f[0] == len([1 for x in toks if len(x) == len(t) and A.decide(x == t)]), 'count of a token')
    A.check(sum(v.values()) == len(toks), 'number of tokens')


def grouping(hi, khi):
    g, cg = A.bind('codeprep.util', 'groupify', 'create_chunk_generator')
    n = A.choice('n', hi + 1)
    k = 1 + A.choice('k', khi)
    r = g(list(range(n)), k)
    A.observe(r)
    A.check(sorted([x for y in r for x in y]) == list(range(n)), 'an element is lost or duplicated')
    A.check(len(r) <= k and not [y for y in r if not y], 'number of groups')
    A.check(not r or max([len(y) for y in r]) - min([len(y) for y in r]) <= 1, 'sizes of the groups')
    c = list(cg(n, k))
    A.check(len(c) == n and not [x for x in c if not 0 <= x < k], 'chunks')


def merging(n, dom, order, sizes=None):
    """the order of merging partial vocabularies"""
    PV = A.bind('codeprep.pipeline.vocab', 'PartialVocab')
    import collections
    vfs.fresh()
    C = collections.Counter
    vs = []
    toks = []
    for i in range(n):
        c = C()
        for j in range(sizes[i] if sizes else 2):
            t = A.string('t%d_%d' % (i, j), 1, dom) if dom else 'abcdefgh'[(i + j) % 8]
            k = A.integer('n%d_%d' % (i, j), 1, 5)
            c[t] = c[t] + k
            toks.append((t, k))
        vs.append(PV(c, 0))
    while len(vs) > 1:
        i = A.choice('first', len(vs)) if order else 0
        a = vs.pop(i)
        b = vs.pop(A.choice('second', len(vs)) if order else 0)
        words = [w for w in b.merged_word_counts if w not in a.merged_word_counts]
        before = list(a.merged_word_counts)
        new = a.add_vocab(b)
        A.check(len(new) == len(words) and not [w for w in words if w not in new], 'new words')
        vs.append(a)
    r = vs[0]
    v = list(r.merged_word_counts.items())
    A.observe(len(v))
    A.check(r.n_files == n, 'number of files')
    for w, c in v:
        A.check(c == sum([k for t, k in toks if A.decide(t == w)]), 'count of a token')
    for t, k in toks:
        A.check(t in r.merged_word_counts, 'token lost')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, sizes, bounds, **k):
        out.append((name, calc, dict(dict(dom=None, free=False, switches=0, ncpu=2), sizes=sizes, **k),
                    dict(bounds='files with %s tokens, %s' % (sizes, bounds))))
    for w in ('nosplit', 'mine-2'):
        out.append(('api-' + w, api, dict(files=[[('name', 2), ('op', '='), ('str', '"a  b"')], [('name', 1), ('com', '//\u4e00')]], dom='aB', what=w, calc=True),
                    dict(bounds='a corpus of two files with words of 2 and 1 characters, preprocessed with ' + w)))
    out.append(('api-none', api, dict(files=[[('name', 1)]], dom='aB', what='basic', calc=False), dict(bounds='no vocabulary asked for')))
    S = 10 ** 6
    add('sched-1', [1], '1-3 processes', ncpu=3, free=True, switches=2 if q else 4)
    add('sched-2x2', [1, 1], '2 processes, 2 files in one chunk: schedules with up to %d switches' % (2 if q else S), free=True,
        switches=2 if q else S, chunks=1)
    add('sched-2x3', [2, 1, 1], '2 processes, 3 files in one chunk: schedules with up to %d switches' % (2 if q else 4), free=True,
        switches=2 if q else 4, chunks=1)
    add('sched-3x3', [1, 1, 1], '3 processes, 3 files in 2 chunks: schedules with up to %d switches' % (1 if q else 3), free=True, ncpu=3,
        switches=1 if q else 3, chunks=2)
    add('sched-2x4', [1, 1, 2, 1], '2 processes, 4 files in 2 chunks: schedules with up to %d switches' % (1 if q else 3), free=True,
        switches=1 if q else 3, chunks=2)
    if not q:
        add('sched-4x5', [1, 1, 1, 1, 1], '4 processes, 5 files in 2 chunks: schedules with up to 2 switches', free=True, ncpu=4,
            switches=2, chunks=2)
        add('sched-8x3', [1, 1, 1], '8 processes, 3 files: schedules with up to 1 switch', free=True, ncpu=8, switches=1)
    add('data-2', [2, 2], 'symbolic tokens over "ab\\\\"', dom='ab\\')
    add('data-3', [1, 1, 2], 'symbolic tokens over "abc"', dom='abc', chunks=2)
    add('data-groups', [1, 2, 1], 'symbolic tokens over "ab", two groups', dom='ab', groups=2)
    add('data-blanks', [2, 1], 'symbolic tokens over "a" and characters that count as white space elsewhere', dom='a\xa0\u3000\x0b\x1c\u2028\x85')
    add('blanks', [5, 3, 4], 'fixed tokens with characters that count as white space elsewhere', fixed=['a\xa0b', 'a', '\u3000', 'b\x0bc', 'b', '\x1c\x1c', 'x\u2028y', 'y\x85'])
    add('data-darwin', [2, 1], 'symbolic tokens over "ab", OSX', dom='ab', system='Darwin', chunks=1, ncpu=4)
    add('darwin', [1, 1, 1, 1, 1], 'OSX', system='Darwin', chunks=2, ncpu=4)
    add('pool', [1, 2, 1] if q else [1, 2, 1, 2], 'all orders in which the pool finishes', pool=True, chunks=2)
    add('many', [1] * 45, '45 files in the 20 chunks of the source', ncpu=4, fixed='abcdefg')
    add('many-groups', [1] * 23, '23 files in 7 groups and 3 chunks', ncpu=4, fixed='abcdefg', chunks=3, groups=7)
    if not q:
        add('data-4', [2, 2, 2], 'symbolic tokens over "abc"', dom='abc', chunks=2)
        add('data-all', [1, 1], 'symbolic tokens over all ASCII characters but space and line breaks', dom=[(33, 126)])
    out.append(('big', big, dict(sizes=[1500, 700], dom='wx1', ncpu=2), dict(bounds='files of 1501 and 701 tokens, one of each any two of "wx1"')))
    if not q:
        out.append(('big-3', big, dict(sizes=[9000, 30, 300], dom='wx1', ncpu=2), dict(bounds='files of 9001, 31, and 301 tokens')))
    out.append(('grouping', grouping, dict(hi=12 if q else 40, khi=6 if q else 25), dict(bounds='lists of up to %d elements, up to %d groups' % (
        (12, 6) if q else (40, 25)))))
    out.append(('merging', merging, dict(n=3, dom='ab', order=True), dict(bounds='3 partial vocabularies with two tokens over "ab" and symbolic '
               'counts 1-5, merged in any order')))
    for s in ([1, 3], [1, 1, 4]) if q else ([1, 3], [1, 1, 4], [1, 5], [4, 1, 1]):
        out.append(('merging-' + '-'.join([str(x) for x in s]), merging, dict(n=len(s), dom=None, order=True, sizes=s),
                    dict(bounds='partial vocabularies with %s tokens, symbolic counts 1-5, merged in any order' % s)))
    if not q:
        out.append(('merging-4', merging, dict(n=4, dom='ab', order=False), dict(bounds='4 partial vocabularies')))
        out.append(('merging-abc', merging, dict(n=3, dom='abc', order=True), dict(bounds='3 partial vocabularies over "abc"')))
    return out
