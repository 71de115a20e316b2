"""C21: vocabulary statistics, ordering and size limits."""
import collections

from sx import api as A
from harness import vfs, c19

ASSUMPTIONS = ['counts are positive']


def _vocab(n, dom, hi):
    """-> partial vocabulary with n tokens and symbolic counts, the counts by token"""
    PV = A.bind('codeprep.pipeline.vocab', 'PartialVocab')
    c = collections.Counter()
    for i in range(n):
        t = A.string('t%d' % i, 1, dom) if dom else 'abcdefgh'[i]
        for o in list(c):
            A.assume(A.neg(o == t))
        c[t] = A.integer('n%d' % i, 1, hi)
    return PV(c, 0), dict(c)


def written(n, dom, hi):
    fs = vfs.fresh()
    pv, c = _vocab(n, dom, hi)
    path = fs.home + '/vocab'
    pv.write_vocab(path)
    v = c19._lines(fs, path) if n else []
    A.check(n > 0 or fs.text(path) == '', 'empty vocabulary')
    A.observe(v)
    A.check(len(v) == n, 'number of tokens')
    for i, (w, k) in enumerate(v):
        A.check(w in c, 'unknown token')
        A.check(c[w] == k, 'count')
        if i:
            A.check(v[i - 1][1] >= k, 'order of the tokens')
    for t in c:
        A.check(len([1 for w, k in v if A.decide(w == t)]) == 1, 'token lost')


def limited(n, hi, lim):
    """limit_max_vocab"""
    vfs.fresh()
    pv, c = _vocab(n, None, hi)
    m = A.integer('limit', 0, lim)
    pv.limit_max_vocab(m)
    kept = dict(pv.merged_word_counts)
    A.observe(sorted(kept.items()))
    A.check([k for k in kept if k not in c] == [], 'a token appears')
    for k in kept:
        A.check(kept[k] == c[k], 'a count changed')
    A.check(len(kept) <= m, 'more tokens than the limit')
    if A.decide(n <= m):
        A.check(len(kept) == n, 'a vocabulary within the limit is changed')
        return
    dropped = [c[k] for k in c if k not in kept]
    A.check(len(dropped) > 0, 'nothing is dropped')
    top = max(dropped)
    for k in c:
        # more frequent than the most frequent dropped one <=> kept
        A.check(A.iff(k in kept, c[k] > top), 'wrong tokens are dropped')
    # and the most frequent dropped frequency does not fit
    A.check(len(kept) + len([1 for d in dropped if A.decide(d == top)]) > m, 'a frequency that fits is dropped')


def big(n, what, hi):
    """a big vocabulary, two counts of which are any"""
    PV = A.bind('codeprep.pipeline.vocab', 'PartialVocab')
    fs = vfs.fresh()
    c = collections.Counter()
    for i in range(n):
        c['w%d' % i] = 1 + (i * 7) % 11 if i % 50 else 1000 * i + 5
    for i in (n // 2, n - 1)[what == 'limit':]:
        c['w%d' % i] = A.integer('n%d' % i, 1, hi)
    pv = PV(collections.Counter(c), 0)
    c = dict(c)
    if what == 'limit':
        m = A.pick('limit', [n // 3, n // 3 + 1, n - 1, n])
        pv.limit_max_vocab(m)
        kept = dict(pv.merged_word_counts)
        A.check(not [k for k in kept if k not in c], 'a token appears')
        for k in kept:
            A.check(kept[k] == c[k], 'a count changed')
        A.check(len(kept) <= m, 'more tokens than the limit')
        dropped = [c[k] for k in c if k not in kept]
        A.check((len(dropped) > 0) == (n > m), 'a vocabulary within the limit is changed or a bigger one is not')
        if dropped:
            top = max(dropped)
            for k in c:
                A.check(A.iff(k in kept, c[k] > top), 'wrong tokens are dropped')
            A.check(len(kept) + len([1 for d in dropped if A.decide(d == top)]) > m, 'a frequency that fits is dropped')
        A.observe(len(kept))
        return
    path = fs.home + '/vocab'
    pv.write_vocab(path)
    v = c19._lines(fs, path)
    A.check(len(v) == n and len(set([w for w, k in v])) == n, 'number of tokens')
    for i, (w, k) in enumerate(v):
        A.check(w in c and c[w] == k, 'count')
        A.check(i == 0 or v[i - 1][1] >= k, 'order of the tokens')
    A.observe(n)


def stats(shapes, dom, noneng=True):
    """statistics of merged vocabularies"""
    PV = A.bind('codeprep.pipeline.vocab', 'PartialVocab')
    ph = A.bind('codeprep.preprocess.placeholders', 'placeholders')
    fs = vfs.fresh()
    vs = []
    for i, n in enumerate(shapes):
        c = collections.Counter()
        for j in range(n):
            c[A.string('t%d_%d' % (i, j), 1, dom) if dom else 'abcdefgh'[i + j]] += A.integer('n%d_%d' % (i, j), 1, 3)
        if noneng and A.flag('noneng%d' % i):
            c[ph['non_eng']] = A.integer('m%d' % i, 1, 3)
        vs.append(PV(c, 0))
    ids = [v.id for v in vs]
    A.check(len(set(ids)) == len(ids), 'ids of the partial vocabularies')
    while len(vs) > 1:
        a = vs.pop(A.choice('first', len(vs)))
        b = vs.pop(A.choice('second', len(vs)))
        a.add_vocab(b)
        vs.append(a)
    v = vs[0]
    path = fs.home + '/size'
    v.write_stats(path)
    s = fs.text(path)
    A.observe(s)
    ls = s[:-1].split('\n')
    A.check(s[-1] == '\n' and len(ls) > 1, 'format')
    size = len([k for k in v.merged_word_counts if v.merged_word_counts[k] > 0])
    A.check(ls[0] == str(size), 'the statistics do not start with the vocabulary size')
    fr = [l.split(' ') for l in ls[1:]]
    A.check(not [l for l in fr if len(l) != 3], 'format of a line')
    A.check([float(l[0]) for l in fr] == sorted([float(l[0]) for l in fr]) and fr[-1][0] == '1.0000', 'shares of the files')
    A.check(fr[-1][1] == str(size), 'size for all files')
    A.check(fr[-1][2] == str(v.merged_word_counts.get(ph['non_eng'], 0)), 'number of words with non-ASCII characters')


def many_stats(n):
    PV = A.bind('codeprep.pipeline.vocab', 'PartialVocab')
    ph = A.bind('codeprep.preprocess.placeholders', 'placeholders')
    fs = vfs.fresh()
    k = A.integer('count', 1, 3)
    vs = []
    for i in range(n):
        c = collections.Counter({'w%d' % (i // 2): k if i == 5 else 1 + i, 'u%d' % i: 2})
        if i % 3 == 0:
            c[ph['non_eng']] = 1 + i
        vs.append(PV(c, 0))
    A.check(len(set([v.id for v in vs])) == n, 'ids of the partial vocabularies')
    v = vs[0]
    for o in vs[1:]:
        v.add_vocab(o)
    path = fs.home + '/size'
    v.write_stats(path)
    s = fs.text(path)
    ls = s[:-1].split('\n')
    A.observe(s)
    size = n + n // 2 + 1
    A.check(len(v.merged_word_counts) == size, 'number of tokens')
    A.check(v.merged_word_counts['w2'] == k + 5, 'count')
    A.check(ls[0] == str(size), 'the statistics do not start with the vocabulary size')
    fr = [l.split(' ') for l in ls[1:]]
    A.check([float(l[0]) for l in fr] == sorted([float(l[0]) for l in fr]) and fr[-1] == ['1.0000', str(size), str(sum(range(1, n + 1, 3)))],
            'statistics for all files')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for n in range(4 if q else 6):
        hi = 3 if n > 3 else 9
        out.append(('write-%d' % n, written, dict(n=n, dom=None, hi=hi), dict(bounds='%d tokens with counts 1-%d' % (n, hi))))
        out.append(('limit-%d' % n, limited, dict(n=n, hi=9, lim=n + 2), dict(bounds='%d tokens with counts 1-9, limits 0-%d' % (n, n + 2))))
    if q:
        out.append(('limit-4', limited, dict(n=4, hi=9, lim=6), dict(bounds='4 tokens with counts 1-9, limits 0-6')))
    for n in (120,) if q else (120, 1300):
        out.append(('write-%d' % n, big, dict(n=n, what='write', hi=12), dict(bounds='%d tokens, two of which have any count 1-12' % n)))
        out.append(('limit-%d' % n, big, dict(n=n, what='limit', hi=12), dict(bounds='%d tokens, one of which has any count 1-12; limits around a '
                   'third and around all of them' % n)))
    out.append(('stats-many', many_stats, dict(n=24), dict(bounds='24 partial vocabularies merged one after the other')))
    out.append(('write-big', written, dict(n=2, dom=None, hi=1200), dict(bounds='2 tokens with counts 1-1200')))
    out.append(('write-text', written, dict(n=2, dom=[(33, 126)], hi=3), dict(bounds='2 tokens of one ASCII character')))
    out.append(('stats-1', stats, dict(shapes=[2], dom='ab'), dict(bounds='one partial vocabulary')))
    out.append(('stats-2', stats, dict(shapes=[2, 1], dom='ab'), dict(bounds='two partial vocabularies')))
    out.append(('stats-3', stats, dict(shapes=[1, 1, 1], dom='ab'), dict(bounds='three partial vocabularies')))
    out.append(('stats-fixed', stats, dict(shapes=[1, 1, 1, 1], dom=None, noneng=False), dict(bounds='four partial vocabularies with different tokens, merged in any order')))
    if not q:
        out.append(('stats-4', stats, dict(shapes=[2, 1, 1, 1], dom='ab'), dict(bounds='four partial vocabularies')))
    return out
