"""C07: vocabulary and cache files survive writing and reading."""
from sx import api as A
from harness import vfs

ANY = None
NOSP = [(0, 31), (33, 0xD7FF), (0xE000, 0x10FFFF)]
ASSUMPTIONS = ['tokens are Unicode scalar values (no lone surrogates); subwords of cached words contain no space']


def _distinct(ws):
    for i in range(len(ws)):
        for j in range(i):
            A.assume(A.neg(ws[i] == ws[j]))


def vocab(lens, dom, maxf=9):
    dump, load = A.bind('codeprep.pipeline.vocab', '_dump_vocab_dict', '_load_vocab_dict')
    fs = vfs.fresh()
    ws = [A.string('w%d' % i, n, dom) for i, n in enumerate(lens)]
    _distinct(ws)
    fr = [A.integer('f%d' % i, 0, maxf) for i in range(len(ws))]
    path = fs.home + '/vocab'
    dump(list(zip(ws, fr)), path)
    r = load(path)
    A.observe(list(r.items()))
    A.check(len(r) == len(ws), 'number of entries')
    for w, f in zip(ws, fr):
        A.check(w in r, 'token lost')
        A.check(r[w] == f, 'frequency')
    A.check_eq(list(r.keys()), ws, 'order of entries')


def cache(lens, dom):
    dump, load = A.bind('codeprep.bpepkg.cache', 'dump_bpe_cache', 'read_bpe_cache')
    fs = vfs.fresh()
    d = {}
    ks = []
    for i, ns in enumerate(lens):
        parts = [A.string('w%d_%d' % (i, j), n, dom) for j, n in enumerate(ns)]
        k = ''.join(parts)
        for o, _ in ks:
            A.assume(A.neg(o == k))
        ks.append((k, parts))
        d[k] = parts
    path = fs.home + '/cache'
    dump(d, path)
    r = load(path)
    A.observe(list(r.items()))
    A.check(len(r) == len(ks), 'number of entries')
    for k, parts in ks:
        A.check(k in r, 'word lost')
        A.check_eq(list(r[k]), parts, 'segmentation')


def nonbpe(lens, dom, reader):
    save, Meta = A.bind('codeprep.preprocess.metadata', 'save_metadata', 'PreprocessingMetadata')
    fs = vfs.fresh()
    ws = [A.string('w%d' % i, n, dom) for i, n in enumerate(lens)]
    _distinct(ws)
    path = fs.home + '/nonbpe'
    save(Meta(nonprocessable_tokens=set(ws)), path)
    if reader == 'vocab':
        r = A.bind('codeprep.pipeline.vocab', '_load_vocab_set')(path)
    else:
        class D(object):
            path_to_nonbpe_vocab_file = path
        r = A.bind('codeprep.pipeline.bpelearner', 'load_nonbpe_vocab')(D())
    A.check(len(r) == len(ws), 'number of tokens')
    for w in ws:
        A.check(w in r, 'token lost')


def _many(n):
    """different tokens of lengths 1 to about 70, some with characters special to files"""
    out = []
    for i in range(n):
        out.append('t%d' % i + ('', '\u2028', '\x0b' + 'x' * (i % 67), '\xe9\U0001f600', '\\n', '\x1c\x85')[i % 6])
    return out


def many(kind, n, dom, sym, pre):
    """many entries, one with any characters"""
    w = pre + A.string('w', sym, dom)
    ws = _many(n)
    for o in ws:
        A.assume(A.neg(o == w))
    fs = vfs.fresh()
    path = fs.home + '/f'
    if kind == 'vocabulary':
        dump, load = A.bind('codeprep.pipeline.vocab', '_dump_vocab_dict', '_load_vocab_dict')
        f = A.integer('f', 0, 10 ** 12)
        es = [(o, 10 ** 9 // (i + 1)) for i, o in enumerate(ws)]
        es[n // 2:n // 2] = [(w, f)]
        dump(es, path)
        r = load(path)
        A.check(len(r) == n + 1, 'number of entries')
        A.check_eq([[k, v] for k, v in r.items()], [[k, v] for k, v in es], 'entries and their order')
    elif kind == 'cache':
        dump, load = A.bind('codeprep.bpepkg.cache', 'dump_bpe_cache', 'read_bpe_cache')
        d = {o: [o[:1], o[1:]] for o in ws}
        d[w] = [w]
        dump(d, path)
        r = load(path)
        A.check(len(r) == n + 1, 'number of entries')
        for k, v in d.items():
            A.check(k in r, 'word lost')
            A.check_eq(list(r[k]), v, 'segmentation')
    else:
        save, Meta = A.bind('codeprep.preprocess.metadata', 'save_metadata', 'PreprocessingMetadata')
        save(Meta(nonprocessable_tokens=set(ws + [w])), path)
        r = A.bind('codeprep.pipeline.vocab', '_load_vocab_set')(path)
        A.check(len(r) == n + 1, 'number of tokens')
        for o in ws + [w]:
            A.check(o in r, 'token lost')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(kind, f, lens, dom=None, **k):
        out.append(('%s-%s%s' % (kind, lens, '' if dom is None else '-' + dom), f,
                    dict(lens=lens, dom=dom or (NOSP if f is cache else ANY), **k),
                    dict(bounds='%s with tokens of %s characters over %s' % (kind, lens, dom or (
                        'all Unicode characters' + (' but space' if f is cache else ''))))))
    S = '\t\n\\ nxu0\xa0\x85\u2028\U0001f600'
    add('vocabulary-big', vocab, [1], 'a\t', maxf=10 ** 12)
    for lens in [[0], [1], [2], [1, 1], [0, 1], []] + ([] if q else [[3], [2, 1], [1, 1, 1]]):
        add('vocabulary', vocab, lens)
    add('vocabulary', vocab, [3], S)
    add('vocabulary', vocab, [2, 2], S[:4])
    for lens in [[[1]], [[1, 1]], [[2]], [[1], [1]]] + ([] if q else [[[1, 1, 1]], [[2, 1]], [[1, 1], [1]]]):
        add('cache', cache, lens)
    add('cache', cache, [[1, 2]], S.replace(' ', '@'))
    add('cache', cache, [[3]], S.replace(' ', '@'))
    for kind in ('vocabulary', 'cache', 'unsplittable'):
        for n, dom, sym, pre in [(130, 'a\t\n', 1, ''), (12, S.replace(' ', ''), 1, 'x' * 300)] + (
                [] if q else [(1100, 'a\t\n', 1, ''), (20, None, 1, '\t' * 70)]):
            out.append(('many-%s-%d-%d' % (kind, n, len(pre)), many, dict(kind=kind, n=n, dom=dom or NOSP, sym=sym, pre=pre),
                        dict(bounds='%s file with %d fixed tokens and a token of %d fixed and %d characters over %s' % (
                            kind, n, len(pre), sym, ascii(dom or 'all characters')))))
    for rd in ('vocab', 'learner'):
        for lens in [[1], [2], [1, 1]] + ([] if q else [[3], [2, 1]]):
            add('unsplittable-' + rd, nonbpe, lens, reader=rd)
        add('unsplittable-' + rd, nonbpe, [3], S, reader=rd)
    return out
