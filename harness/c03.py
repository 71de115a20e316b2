"""C03: BPE results do not depend on caching or on what was encoded before."""
from sx import api as A
from harness.bpe_ref import encode_ref
from harness.c01 import mk_merges, NOSPACE, PAIRS

ASSUMPTIONS = ['the cache holds segmentations produced by the same merges (what the learner saves)']


def mk_cache(lens, merges, dom):
    enc, escape = A.bind('codeprep.bpepkg.bpe_encode', 'encode_word', 'escape')
    cache = {}
    for i, n in enumerate(lens):
        e = escape(A.string('c%d' % i, n, dom), merged=True)
        cache[e] = enc(e, merges)
    return cache


def history(words, shapes, cached, dom, repeat):
    get, BpeData = A.bind('codeprep.bpepkg.bpe_encode', 'get_bpe_subwords', 'BpeData')
    merges = mk_merges(shapes, dom)
    cache = mk_cache(cached, merges, dom)
    data = BpeData(merges_cache=cache, merges=merges)
    before = [[k, list(v)] for k, v in cache.items()]
    mbefore = [[m.pair[0], m.pair[1], m.priority, m.freq] for m in merges]
    ws = [A.string('w%d' % i, n, dom) for i, n in enumerate(words)]
    # what each word gives without cache and history
    exp = [list(get(w, BpeData(merges_cache={}, merges=merges))) for w in ws]
    for _ in range(repeat):
        for w, e in zip(ws, exp):
            r = get(w, data)
            A.check_eq(list(r), e, 'segmentation depends on the cache or on the history')
            # results are the caller's: changing them must not matter
            if isinstance(r, list):
                r.append('zz')
    A.observe([list(e) for e in exp])
    A.check_eq([[k, list(v)] for k, v in data.merges_cache.items() if A.decide(A.disj(*[k == b[0] for b in before]))],
               before, 'the cache was changed')
    A.check_eq([[m.pair[0], m.pair[1], m.priority, m.freq] for m in data.merges], mbefore, 'the merges were changed')


def two_lists(n, shapes, dom, cached):
    """encoding with one merge list must not be affected by encoding with another"""
    get, BpeData, escape = A.bind('codeprep.bpepkg.bpe_encode', 'get_bpe_subwords', 'BpeData', 'escape')
    MergeList, Merge = A.bind('codeprep.bpepkg.merge', 'MergeList', 'Merge')
    w = A.string('w', n, dom)
    datas = []
    for k in 'ab':
        ml = MergeList()
        for i, (a, b) in enumerate(shapes):
            p = (A.string('%s%dl' % (k, i), a, dom), A.string('%s%dr' % (k, i), b, dom))
            for o in ml:
                A.assume(A.neg(A.conj(o.pair[0] == p[0], o.pair[1] == p[1])))
            ml.append(Merge(p, freq=1, priority=i))
        datas.append((BpeData(merges_cache=mk_cache([n] if cached else [], ml, dom), merges=ml), [m.pair for m in ml]))
    # what it should be, from the definition
    exps = []
    for d, pairs in datas:
        syms = []
        for c in w:
            syms.append('@@' if A.decide(c == '@') else c)
        syms.append('@')
        r = encode_ref(syms, pairs)
        r = r[:-1] + [r[-1][:-1]]
        exps.append([x.replace('@@', '@') for x in r])
    for k in (0, 1, 0):
        r = get(w, datas[k][0])
        A.check_eq(list(r), exps[k], 'encoding depends on earlier encoding with other merges')
    A.observe(exps)


def between(n, dom, pre, shapes, many, cached, fixed):
    """a word encoded again after many other words, with a big cache and a long merge list"""
    get, BpeData = A.bind('codeprep.bpepkg.bpe_encode', 'get_bpe_subwords', 'BpeData')
    Merge = A.bind('codeprep.bpepkg.merge', 'Merge')
    merges = mk_merges(shapes, dom)
    for i, p in enumerate(PAIRS[:fixed]):
        for q in list(merges)[:len(shapes)]:
            A.assume(A.neg(A.conj(q.pair[0] == p[0], q.pair[1] == p[1])))
        merges.append(Merge(p, freq=1, priority=len(shapes) + i))
    cache = {}
    if cached:
        cache = mk_cache([n], merges, dom)
        for i in range(cached):
            cache['q%d@' % i] = ['q', str(i), '@']
    data = BpeData(merges_cache=cache, merges=merges)
    before = [[k, list(v)] for k, v in cache.items()]
    w = pre + A.string('w', n, dom)
    e = list(get(w, BpeData(merges_cache={}, merges=merges)))
    A.check_eq(list(get(w, data)), e, 'segmentation depends on the cache')
    for i in range(many):
        r = get('r%d' % i, data)
        A.check(''.join(r) == 'r%d' % i, 'another word in between')
    A.observe(e)
    A.check_eq(list(get(w, data)), e, 'segmentation depends on the history')
    A.check_eq([[k, list(v)] for k, v in data.merges_cache.items()][:len(before)], before, 'the cache was changed')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for n, shapes, dom, c in [(2, [(1, 1)], None, 0), (3, [(1, 1)], None, 0), (3, [(1, 1), (2, 1)], 'ab', 0), (2, [(1, 1)], 'ab@', 1)] + (
            [] if q else [(4, [(1, 1), (1, 1)], 'abc', 0), (3, [(1, 1), (2, 2)], 'ab@', 0), (3, [(1, 1)], 'ab@', 1)]):
        out.append(('two-lists-n%d-%s-%s-%d' % (n, shapes, dom, c), two_lists, dict(n=n, shapes=shapes, dom=dom or NOSPACE, cached=c),
                    dict(bounds='word of %d characters encoded with two merge lists of symbol lengths %s in turn, over %s' % (
                        n, shapes, dom or 'all characters'))))

    for n, dom, pre, shapes, many, cached, fixed in [
            (2, 'ab@', '', [(1, 1)], 150, 0, 0), (1, None, '', [(1, 1)], 130, 300, 0), (1, 'ab@', 'ab' * 70, [(1, 1)], 5, 3, 20),
            (1, 'abq', 'q' * 40, [], 1100, 20, 3), (1, 'ab', 'ba' * 300, [], 20, 0, 2)] + ([] if q else [
            (2, None, '', [(1, 1)], 300, 1100, 0), (1, 'ab@', '', [], 5000, 0, 20)]):
        out.append(('between-%d-%d-%d-%d-%s' % (n, len(pre), many, cached, dom), between,
                    dict(n=n, dom=dom or NOSPACE, pre=pre, shapes=shapes, many=many, cached=cached, fixed=fixed),
                    dict(bounds='word of %d fixed characters and %d over %s, %d cached words, encoded before and after %d other words, '
                                '%d merges' % (len(pre), n, dom or 'all characters', cached, many, len(shapes) + fixed))))

    def add(words, shapes, cached, dom=None, repeat=2):
        out.append(('w%s-m%s-c%s%s' % (words, shapes, cached, '' if dom is None else '-' + dom), history,
                    dict(words=words, shapes=shapes, cached=cached, dom=dom or NOSPACE, repeat=repeat),
                    dict(bounds='words of %s characters each encoded %d times, merges of lengths %s, cached words of %s '
                                'characters, over %s' % (words, repeat, shapes, cached, dom or 'all characters'))))
    add([0], [], [0])
    add([1], [], [1])
    add([2], [(1, 1)], [2])
    add([1], [(1, 1)], [1], None, 3)
    add([2, 1], [(1, 1)], [1])
    add([2, 2], [(1, 1)], [])
    add([2, 2], [(1, 1)], [2], 'ab@')
    add([3], [(1, 1), (2, 1)], [3])
    add([2, 3], [(1, 1)], [2, 3], 'ab@')
    if not q:
        add([3, 2], [(1, 1), (1, 1)], [2], 'ab@')
        add([3], [(1, 1), (1, 1)], [3])
        add([2, 2], [(1, 1)], [2])
        add([1, 1, 2], [(1, 1)], [1, 2], 'a@b')
        add([3, 3], [(1, 1), (2, 1)], [3], 'ab@', 3)
    return out
