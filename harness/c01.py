"""C01: BPE encoding loses no characters."""
from sx import api as A

NOSPACE = [(0, 31), (33, 0xD7FF), (0xE000, 0x10FFFF)]
ASSUMPTIONS = ['merge symbols are non-empty strings without the space character']


def mk_merges(shapes, dom=NOSPACE):
    MergeList, Merge = A.bind('codeprep.bpepkg.merge', 'MergeList', 'Merge')
    ml = MergeList()
    for i, (a, b) in enumerate(shapes):
        p = (A.string('m%da' % i, a, dom), A.string('m%db' % i, b, dom))
        for q in ml:
            A.assume(A.neg(A.conj(q.pair[0] == p[0], q.pair[1] == p[1])))
        ml.append(Merge(p, freq=1, priority=i))
    return ml


def lossless(n, shapes, cached, dom=NOSPACE):
    get, BpeData, enc, escape = A.bind('codeprep.bpepkg.bpe_encode', 'get_bpe_subwords', 'BpeData', 'encode_word', 'escape')
    merges = mk_merges(shapes, dom)
    cache = {}
    if cached is not None:
        w2 = A.string('c', cached, dom)
        e = escape(w2, merged=True)
        cache[e] = enc(e, merges)
    w = A.string('w', n, dom)
    r = get(w, BpeData(merges_cache=cache, merges=merges))
    A.observe(list(r))
    A.check(''.join(r) == w, 'subwords do not concatenate to the word')
    for x in r[:-1]:
        A.check(len(x) > 0, 'empty subword')


def long(n, shapes, dom, pre, post, fixed, cached):
    """a long word, most of it fixed, with many fixed merges and some of any symbols"""
    get, BpeData, enc, escape = A.bind('codeprep.bpepkg.bpe_encode', 'get_bpe_subwords', 'BpeData', 'encode_word', 'escape')
    Merge = A.bind('codeprep.bpepkg.merge', 'Merge')
    merges = mk_merges(shapes, dom)
    for i, p in enumerate(fixed):
        for q in merges:
            A.assume(A.neg(A.conj(q.pair[0] == p[0], q.pair[1] == p[1])))
        merges.append(Merge(p, freq=1, priority=len(shapes) + i))
    w = pre + A.string('w', n, dom) + post
    cache = {}
    if cached:
        e = escape(w, merged=True)
        cache[e] = enc(e, merges)
    r = get(w, BpeData(merges_cache=cache, merges=merges))
    A.observe(list(r))
    A.check(''.join(r) == w, 'subwords do not concatenate to the word')
    for x in r[:-1]:
        A.check(len(x) > 0, 'empty subword')


# a fixed merge list of a few hundred merges: every pair of letters of a small alphabet, then pairs of pairs
PAIRS = [(x, y) for x in 'abcdefghij' for y in 'abcdefghij'] + [(x + 'a', 'b' + y) for x in 'abcdefghij' for y in 'abcdefghij']


def jobs(tier):
    out = []
    q = tier == 'quick'
    for n in range(0, 4 if q else 5):
        for shapes in ([], [(1, 1)], [(1, 1), (2, 1)], [(1, 1), (1, 1)]) + (() if q else ([(1, 1), (1, 2), (2, 1)],)):
            if n == 0 and len(shapes) > 1:
                continue
            out.append(('plain-n%d-%s' % (n, shapes), lossless, dict(n=n, shapes=shapes, cached=None),
                        dict(bounds='word of %d characters, %d merges with symbol lengths %s' % (n, len(shapes), shapes))))
    def add(n, shapes, dom):
        out.append(('plain-n%d-%s-%s' % (n, shapes, ascii(dom)[1:-1]), lossless, dict(n=n, shapes=shapes, cached=None, dom=dom),
                    dict(bounds='word of %d characters and merge symbols of lengths %s over "%s"' % (n, shapes, dom))))
    add(3, [(2, 1)], '@a')
    add(3, [(2, 2)], '@ab')
    add(4, [(2, 2), (1, 2)], '@ab')
    add(4, [(2, 2), (4, 2)], '@ab')
    add(5, [(2, 2), (1, 1)], '@a\n')
    add(6, [(2, 2), (4, 4)], '@\u00e9')
    add(6, [(1, 1), (2, 2)], 'ab@')
    add(4, [(1, 1), (2, 1), (3, 1)], 'ab@')
    if not q:
        add(5, [(1, 1), (2, 2), (1, 2)], 'ab@')
        add(7, [(2, 2), (4, 4), (2, 1)], 'a@')
        add(8, [(1, 1), (2, 2), (4, 4)], 'ab@')
        add(5, [(1, 1), (1, 1), (2, 2), (2, 1)], 'ab@')
        out.append(('plain-n4-wide', lossless, dict(n=4, shapes=[(2, 2), (2, 1)], cached=None),
                    dict(bounds='word of 4 characters, merges with symbol lengths 2+2 and 2+1')))
        out.append(('plain-n5-wide', lossless, dict(n=5, shapes=[(1, 1), (2, 1)], cached=None),
                    dict(bounds='word of 5 characters, merges with symbol lengths 1+1 and 2+1')))
    for k, (n, shapes, dom, pre, post, nf, cached) in enumerate([
            (2, [(1, 1)], 'ab@\xe9', 'ab' * 35, 'ba' * 35, 5, False),
            (1, [(2, 1)], 'ab@', 'a@' * 60, 'b' * 30, 40, False),
            (2, [], None, 'abcdefghij' * 13, '@@' * 10, 200, False),
            (1, [(1, 1)], 'ab\n', 'a' * 270, '', 10, True),
            (1, [], None, '', 'xyz' * 350, 200, False),
            (1, [], 'ab@', 'ab' * 1100, 'q', 12, False),
            (1, [], 'ab@', 'a', '\xe9' * 5003, 3, False)] + ([] if q else [
            (3, [(1, 1), (2, 1)], 'ab@', 'ab' * 70, 'ba' * 70, 100, False),
            (2, [(1, 1)], None, '\n\t' * 300, '@' * 500, 200, True)])):
        out.append(('long-%d' % k, long, dict(n=n, shapes=shapes, dom=dom or NOSPACE, pre=pre, post=post, fixed=PAIRS[:nf],
                                              cached=cached),
                    dict(bounds='word of %d fixed, %d characters over %s, %d fixed characters; %d fixed merges after merges of symbol '
                                'lengths %s%s' % (len(pre), n, dom or 'all characters', len(post), nf, shapes,
                                                  ', cached' if cached else ''))))
    for n in range(0, 3):
        out.append(('cached-n%d' % n, lossless, dict(n=n, shapes=[(1, 1)], cached=n),
                    dict(bounds='word and cached word of %d characters, 1 merge' % n)))
    return out
