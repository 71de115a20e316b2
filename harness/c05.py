"""C05: BPE learning and BPE encoding agree."""
from sx import api as A

ALL = [(0, 31), (33, 63), (65, 0xD7FF), (0xE000, 0x10FFFF)]
ASSUMPTIONS = ['training words are distinct and prepared as the learner prepares them (escaped, "@" at the end)']


def agree(lens, n_merges, dom, maxf, esc, fixed=()):
    do_merges, mkcache, mkvocab = A.bind('codeprep.bpepkg.bpe_learn', 'do_merges', 'create_bpe_cache', 'create_resulting_vocab')
    enc, escape = A.bind('codeprep.bpepkg.bpe_encode', 'encode_word', 'escape')
    words = []
    vocab = {}
    freqs = []
    for k, n in enumerate(lens):
        w = A.string('w%d' % k, n, [(0, 31), (33, 0xD7FF), (0xE000, 0x10FFFF)] if esc else dom)
        for o in words:
            A.assume(A.neg(o == w))
        words.append(w)
        f = A.integer('f%d' % k, 1, maxf)
        freqs.append(f)
        vocab[escape(' '.join(w))] = f
    for w, f in fixed:
        for o in words[:len(lens)]:
            A.assume(A.neg(o == w))
        words.append(w)
        freqs.append(f)
        vocab[escape(' '.join(w))] = f
    out, merges = do_merges(vocab, n_merges)
    cache = mkcache(out)
    res = mkvocab(out)
    segs = [e.split(' ') for e in out]
    A.check(len(segs) == len(words), 'words lost')
    A.observe(segs, [[m.pair[0], m.pair[1]] for m in merges])
    for w, f, seg in zip(words, freqs, segs):
        e = escape(w, merged=True)
        A.check(''.join(seg) == e, 'segmentation of another word')
        A.check_eq(list(enc(e, merges)), seg, 'encoding a training word gives another segmentation than learning left')
        A.check(e in cache, 'training word is not in the cache')
        A.check_eq(list(cache[e]), seg, 'cached segmentation')
    A.check(len(cache) == len(words), 'cache has other words')
    # resulting vocabulary
    exp = []
    for f, seg in zip(freqs, segs):
        for s in seg:
            for x in exp:
                if A.decide(x[0] == s):
                    x[1] = x[1] + f
                    break
            else:
                exp.append([s, f])
    A.check(len(res) == len(exp), 'resulting vocabulary')
    for s, f in exp:
        A.check(s in res, 'subword missing from the resulting vocabulary')
        A.check_eq(res[s], f, 'count in the resulting vocabulary')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(lens, m, dom=None, maxf=10 ** 6, esc=False):
        out.append(('w%s-m%d%s%s' % ('-'.join(map(str, lens)), m, '' if dom is None else '-' + dom, '-esc' if esc else ''), agree,
                    dict(lens=lens, n_merges=m, dom=dom or ALL, maxf=maxf, esc=esc),
                    dict(bounds='%d training words of %s characters (%s), frequencies 1..%d, up to %d merges' % (
                        len(lens), lens, 'all but space' if esc else 'all but space and @' if dom is None else dom, maxf, m))))
    add([1], 1, esc=True)
    add([1], 2, esc=True)
    add([2], 2, esc=True)
    add([2], 3, esc=True)
    add([3], 2, esc=True)
    add([3], 4)
    add([4], 3)
    add([4], 5)
    add([5], 6)
    add([6], 7)
    add([8], 9, 'ab')
    add([1, 1], 2, esc=True)
    add([2, 1], 3, esc=True)
    add([2, 2], 3)
    add([3, 2], 3)
    add([3, 3], 4, 'abc')
    add([1, 1, 1], 3)
    add([2, 2, 1], 4, 'ab')
    CODE = 'get set value index name size item node list map key count next prev parent child left right'.split()
    for k, (lens, m, dom, maxf, words, fr) in enumerate([
            ([2], 14, 'ge', 40, CODE[:6], [7, 7, 3, 11, 9, 2]),
            ([1], 60, 'tqv', 20, CODE, [5 + 3 * (i % 4) for i in range(18)]),
            ([1], 110, 'x@', 3, ['ab' * 12, 'a' * 33, 'abc' * 11, '@' * 9 + 'a' * 9, '@' * 20], [1, 2, 1, 3, 1]),
            ([1], 12, 'ab', 2000, ['a' * 40, 'ab' * 20, 'b' * 21], [1000, 500, 33])] + ([] if q else [
            ([2], 300, 'gt', 40, [a + b for a in CODE for b in CODE[:4]], [1 + (i * 7) % 23 for i in range(72)]),
            ([3], 30, 'ab@', 100, ['ab' * 10, 'b@' * 9, 'a@@b' * 8], [3, 4, 5])])):
        out.append(('big-%d' % k, agree, dict(lens=lens, n_merges=m, dom=dom, maxf=maxf, esc=False, fixed=list(zip(words, fr))),
                    dict(bounds='%d fixed words with fixed frequencies and a word of %s characters over %s, frequency 1..%d, up to %d '
                                'merges' % (len(words), lens, dom, maxf, m))))
    if not q:
        add([3], 4, esc=True)
        add([2, 2], 3, esc=True)
        add([7], 8)
        add([3, 2], 5)
        add([3, 3], 4)
        add([4, 3], 5, 'abc')
        add([4, 4], 6, 'ab')
        add([2, 2, 1], 4)
        add([2, 2, 2], 3)
    return out
