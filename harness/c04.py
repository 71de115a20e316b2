"""C04: BPE learning always merges a most frequent pair."""
from sx import api as A
from harness.bpe_ref import apply_merge, count_pairs

NOSPACE = [(0, 31), (33, 0xD7FF), (0xE000, 0x10FFFF)]
ASSUMPTIONS = ['vocabulary entries are distinct, symbols non-empty without space, entries end with the symbol "@" as the '
               'learner prepares them']


def learn(lens, n_merges, dom, maxf, esc=False, fixed=()):
    do_merges = A.bind('codeprep.bpepkg.bpe_learn', 'do_merges')
    words = []
    vocab = {}
    for k, n in enumerate(lens):
        syms = []
        for i in range(n):
            if esc and A.flag('esc%d_%d' % (k, i)):
                syms.append('@@')
            else:
                syms.append(A.string('w%d_%d' % (k, i), 1, dom))
        syms.append('@')
        for o, _ in words:
            if len(o) == len(syms):
                A.assume(A.neg(' '.join(o) == ' '.join(syms)))
        f = A.integer('f%d' % k, 1, maxf)
        words.append((syms, f))
        vocab[' '.join(syms)] = f
    for w, f in fixed:
        syms = w.split(' ') + ['@']
        for o, _ in words[:len(lens)]:
            if len(o) == len(syms):
                A.assume(A.neg(' '.join(o) == ' '.join(syms)))
        words.append((syms, f))
        vocab[' '.join(syms)] = f
    out, merges = do_merges(vocab, n_merges)
    ms = [m for m in merges]
    A.observe([[m.pair[0], m.pair[1], m.freq, m.priority] for m in ms], [[k, v] for k, v in out.items()])
    A.check(len(ms) <= n_merges, 'more merges than asked for')
    cur = words
    for i, m in enumerate(ms):
        A.check_eq(m.priority, i, 'merges not numbered consecutively')
        counts = count_pairs(cur)
        best = None
        for p, c in counts:
            if A.decide(A.conj(p[0] == m.pair[0], p[1] == m.pair[1])):
                best = c
        A.check(best is not None, 'merged pair does not occur')
        A.check(best == m.freq, 'recorded frequency is not the total of the pair')
        for p, c in counts:
            A.check(c <= best, 'a more frequent pair was not merged')
        cur = [(apply_merge(m.pair, s), f) for s, f in cur]
    if len(ms) < n_merges:
        for s, f in cur:
            A.check(len(s) == 1, 'stopped although a pair is left')
    A.check(len(out) == len(cur), 'a word was lost')
    for (s, f), (k, v) in zip(cur, out.items()):
        A.check(A.conj(' '.join(s) == k, f == v), 'resulting segmentation')


ALL = [(0, 31), (33, 63), (65, 0xD7FF), (0xE000, 0x10FFFF)]


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(lens, m, dom=None, maxf=10 ** 6, esc=False):
        out.append(('w%s-m%d%s%s' % ('-'.join(map(str, lens)), m, '' if dom is None else '-' + dom, '-esc' if esc else ''), learn,
                    dict(lens=lens, n_merges=m, dom=dom or ALL, maxf=maxf, esc=esc),
                    dict(bounds='%d words with %s symbols (over %s)%s, frequencies 1..%d, up to %d merges' % (
                        len(lens), lens, 'all characters' if dom is None else dom, ' or the escaped @' if esc else '', maxf, m))))
    add([1], 2, esc=True)
    add([2], 3, esc=True)
    add([3], 4, esc=True)
    add([4], 5, esc=True)
    add([1, 1], 3, esc=True)
    add([2, 1], 3, esc=True)
    add([2, 2], 3)
    add([5], 6)
    add([6], 7)
    add([7], 8)
    add([8], 9, 'ab')
    add([3, 2], 5)
    add([3, 3], 4)
    add([4, 2], 4)
    add([1, 1, 1], 3)
    add([2, 2, 1], 4)
    # bigger vocabularies, most of them fixed
    CODE = 'get set value index name size item node list map key count next prev parent child left right'.split()
    for k, (lens, m, dom, maxf, words, fr) in enumerate([
            ([2], 14, 'ge', 40, CODE[:6], [7, 7, 3, 11, 9, 2]),
            ([1], 60, 'tqv', 20, CODE, [5 + 3 * (i % 4) for i in range(18)]),
            ([3], 6, 'an', 10 ** 12, CODE[:8], [10 ** 9] * 8),
            ([1], 110, 'x', 3, ['ab' * 12, 'a' * 33, 'abc' * 11, 'b' * 9 + 'a' * 9], [1, 2, 1, 3]),
            ([1], 12, 'ab', 2000, ['a' * 40, 'ab' * 20, 'b' * 21], [1000, 500, 33])] + ([] if q else [
            ([2], 300, 'gt', 40, [a + b for a in CODE for b in CODE[:4]], [1 + (i * 7) % 23 for i in range(72)]),
            ([3], 30, 'ab', 100, ['ab' * 10, 'ba' * 9, 'aab' * 8], [3, 4, 5])])):
        fixed = [(' '.join(w), f) for w, f in zip(words, fr)]
        out.append(('big-%d' % k, learn, dict(lens=lens, n_merges=m, dom=dom, maxf=maxf, fixed=fixed),
                    dict(bounds='%d fixed words with fixed frequencies and a word of %s symbols over %s, frequency 1..%d, up to %d merges'
                                % (len(words), lens, dom, maxf, m))))
    if not q:
        add([8], 9)
        add([9], 10, 'abc')
        add([10], 11, 'ab')
        add([4, 3], 5)
        add([4, 4], 6, 'abc')
        add([5, 2], 5)
        add([2, 2, 2], 4)
        add([3, 2, 2], 4, 'abc')
        add([1, 1, 1, 1], 4)
    return out
