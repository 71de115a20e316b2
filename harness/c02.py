"""C02: BPE encoding follows the merge order exactly."""
from sx import api as A
from harness.bpe_ref import encode_ref
from harness.c01 import mk_merges, NOSPACE

ASSUMPTIONS = ['merge lists with pairwise different pairs of non-empty symbols without space',
               'a word longer than the bound behaves like the shorter ones except for the separate >5000 symbols code path, '
               'which is entered with the threshold crossed by the symbolic word repeated']


def order(n, shapes, dom, stretch=0):
    enc = A.bind('codeprep.bpepkg.bpe_encode', 'encode_word')
    merges = mk_merges(shapes, dom)
    w = A.string('w', n, dom)
    if stretch:
        w = w + 'x' * stretch
    pairs = [m.pair for m in merges]
    # the unit the encoder works on: characters, with a doubled escape character as one symbol
    syms = []
    i = 0
    while i < len(w):
        if i + 1 < len(w) and A.decide(A.conj(w[i] == '@', w[i + 1] == '@')):
            syms.append(w[i:i + 2])
            i += 2
        elif A.decide(A.conj(w[i] == '@', i + 1 < len(w))):
            A.assume(False)     # not the output of escape()
        else:
            syms.append(w[i])
            i += 1
    r = enc(w, merges)
    A.observe(list(r) if not stretch else len(r))
    exp = encode_ref(syms, pairs)
    A.check(len(r) == len(exp), 'segmentation')
    for a, b in zip(r, exp):
        A.check(a == b, 'segmentation')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(n, shapes, dom=None, stretch=0):
        out.append(('n%d-%s%s%s' % (n, shapes, '' if dom is None else '-' + dom, '-long' if stretch else ''), order,
                    dict(n=n, shapes=shapes, dom=dom or NOSPACE, stretch=stretch),
                    dict(bounds='word of %d characters over %s%s, %d merges with symbol lengths %s' % (
                        n, 'all characters' if dom is None else dom,
                        '' if not stretch else ' followed by %d fixed ones' % stretch, len(shapes), shapes))))
    add(1, [(1, 1)])
    add(2, [(1, 1)])
    add(3, [(1, 1)])
    add(3, [(1, 1), (1, 1)])
    add(3, [(1, 1), (2, 1)])
    add(3, [(1, 1), (1, 2)])
    add(3, [(2, 1), (1, 1)])
    add(4, [(1, 1), (1, 1)])
    add(4, [(1, 1), (2, 2)])
    add(4, [(1, 1), (1, 2)])
    add(4, [(1, 1), (1, 1), (1, 1)])
    add(4, [(1, 1), (2, 1), (1, 1)])
    add(5, [(1, 1)])
    add(5, [(1, 1), (1, 1)])
    add(5, [(1, 1), (2, 1)])
    add(5, [(2, 1), (1, 1), (1, 2)])
    add(6, [(1, 1), (2, 1)])
    add(6, [(1, 1), (2, 2), (1, 1)], 'ab')
    add(7, [(1, 1), (2, 1), (3, 1)], 'ab')
    add(8, [(1, 1), (2, 2), (4, 4)], 'ab')
    add(2, [(1, 1)], None, 150)
    add(2, [(1, 1), (2, 1)], 'xy', 300)
    add(1, [(1, 1)], 'xy', 5003)
    if not q:
        add(4, [(1, 1), (1, 1), (1, 1), (1, 1)])
        add(5, [(1, 1), (1, 1), (1, 1)])
        add(5, [(1, 1), (2, 1), (1, 2)])
        add(6, [(1, 1), (1, 1)])
        add(6, [(1, 1), (1, 1), (2, 2)])
        add(7, [(1, 1), (2, 1), (1, 1)])
        add(8, [(1, 1), (2, 2), (1, 1)], 'abc')
        add(9, [(1, 1), (2, 1), (3, 3)], 'ab')
        add(10, [(1, 1), (2, 2), (4, 1)], 'ab')
        add(2, [(1, 1), (1, 1)], None, 600)
        add(2, [(1, 1), (2, 2)], 'xy', 5003)
    return out
