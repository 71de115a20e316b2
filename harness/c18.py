"""C18: subtoken and full-token iteration agree."""
from sx import api as A

ASSUMPTIONS = ['every word described by the boundaries has at least one subtoken (the boundaries strictly increase)']


def iterate(n, k, maker, step=None):
    Sub, Full = A.bind('codeprep.subtokens', 'SubtokenIterator', 'FullTokenIterator')
    if maker == 'strings':
        subs = [A.string('s%d' % i, 1 + i % 2) if not step or i % 60 == 7 else 's%d' % i for i in range(n)]
    else:
        subs = [A.integer('s%d' % i, -1000, 1000) if not step or i % 60 == 7 else i for i in range(n)]
    b = [0]
    for i in range(k):
        if step and (i + 1) % 40:
            b.append(b[-1] + 1 + (i * step) % 3)
            continue
        x = A.integer('b%d' % i, 1, n)
        A.assume(x > b[-1])
        if step:
            A.assume(x < b[-1] + 3)
        b.append(x)
    if step:
        n = A.concrete(b[-1])
        subs = subs[:n]
    A.assume(b[-1] == n)
    fmt = {} if maker == 'strings' else {'format': lambda l: list(l)}
    words = []
    word_of = []
    for i in range(k):
        lo, hi = A.concrete(b[i]), A.concrete(b[i + 1])
        words.append(subs[lo:hi])
        word_of += [i] * (hi - lo)
    got = list(Sub(subs, b, **fmt))
    A.check_eq(got, subs if maker == 'strings' else [[s] for s in subs], 'subtokens')
    got = list(Sub(subs, b, return_full_token_index=True, **fmt))
    A.check_eq([[x[0], x[1]] for x in got], [[w, s if maker == 'strings' else [s]] for w, s in zip(word_of, subs)], 'subtokens with the index of their word')
    exp = [''.join(w) for w in words] if maker == 'strings' else words
    full = list(Full(subs, b, **fmt))
    A.check_eq(full, exp, 'full tokens')
    fulli = list(Full(subs, b, return_full_token_index=True, **fmt))
    A.check_eq([[x[0], x[1]] for x in fulli], [[i, e] for i, e in enumerate(exp)], 'full tokens with their index')
    A.observe(got, full)
    # one at a time, and two iterators over the same lists do not disturb each other
    i1, i2 = Sub(subs, b, return_full_token_index=True, **fmt), Full(subs, b, return_full_token_index=True, **fmt)
    r1 = []
    r2 = []
    for j in range(max(n, k)):
        if j < n:
            r1.append(next(i1))
        if j < k:
            r2.append(next(i2))
    A.check_eq([[x[0], x[1]] for x in r1], [[x[0], x[1]] for x in got], 'iterators used in turn')
    A.check_eq([[x[0], x[1]] for x in r2], [[x[0], x[1]] for x in fulli], 'iterators used in turn')
    A.check(A.raises(StopIteration, lambda: next(i1)), 'subtoken iterator goes on')
    A.check(A.raises(StopIteration, lambda: next(i2)), 'full-token iterator goes on')


def inconsistent(n, k):
    """boundaries that do not start at 0 or do not end at the number of subtokens are rejected"""
    Sub, Full = A.bind('codeprep.subtokens', 'SubtokenIterator', 'FullTokenIterator')
    subs = ['x'] * n
    b = [A.integer('b%d' % i, -1, n + 2) for i in range(k)]
    for f in (Sub, Full):
        for idx in (False, True):
            ok = True
            try:
                f(subs, b, return_full_token_index=idx)
            except ValueError:
                ok = False
            if k == 0:
                A.check(not ok, 'empty boundaries accepted')
            else:
                A.check(A.iff(ok, A.conj(b[0] == 0, b[-1] == n)), 'boundaries checked')


def jobs(tier):
    q = tier == 'quick'
    out = []
    N = 5 if q else 8
    for n in range(0, N + 1):
        for k in range(0 if n == 0 else 1, n + 1):
            for maker in ('strings', 'numbers'):
                out.append(('%s-%d-in-%d' % (maker, n, k), iterate, dict(n=n, k=k, maker=maker),
                            dict(bounds='%d subtokens (%s) in %d words, all boundaries' % (n, maker, k))))
    for k, step in [(41, 1), (121, 2)] + ([] if q else [(401, 1), (1100, 2)]):
        for maker in ('strings', 'numbers'):
            out.append(('%s-many-%d' % (maker, k), iterate, dict(n=3 * k + 3, k=k, maker=maker, step=step),
                        dict(bounds='%d words, every fortieth of one or two subtokens, the others fixed; every sixtieth subtoken any' % k)))
    for n in range(0, 4 if q else 6):
        for k in range(0, 4 if q else 6):
            out.append(('inconsistent-%d-%d' % (n, k), inconsistent, dict(n=n, k=k), dict(bounds='%d subtokens, %d boundaries -1..%d' % (n, k, n + 2))))
    return out
