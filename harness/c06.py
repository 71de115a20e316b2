"""C06: merge lists survive writing and reading and keep their order."""
from sx import api as A
from harness import vfs

NOSP = [(0, 31), (33, 0xD7FF), (0xE000, 0x10FFFF)]
ASSUMPTIONS = ['symbols are Unicode scalar values without the space character; the pairs of a list are distinct',
               'the file is read with the encoding it was written with']


def _pairs(name, shape, dom):
    ps = [(A.string('%s%da' % (name, i), a, dom), A.string('%s%db' % (name, i), b, dom)) for i, (a, b) in enumerate(shape)]
    for i in range(len(ps)):
        for j in range(i):
            A.assume(A.neg(A.conj(ps[i][0] == ps[j][0], ps[i][1] == ps[j][1])))
    return ps


def _freq(name, freqs):
    if freqs == 'none' or (freqs == 'some' and A.flag(name + 'none')):
        return None
    return A.integer(name, 0, 10 ** 9 if freqs == 'big' else 99)


def _list(ps, fs):
    ML, M = A.bind('codeprep.bpepkg.merge', 'MergeList', 'Merge')
    r = ML()
    for p, f in zip(ps, fs):
        r.append(M(p, f))
    return r


def _same(ml, ps, fs, what):
    got = [m for m in ml]
    A.check(len(got) == len(ps), what + ': number of merges')
    A.check(len(ml) == len(ps), what + ': length')
    for i, m in enumerate(got):
        A.check_eq(tuple(m.pair), ps[i], what + ': pair')
        A.check(m.priority == i, what + ': priority')
        A.check(A.conj(ps[i] in ml, ml.get_priority(ps[i]) == i), what + ': lookup')
        if fs[i] is None:
            A.check(m.freq is None, what + ': frequency')
        else:
            A.check(m.freq is not None, what + ': frequency')
            A.check(m.freq == fs[i], what + ': frequency')
        A.observe(tuple(m.pair), m.priority, m.freq)


def file(shape, dom, freqs, limit):
    dump, read = A.bind('codeprep.bpepkg.merge', 'dump_merges', 'read_merges')
    fs = vfs.fresh()
    ps = _pairs('p', shape, dom)
    fr = [_freq('f%d' % i, freqs) for i in range(len(ps))]
    ml = _list(ps, fr)
    path = fs.home + '/merges.txt'
    dump(ml, path)
    _same(ml, ps, fr, 'the written list')
    if limit:
        n = A.integer('n', 1, len(ps) + 2)
        r = read(path, n)
        k = A.concrete(n)
        _same(r, ps[:k], fr[:k], 'the list read with a limit')
    else:
        r = read(path)
        _same(r, ps, fr, 'the list read')
        A.check(r == ml, 'the list read is not equal')


def frequencies(values):
    """frequencies of any size"""
    dump, read = A.bind('codeprep.bpepkg.merge', 'dump_merges', 'read_merges')
    fs = vfs.fresh()
    ps = [('a', 'b'), ('ab', A.string('x', 1, 'cd'))]
    fr = [A.pick('f0', values), A.pick('f1', values)]
    ml = _list(ps, fr)
    path = fs.home + '/merges.txt'
    dump(ml, path)
    r = read(path)
    _same(r, ps, fr, 'the list read')
    A.check(r == ml, 'the list read is not equal')
    dump(r, path)
    _same(read(path), ps, fr, 'the list read again')


FIXED = [(x, y) for x in 'abcdefghijkl' for y in 'abcdefghijkl'] + [('q' + x, '\xe9' * 3) for x in 'abcdefgh'] + [('z' * 150, 'y' * 90)]


def big(dom, nf, limit, at):
    """a long list, one merge of which is any"""
    dump, read = A.bind('codeprep.bpepkg.merge', 'dump_merges', 'read_merges')
    fs = vfs.fresh()
    ps = list(FIXED[:nf])
    ps[at:at] = [(A.string('a', 1, dom), A.string('b', 1, dom))]
    for i, p in enumerate(ps):
        if i != at:
            A.assume(A.neg(A.conj(p[0] == ps[at][0], p[1] == ps[at][1])))
    fr = [None if i % 50 == 7 else 10 ** 7 // (i + 1) for i in range(len(ps))]
    fr[at] = A.integer('f', 0, 10 ** 9)
    ml = _list(ps, fr)
    path = fs.home + '/merges.txt'
    dump(ml, path)
    if limit:
        n = A.integer('n', 1, len(ps) + 2) if limit is True else limit[A.choice('n', len(limit))]
        r = read(path, n)
        k = min(A.concrete(n), len(ps))
        _same(r, ps[:k], fr[:k], 'the list read with a limit')
    else:
        r = read(path)
        _same(r, ps, fr, 'the list read')
        A.check(r == ml, 'the list read is not equal')
    A.observe(len(r))


def append(n, dom):
    ML, M = A.bind('codeprep.bpepkg.merge', 'MergeList', 'Merge')
    ps = _pairs('p', [(1, 1)] * n, dom)
    ml = ML()
    kept = []
    freqs = []
    for i in range(n):
        f = A.integer('f%d' % i, 0, 10 ** 9)
        p = None if A.flag('free%d' % i) else A.integer('prio%d' % i, -2, n + 2)
        try:
            r = ml.append(M(ps[i], f, p))
        except ValueError:
            A.check(p is not None, 'a merge without priority is rejected')
            A.check(p != len(kept), 'the next priority is rejected')
        else:
            if p is not None:
                A.check(p == len(kept), 'a wrong priority is accepted')
            A.check(r is ml, 'append returns the list')
            kept.append(ps[i])
            freqs.append(f)
        _same(ml, kept, freqs, 'list')


def join(a, b, dom):
    ps = _pairs('p', [(1, 1)] * (a + b), dom)
    fr = [A.integer('f%d' % i, 0, 10 ** 9) for i in range(a + b)]
    x = _list(ps[:a], fr[:a])
    y = _list(ps[a:], fr[a:])
    z = x + y
    _same(z, ps, fr, 'joined')
    _same(x, ps[:a], fr[:a], 'first operand')
    _same(y, ps[a:], fr[a:], 'second operand')
    # and the result is a list of its own
    M = A.bind('codeprep.bpepkg.merge', 'Merge')
    p = (A.string('qa', 1, dom), A.string('qb', 1, dom))
    for q in ps:
        A.assume(A.neg(A.conj(p[0] == q[0], p[1] == q[1])))
    z.append(M(p, 5))
    _same(x, ps[:a], fr[:a], 'first operand later')
    _same(y, ps[a:], fr[a:], 'second operand later')
    _same(z, ps + [p], fr + [5], 'joined and extended')
    A.check((x == y) == (a == b == 0), 'equality of different lists')


def join_big(a, b, dom):
    ps = list(FIXED[:a + b])
    for k in (a - 1, a + b - 1):
        p = (A.string('l%d' % k, 1, 'xyz'), A.string('r%d' % k, 1, dom))
        ps[k] = p
    A.assume(A.neg(A.conj(ps[a - 1][0] == ps[-1][0], ps[a - 1][1] == ps[-1][1])))
    fr = [A.integer('f%d' % i, 0, 10 ** 9) if i in (0, a + b - 1) else i + 1 for i in range(a + b)]
    x = _list(ps[:a], fr[:a])
    y = _list(ps[a:], fr[a:])
    z = x + y
    _same(z, ps, fr, 'joined')
    _same(x, ps[:a], fr[:a], 'first operand')
    _same(y, ps[a:], fr[a:], 'second operand')


def slices(n, dom):
    ps = _pairs('p', [(1, 1)] * n, dom)
    fr = [A.integer('f%d' % i, 0, 10 ** 9) for i in range(n)]
    ml = _list(ps, fr)
    i = A.choice('i', 2 * n + 1) - n
    j = A.choice('j', 2 * n + 1) - n
    A.check_eq([m.pair for m in ml[i:j]], ps[i:j], 'slice')
    A.check_eq([m.pair for m in ml[:j]], ps[:j], 'slice')
    if -n <= i < n:
        A.check_eq(ml[i].pair, ps[i], 'item')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    S = '\t\n\\ nxu0\xa0\x85\u2028\r\x1c\x0b\U0001f600@</t>'.replace(' ', '')

    def addf(shape, dom=None, freqs='int', limit=False):
        add('file-%s-%s-%s%s' % (shape, freqs, 'all' if dom is None else 'some', '-limit' if limit else ''), file,
            '%d merges with symbols of %s characters over %s, %s' % (len(shape), shape, 'all characters but space' if dom is None
                                                                     else repr(dom), 'every limit' if limit else 'no limit'),
            shape=shape, dom=dom or NOSP, freqs=freqs, limit=limit)
    fv = [0, 1, 9, 10, 99, 10 ** 4, 10 ** 6 + 1, 2 ** 31, 2 ** 53 + 1, 2 ** 64 - 1, 10 ** 21, 10 ** 30 + 7]
    add('frequencies', frequencies, 'two frequencies of %s' % fv, values=fv)
    addf([])
    addf([(1, 1)])
    addf([(0, 1)])
    addf([(1, 1)], freqs='big', dom='ab')
    addf([(1, 1)], freqs='none', dom='ab')
    addf([(2, 1)], S)
    addf([(1, 2)], S)
    addf([(1, 1), (1, 1)], S[:9])
    addf([(1, 1), (1, 1)], 'ab\n', 'some')
    addf([(1, 1), (1, 1), (1, 1)], 'a\xe9', 'int', True)
    addf([(1, 1), (1, 1)], 'ab\\', 'some', True)
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        add('append-%d' % n, append, '%d appended merges over any characters, without or with any priority in -2..%d' % (n, n + 2),
            n=n, dom=NOSP)
    for a, b in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)] + ([] if q else [(3, 2), (3, 3)]):
        add('join-%d-%d' % (a, b), join, 'lists of %d and %d merges of any characters' % (a, b), a=a, b=b, dom=NOSP)
    for k, (dom, nf, limit, at) in enumerate([('ab\n\t', 24, True, 3), ('xy\xa0', 152, (9, 10, 11, 99, 100, 101, 153), 20),
                                              ('\\\x85', 152, None, 140)] + ([] if q else [(NOSP, 152, None, 11)])):
        add('big-%d' % k, big, 'a list of %d fixed merges and one with a symbol pair over %s at position %d%s' % (
            nf, 'all characters' if dom is NOSP else ascii(dom), at, ', limits %s' % (limit,) if limit else ''),
            dom=dom, nf=nf, limit=limit, at=at)
    add('join-12-11', join_big, 'fixed lists of 12 and 11 merges, one merge of any characters in each', a=12, b=11, dom=NOSP)
    add('join-120-3', join_big, 'fixed lists of 120 and 3 merges, one merge of any characters in each', a=120, b=3, dom=NOSP)
    for n in (1, 3):
        add('slice-%d' % n, slices, '%d merges, all slice bounds' % n, n=n, dom=NOSP)
    if not q:
        addf([(2, 2)])
        addf([(1, 1), (1, 1)])
        addf([(3, 2)], S)
        addf([(1, 1), (1, 1), (1, 1)], S[:6], 'some')
        addf([(1, 1)] * 5, 'ab\xe9', 'int', True)
    return out
