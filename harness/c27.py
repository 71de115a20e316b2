"""C27: the pair queue always returns the pair with the highest count."""
from sx import api as A

ASSUMPTIONS = ['pairs are pairs of strings and counts are integers, as in BPE learning',
               'reference: an association list of accumulated counts; order among equal counts is only fixed when '
               'each of the equal pairs was added once']


def queue(init, ops, vals, npairs):
    PC = A.bind('codeprep.util', 'PriorityCounter')
    names = [(A.string('p%da' % i, 1, 'abc'), A.string('p%db' % i, 1, 'abc')) if vals == 'sym' else ('p%d' % i, 'q')
             for i in range(npairs)]
    if vals == 'sym':
        for i in range(npairs):
            for j in range(i):
                A.assume(A.neg(A.conj(names[i][0] == names[j][0], names[i][1] == names[j][1])))
    ref = {}       # index -> [count, time of addition, times updated]
    t = 0
    d = {}
    for i in range(init):
        v = A.integer('i%d' % i, 0, 10 ** 9) if vals != 'pos' else A.integer('i%d' % i, 1, 10 ** 9)
        if vals != 'pos':
            A.assume(v > 0)
        d[names[i]] = v
        ref[i] = [v, t, 1]
        t += 1
    q = PC(d)
    obs = []

    def pop():
        try:
            r = q.pop_pair()
        except KeyError:
            A.check(not ref, 'key error although a pair is present')
            obs.append(None)
            return
        p, c = r
        k = -1
        for i in ref:
            if A.decide(A.conj(p[0] == names[i][0], p[1] == names[i][1])):
                k = i
        A.check(k >= 0, 'returned a pair that is not present')
        obs.append([k, c])
        A.check(c == ref[k][0], 'returned count is not the accumulated count')
        for i in ref:
            A.check(ref[i][0] <= c, 'a pair with a higher count is present')
            if i != k and ref[i][2] == 1 and ref[k][2] == 1 and ref[i][1] < ref[k][1]:
                A.check(ref[i][0] < c, 'an equal pair was added earlier')
        del ref[k]

    for n in range(ops):
        op = A.choice('op%d' % n, 3)
        if op == 0:
            i = A.choice('a%d' % n, npairs)
            v = A.integer('v%d' % n, -10 ** 9, 10 ** 9)
            q.add(names[i], v)
            if i in ref:
                ref[i] = [ref[i][0] + v, t, 2]
            else:
                ref[i] = [v, t, 1]
            if A.decide(ref[i][0] == 0):
                del ref[i]
            t += 1
        elif op == 1:
            i = A.choice('r%d' % n, npairs)
            try:
                q.remove_task(names[i])
                A.check(i in ref, 'removed a pair that is not present')
                del ref[i]
            except KeyError:
                A.check(i not in ref, 'key error although the pair is present')
        else:
            pop()
    while ref:
        pop()
    pop()
    A.observe(obs)


def big(n, ops, rounds):
    """many fixed pairs, a few with any counts"""
    PC = A.bind('codeprep.util', 'PriorityCounter')
    ref = {}
    d = {}
    for i in range(n):
        v = 1 + (i * 13) % 29 if i % 40 else 10 ** 7 + i
        d[('p%d' % i, 'q')] = v
        ref[i] = [v, i, 1]
    q = PC(d)
    t = n
    # updates as in learning: many pairs are changed, some of them back and forth
    for r in range(rounds):
        for i in range(0, n, 3):
            q.add(('p%d' % i, 'q'), 2 - 4 * (r % 2))
            ref[i] = [ref[i][0] + 2 - 4 * (r % 2), t, 2]
            if ref[i][0] == 0:
                del ref[i]
                break
            t += 1
    for j in range(ops):
        i = 3 * j + 1
        v = A.integer('v%d' % j, -20, 20)
        q.add(('p%d' % i, 'q'), v)
        ref[i] = [ref[i][0] + v, t, 2]
        t += 1
        if A.decide(ref[i][0] == 0):
            del ref[i]
    last = None
    got = 0
    while ref:
        p, c = q.pop_pair()
        i = int(p[0][1:])
        A.check(i in ref, 'returned a pair that is not present')
        A.check(ref[i][0] == c, 'returned count is not the accumulated count')
        if last is not None:
            A.check(c <= last[0], 'a pair with a higher count is present')
            if ref[i][2] == 1 and last[2] == 1:
                A.check(A.implies(c == last[0], last[1] < ref[i][1]), 'an equal pair was added earlier')
        last = ref[i]
        del ref[i]
        got += 1
    A.observe(got)
    A.check(A.raises(KeyError, q.pop_pair), 'no key error although no pair is left')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(init, ops, vals='int', npairs=3):
        out.append(('i%d-o%d-%s-p%d' % (init, ops, vals, npairs), queue, dict(init=init, ops=ops, vals=vals, npairs=npairs),
                    dict(bounds='%d initial pairs, any sequence of %d operations on %d pairs, all counts in +-10^9, then popping '
                                'everything' % (init, ops, npairs), weight=1 + ops)))
    add(0, 0)
    add(1, 1)
    add(0, 2)
    add(3, 0)
    add(4, 0, npairs=4)
    add(2, 2)
    add(0, 3)
    add(1, 2, 'sym', 2)
    add(2, 3, npairs=2)
    add(3, 2)
    for n, ops, r in [(70, 1, 0), (130, 1, 3), (40, 2, 1), (24, 1, 160), (9, 1, 700)] + ([] if q else [(1100, 1, 2), (300, 2, 2), (40, 3, 0), (30, 1, 1500)]):
        out.append(('big-%d-%d-%d' % (n, ops, r), big, dict(n=n, ops=ops, rounds=r),
                    dict(bounds='%d fixed pairs, %d rounds of updates, then %d updates by any number in +-20' % (n, r, ops))))
    if not q:
        add(0, 4)
        add(3, 3)
        add(2, 4, npairs=2)
        add(5, 0, npairs=5)
        add(2, 3, 'sym', 3)
    return out
