"""C22: a merge list id selects the right merges."""
import sys

from sx import api as A
from harness import vfs, bpe_ref, texts

ASSUMPTIONS = ['directories of trained sets are named by the number of merges in canonical decimal form; other directories do not look like '
               'numbers; list names contain no line breaks and do not start or end with white space',
               'the trained sets of a list agree with each other (C28)']
LISTS = [[('a', 'b'), ('b', 'a'), ('ab', 'a'), ('a', 'a'), ('b', 'b')], [('b', 'b'), ('bb', 'a'), ('a', 'b'), ('b', 'a')]]
WORDS = ['abab', 'aabba', 'bbab', 'ba', 'b', 'abaabb']
NOISE = ['part_vocab', 'x1', '1k', '', '-', '5.3', 'merges']


def _cfg():
    return A.bind('codeprep.config')


def _seg(word, merges):
    # the end mark is a symbol of its own
    return bpe_ref.encode_ref(list(word) + ['@'], merges)


def _saved(merges):
    """file with the segmentations of the words"""
    return ''.join(['%s@\t%s\n' % (w, ' '.join(_seg(w, merges))) for w in WORDS])


def install(fs, lists, noise=True):
    """lists: (directory, name, merges, trained counts)"""
    cfg = _cfg()
    for d, name, merges, counts in lists:
        base = '%s/%s' % (cfg.USER_BPE_DIR, d)
        if name is not None:
            fs.put(base + '/.name', name)
        for n in counts:
            if n == 0:
                continue
            fs.put('%s/%s/merges.txt' % (base, n), ''.join(['%s %s 7\n' % p for p in merges[:n]]))
            fs.put('%s/%s/merges_cache.txt' % (base, n), _saved(merges[:n]))
        if noise:
            for x in NOISE:
                if x:
                    fs.makedirs(base + '/' + x)
            fs.put(base + '/4', 'a file')
        fs.put('%s/%s_-_u0EFsu/nonbpe_vocab' % (cfg.USER_VOCAB_DIR, d), '')


def _select(idstr, lists, expect):
    """expect: None (must be refused) or (list, n)"""
    C, Inv = A.bind('codeprep.pipeline.bperegistry', 'CustomBpeConfig', 'InvalidBpeCodesIdError')
    try:
        c = C.from_id(idstr)
    except Inv:
        A.observe('refused')
        A.check(expect is None, 'a valid id is refused')
        return
    A.check(expect is not None, 'an id that does not exist is accepted')
    k, n = expect
    d, name, merges, counts = lists[k]
    A.observe(n, c.codes_file)
    m = min([x for x in counts if x >= n])
    base = '%s/%s/%s/' % (_cfg().USER_BPE_DIR, d, m)
    A.check_eq(c.codes_file, base + 'merges.txt', 'file with the merges')
    A.check(c.n_merges == n, 'number of merges')
    A.check_eq(c.merge_list_id, name, 'name of the list')
    _used(c, merges[:n])


def _used(c, merges):
    """the representation made with the list uses exactly these merges"""
    tr = A.bind('codeprep.pipeline.to_repr')
    cfg = texts.config('bpe')
    tr.init_bpe_data(cfg, c)
    d = tr.get_global_bpe_data_if_available()
    A.check([tuple(m.pair) for m in d.merges] == merges, 'merges that are used')
    got = []
    for w in WORDS:
        toks = texts.parse([(texts.Token.Name, w)])
        got.append(list(tr.to_repr(cfg, toks)[0]))
    exp = []
    for w in WORDS:
        s = _seg(w, merges)
        exp.append(s[:-1] + [s[-1][:-1] + '</t>'])
    A.check([''.join(x) for x in got] == [''.join(x) for x in exp], 'text of the subtokens')
    A.check(got == exp, 'segmentation with the selected merges')


def ids(nlen, dom, counts, order):
    """known lists, any id"""
    fs = vfs.fresh()
    lists = [('ds1', 'a', LISTS[0], counts[0]), ('ds2', 'a-1', LISTS[1], counts[1]), ('ds3', None, LISTS[0], [2])]
    install(fs, lists)
    fs.any_order = order
    s = A.string('id', nlen, dom)
    i = nlen - 1
    while i >= 0 and A.decide(s[i] != '-'):
        i -= 1
    expect = None
    if i >= 0:
        num = s[i + 1:]
        if len(num) and A.decide(A.conj(A.all_chars(num, '0123456789'), num[0] != '0')):
            n = A.concrete(int(num))
            for k in range(2):
                if A.decide(s[:i] == lists[k][1]) and n <= max(lists[k][3]):
                    expect = (k, n)
    _select(s, lists, expect)


def names(lens, dom, counts, order):
    """any names of the lists"""
    fs = vfs.fresh()
    lists = []
    for i, n in enumerate(lens):
        nm = A.string('name%d' % i, n, dom)
        for o in lists:
            A.assume(A.neg(o[1] == nm))
        lists.append(('ds%d_24-01-01T00-00-00' % i, nm, LISTS[i % 2], counts[i]))
    install(fs, lists)
    fs.any_order = order
    k = A.choice('list', len(lens))
    n = 1 + A.choice('n', 5)
    _select(lists[k][1] + '-' + str(n), lists, (k, n) if n <= max(counts[k]) else None)
    ld, Inv = A.bind('codeprep.pipeline.bperegistry', 'load_bpe_merges', 'InvalidBpeCodesIdError')
    try:
        ml = ld(lists[k][1], n)
    except Inv:
        A.check(n > max(counts[k]), 'the merges are not loaded')
        return
    A.check([tuple(m.pair) for m in ml] == LISTS[k % 2][:n], 'merges that are loaded')


def extremes(ndirs, width, limits, widths=None):
    """smallest and largest trained set within a limit"""
    gmin, gmax = A.bind('codeprep.pipeline.bperegistry', 'get_min_merges', 'get_max_merges')
    fs = vfs.fresh()
    base = fs.home + '/bpe'
    fs.makedirs(base)
    nums = []
    for i in range(ndirs):
        w = A.pick('width%d' % i, widths) if widths else 1 + A.choice('width%d' % i, width)
        s = A.string('d%d' % i, w, '0123456789')
        A.assume(s[0] != '0')
        for o, _ in nums:
            A.assume(A.neg(o == s))
        fs.makedirs(base + '/' + s)
        nums.append((s, int(s)))
    for x in NOISE[:3]:
        fs.makedirs(base + '/' + x)
    fs.put(base + '/99', 'a file')
    if limits:
        lim = A.integer('limit', 1, 10 ** width + 1)
        lo, hi = gmin(base, limit=lim), gmax(base, limit=lim)
        ge = [n for s, n in nums if A.decide(n >= lim)]
        le = [n for s, n in nums if A.decide(n <= lim)]
    else:
        lo, hi = gmin(base), gmax(base)
        ge = le = [n for s, n in nums]
    A.check((lo is None) == (not ge), 'smallest set')
    A.check((hi is None) == (not le), 'largest set')
    A.observe(lo, hi)
    if ge:
        A.check(A.conj(A.disj(*[lo == n for n in ge]), *[lo <= n for n in ge]), 'smallest set')
    if le:
        A.check(A.conj(A.disj(*[hi == n for n in le]), *[hi >= n for n in le]), 'largest set')


def big_list():
    fs = vfs.fresh()
    ms = [(x, y) for x in 'abcdefghijkl' for y in 'abcdefghijkl'][:130]
    lists = [('ds1', 'mine', ms, [9, 10, 99, 100, 130]), ('ds2', 'mine-1', LISTS[0], [1, 3])] + [
        ('ds%d' % i, 'other%d' % i, LISTS[1], [2]) for i in range(3, 16)]
    install(fs, lists)
    n = A.pick('n', [1, 8, 9, 10, 11, 98, 99, 100, 101, 129, 130, 131, 999])
    _select('mine-%d' % n, lists, (0, n) if n <= 130 else None)


def default(case):
    """the lists that come with codeprep"""
    cfg = _cfg()
    fs = vfs.fresh()
    mine = {'0': 0, '1k': 1, '5k': 2, '10k': 3}
    for k in mine:
        for c in ('case', 'nocase'):
            fs.put('%s/%s/%s/merges.txt' % (cfg.DEFAULT_BPE_DIR, c, k), ''.join(
                ['%s %s 7\n' % p for p in LISTS[0 if c == 'case' else 1][:mine[k]]]))
    k = A.pick('id', ['0', '1k', '5k', '10k'])
    cached = A.flag('cache')
    if cached:
        # what codeprep may have saved: segmentations by the same list
        for j in mine:
            for c in ('case', 'nocase'):
                ms = LISTS[0 if c == 'case' else 1][:mine[j]]
                fs.put('%s/%s/%s/merges_cache.txt' % (cfg.DEFAULT_BPE_CACHE_DIR, c, j), _saved(ms))
    tr = A.bind('codeprep.pipeline.to_repr')
    cpc = A.bind('codeprep.api.common', 'create_prep_config')
    low = A.flag('no_case') if k != '0' and case else False
    try:
        c = cpc('chars') if k == '0' else cpc('bpe', k, no_case=low)
    except ValueError:
        A.check(low, 'the id is refused')
        return
    tr.init_bpe_data(c, None)
    d = tr.get_global_bpe_data_if_available()
    ms = LISTS[1 if low else 0][:mine[k]]
    A.check([tuple(m.pair) for m in d.merges] == ms, 'merges of the list')
    A.check(d.merges_cache == ({w + '@': list(_seg(w, ms)) for w in WORDS} if cached else {}), 'saved segmentations of the list')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    C = [[1, 3], [2, 4]]
    for n in (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6):
        add('id-%d' % n, ids, 'all ids of %d characters over "a-0123_", lists "a" and "a-1"' % n, nlen=n, dom='a-0123_' if n < 5 else 'a-015', counts=C,
            order=False)
    add('id-order', ids, 'all ids of 3 characters over "a-13", directories in any order', nlen=3, dom='a-13', counts=C, order=True) if not q else None
    add('names-1', names, 'two lists with names of 1 character of all of Unicode but white space', lens=[1, 1],
        dom=[(33, 127), (0x100, 0x167F), (0x3001, 0xD7FF), (0xE000, 0x10FFFF)], counts=[[1, 2, 4], [3]], order=False)
    add('names-2', names, 'two lists with names of 1 and 2 characters over "a-1"', lens=[1, 2], dom='a-1', counts=[[1, 5], [2, 3, 4]], order=False)
    add('names-order', names, 'one list, directories in any order', lens=[1], dom='a1', counts=[[2, 4, 5]], order=True) if not q else None
    add('extremes-wide', extremes, 'a trained set of up to 99999 merges, and one of a single digit', ndirs=2, width=5, limits=False)
    add('extremes-huge', extremes, 'two trained sets of 1, 7 or 12 digits', ndirs=2, width=12, limits=False, widths=[1, 7, 12])
    add('big-list', big_list, 'a list of 130 merges, trained for 9, 10, 99, 100 and 130, all ids "mine-<n>" with n of 1-3 digits')
    for n in (0, 1, 2):
        add('extremes-%d' % n, extremes, '%d trained sets of up to 99 merges, all limits up to 101' % n, ndirs=n, width=2, limits=True)
    add('extremes-nolimit', extremes, '2 trained sets of up to 999 merges', ndirs=2, width=3, limits=False)
    if not q:
        add('extremes-3', extremes, '3 trained sets of up to 99 merges, all limits up to 101', ndirs=3, width=2, limits=True)
        add('names-3', names, 'three lists', lens=[1, 2, 2], dom='a-1', counts=[[1, 5], [2, 3, 4], [4]], order=False)
    add('default', default, 'all default lists, with and without saved segmentations', case=True)
    return out
