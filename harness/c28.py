"""C28: continuing BPE learning extends the earlier result."""
from sx import api as A
from harness import vfs, texts, c17, bpe_ref
from pygments.token import Token

ASSUMPTIONS = ['the vocabulary of the data set was calculated before (C19) and its words are distinct, not empty and contain no space']
ROOT = '/data/proj'
FILES = ['vocab', 'merges_cache.txt', 'merges.txt', 'bpe_vocab_reassembled']


def _config(unicode='yes'):
    BC, BP = A.bind('codeprep.bpepkg.bpe_config', 'BpeConfig', 'BpeParam')
    return BC({BP.CASE: 'yes', BP.WORD_END: False, BP.BASE: 'code', BP.UNICODE: unicode})


def _dataset():
    bc = _config()
    DS = A.bind('codeprep.pipeline.dataset', 'Dataset')
    return DS.create(ROOT, bc.to_prep_config(), None, None, bc), bc


def _learn(ds, bc, n):
    A.bind('codeprep.pipeline.bpelearner').run(ds, n, bc)


def _symbols(w):
    """characters of a word and the end mark"""
    out = []
    for c in w:
        out.append('@@' if A.decide(c == '@') else c)
    return out + ['@']


def _esc(w):
    return ''.join(_symbols(w))


def _trained(fs, ds):
    return sorted([int(e[0]) for e in fs.find(ds.bpe_path).entries if e[1].kind == 'd' and e[0].isdigit()])


def _raw(fs, ds, n):
    d = '%s/%d' % (ds.bpe_path, n)
    return [(p, fs.text(d + '/' + p)) for p in sorted(fs.tree(d))]


def _lookup(d, k):
    for x, v in d.items():
        if A.decide(x == k):
            return v
    return None


def _agree(fs, ds, n, words, others, limit):
    """the files saved for n merges agree with each other; -> merges"""
    rm, rc = A.bind('codeprep.bpepkg.merge', 'read_merges'), A.bind('codeprep.bpepkg.cache', 'read_bpe_cache')
    rv = A.bind('codeprep.pipeline.vocab', '_load_vocab_dict')
    names = A.bind('codeprep.pipeline.bperegistry')
    d = '%s/%d/' % (ds.bpe_path, n)
    ms = [m for m in rm(d + names.MERGES_FILE_NAME)]
    A.check(len(ms) == n, 'number of merges')
    for i, m in enumerate(ms):
        A.check(m.priority == i, 'order of the merges')
    pairs = [(m.pair[0], m.pair[1]) for m in ms]
    A.observe(pairs)
    cache = rc(d + names.MERGES_CACHE_FILE_NAME)
    A.check(len(cache) == len(words) + len(others), 'number of cached words')
    counts = []
    left = False
    cur = [(_symbols(w), f) for w, f in words]
    # every merge joins a most frequent pair
    for m in ms:
        best = None
        cs = bpe_ref.count_pairs(cur)
        for p, c in cs:
            if A.decide(A.conj(p[0] == m.pair[0], p[1] == m.pair[1])):
                best = c
        A.check(best is not None, 'merged pair does not occur in a word that may be split')
        A.check(best == m.freq, 'frequency of the merge')
        for p, c in cs:
            A.check(c <= best, 'a more frequent pair was not merged')
        cur = [(bpe_ref.apply_merge(m.pair, s), f) for s, f in cur]
    for (w, f), (s, _) in zip(words, cur):
        got = _lookup(cache, _esc(w))
        A.check(got is not None, 'a word is not in the cache')
        A.check_eq(list(got), s, 'cached segmentation')
        if len(s) > 1:
            left = True
        for x in s:
            _count(counts, x, f)
    if n < limit:
        A.check(not left, 'learning stopped although there was a pair left')
    for w, f in others:
        got = _lookup(cache, _esc(w))
        A.check(got is not None, 'a token that must not be split is not in the cache')
        A.check(len(got) == 1 and A.decide(got[0] == _esc(w)), 'a token that must not be split was split')
        _count(counts, _esc(w), f)
    v = rv(d + names.RESULTING_VOCAB_FILE_NAME)
    A.check(len(v) == len(counts), 'subwords in the vocabulary')
    last = None
    for x, c in counts:
        got = _lookup(v, x)
        A.check(got is not None, 'a subword is missing in the vocabulary')
        A.check(got == c, 'frequency in the vocabulary')
    r = rv(d + names.BPE_REASSEMBLED_VOCAB_FILE_NAME)
    A.check(len(r) == len(words) + len(others), 'segmentations that are saved')
    for (w, f), (s, _) in zip(words, cur):
        A.check(_lookup(r, ' '.join(s)) == f, 'segmentation and frequency that are saved')
    for w, f in others:
        A.check(_lookup(r, _esc(w)) == f, 'frequency of a token that must not be split')
    return ms


def _count(counts, x, f):
    for e in counts:
        if A.decide(e[0] == x):
            e[1] = e[1] + f
            return
    counts.append([x, f])


def runs(lens, dom, olens=(), steps=(1, 3), freqs=(3, 2, 5, 4), odom=None):
    """learn several times"""
    fs = vfs.fresh(now=1600000000)
    fs.put(ROOT + '/a.java', 'x')
    ds, bc = _dataset()
    ds.assign_bpe_codes_id(bc, 'mine')
    words = []
    every = []
    for i, n in enumerate(lens):
        w = n if isinstance(n, str) else A.string('w%d' % i, n, dom)
        for o, _ in every:
            if len(o) == len(w):
                A.assume(o != w)
        words.append((w, freqs[i]))
        every.append(words[-1])
    others = []
    for i, n in enumerate(olens):
        w = A.string('o%d' % i, n, odom or dom)
        for o, _ in every:
            if len(o) == len(w):
                A.assume(o != w)
        others.append((w, 7 + i))
        every.append(others[-1])
    lit = A.bind('codeprep.util', 'to_literal_str')
    # the order of the vocabulary does not matter for what is checked
    fs.put(ds.path_to_bpe_vocab_file, ''.join(['%s\t%d\n' % (lit(w), f) for w, f in others + words]))
    fs.put(ds.path_to_nonbpe_vocab_file, ''.join(['%s\n' % lit(w) for w, f in others] + ['notinthere\n']))
    st = A.bind('codeprep.pipeline.stages')
    real = st.run_until_base_bpe_vocab
    st.run_until_base_bpe_vocab = vfs._nothing
    try:
        _steps(fs, ds, bc, steps, words, others)
    finally:
        st.run_until_base_bpe_vocab = real


def _steps(fs, ds, bc, steps, words, others):
    seen = {}
    for n in steps:
        fs.now += 10
        _learn(ds, bc, n)
        have = _trained(fs, ds)
        new = [k for k in have if k not in seen]
        for k in seen:
            A.check(k in have and _raw(fs, ds, k) == seen[k][0], 'an earlier result was overwritten')
        A.check(len(new) <= 1 and all([k <= n for k in new]), 'result that is saved')
        if new:
            k = new[0]
            ms = _agree(fs, ds, k, words, others, n)
            before = [x for x in sorted(seen) if x < k]
            if before:
                old = seen[before[-1]][1]
                for a, b in zip(old, ms):
                    A.check(A.conj(a.pair[0] == b.pair[0], a.pair[1] == b.pair[1], a.freq == b.freq), 'earlier merges are kept')
            seen[k] = (_raw(fs, ds, k), ms)
        else:
            # it was there, or there is nothing more to merge
            A.check(n in seen or (seen and all([len(s) == 1 for s in _final(words, seen[max(seen)][1])])), 'nothing was learned')
    A.check(len(seen) > 0, 'nothing was learned')


def _final(words, ms):
    out = []
    for w, f in words:
        s = _symbols(w)
        for m in ms:
            s = bpe_ref.apply_merge(m.pair, s)
        out.append(s)
    return out


def killed(hi, first=0):
    """dying while the result is saved"""
    fs = vfs.fresh(now=1600000000)
    fs.put(ROOT + '/a.java', 'x')
    ds, bc = _dataset()
    ds.assign_bpe_codes_id(bc, 'mine')
    words, others = [('aba\u4e00', 3), ('ab', 2)], [('\n', 7), ('//', 4)]
    lit = A.bind('codeprep.util', 'to_literal_str')
    fs.put(ds.path_to_bpe_vocab_file, ''.join(['%s\t%d\n' % (lit(w), f) for w, f in others + words]))
    fs.put(ds.path_to_nonbpe_vocab_file, ''.join(['%s\n' % lit(w) for w, f in others]))
    st = A.bind('codeprep.pipeline.stages')
    real = st.run_until_base_bpe_vocab
    st.run_until_base_bpe_vocab = vfs._nothing
    try:
        old = None
        if first:
            _learn(ds, bc, first)
            old = _raw(fs, ds, first)
        fs.restart()
        fs.crash_at = A.integer('stop', 1, hi)
        died = False
        try:
            _learn(ds, bc, 3)
        except A.CrashPoint:
            died = True
        else:
            A.check(fs.nops < hi, 'the bound on the number of operations is too small')
        fs.restart()
        fs.now += 10
        for k in _trained(fs, ds):
            if k != first:
                _agree(fs, ds, k, words, others, 3)
        A.check(first == 0 or _raw(fs, ds, first) == old, 'an earlier result was changed')
        _learn(ds, bc, 3)
        A.check(_trained(fs, ds) == [k for k in (first, 3) if k], 'results after learning again')
        _agree(fs, ds, 3, words, others, 3)
        A.observe(died)
    finally:
        st.run_until_base_bpe_vocab = real


def corpus(n1, n2, word):
    """from the files of a data set"""
    fs = vfs.fresh(now=1600000000, ncpu=1)
    fs.put(ROOT + '/a.java', 'x')
    fs.put(ROOT + '/b.java', 'y')
    ds, bc = _dataset()
    ds.assign_bpe_codes_id(bc, 'mine')
    w = A.string('w', word, 'abX')
    texts.lexed([(Token.Name, w), (Token.Text, ' '), (Token.Operator, '='), (Token.Name, 'abX'), (Token.Text, '\n'), (Token.Comment, '//\u4e00')])
    _learn(ds, bc, n1)
    rv, rs = A.bind('codeprep.pipeline.vocab', '_load_vocab_dict', '_load_vocab_set')
    every = rv(ds.path_to_bpe_vocab_file)
    non = rs(ds.path_to_nonbpe_vocab_file)
    words = [(x, f) for x, f in every.items() if x not in non]
    others = [(x, f) for x, f in every.items() if x in non]
    A.check(_lookup(every, w) is not None, 'the word is not learned')
    A.check(_lookup(dict(others), w) is None, 'the word is not learned')
    have = _trained(fs, ds)
    first = _raw(fs, ds, have[-1])
    ms1 = _agree(fs, ds, have[-1], words, others, n1)
    fs.now += 10
    _learn(ds, bc, n2)
    A.check(_raw(fs, ds, have[-1]) == first, 'an earlier result was overwritten')
    more = _trained(fs, ds)
    if more != have:
        ms2 = _agree(fs, ds, more[-1], words, others, n2)
        for a, b in zip(ms1, ms2):
            A.check(A.conj(a.pair[0] == b.pair[0], a.pair[1] == b.pair[1], a.freq == b.freq), 'earlier merges are kept')
    # the result can be selected
    C = A.bind('codeprep.pipeline.bperegistry', 'CustomBpeConfig')
    c = C.from_id('mine-%d' % more[-1])
    tr = A.bind('codeprep.pipeline.to_repr')
    cfg = texts.config('bpe')
    tr.init_bpe_data(cfg, c)
    r = list(tr.to_repr(cfg, texts.parse([(Token.Name, w)]))[0])
    A.check(''.join(r) == w + '</t>', 'encoding with the result')
    A.observe(len(r))


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    ALL = [(0, 31), (33, 0xD7FF), (0xE000, 0x10FFFF)]
    add('one-any', runs, 'one word of 2 characters of all of Unicode but the space', lens=[2], dom=ALL, steps=(1, 2, 5))
    add('other-any', runs, 'one token that must not be split, any character', lens=[2], dom='ab', olens=[1], odom=ALL, steps=(1, 2))
    add('one', runs, 'one word of 4 characters over "ab@"', lens=[4], dom='ab@', steps=(2, 3, 4))
    add('two', runs, 'words of 2 and 3 characters over "ab"', lens=[2, 3], dom='ab', steps=(1, 3))
    add('two-at', runs, 'two words of 2 characters over "a@"', lens=[2, 2], dom='a@', olens=[1], steps=(1, 3))
    add('three', runs, 'three words over "ab", one that is not split', lens=[1, 2, 2], dom='ab', olens=[2], steps=(1, 2, 4))
    add('other-2', runs, 'tokens that must not be split look like words', lens=[3], dom='ab', olens=[2, 3], steps=(2, 4))
    add('less', runs, 'fewer merges after more', lens=[3, 2], dom='ab', steps=(3, 1, 2, 5))
    add('same', runs, 'the same number again', lens=[3], dom='ab', olens=[1], steps=(2, 2))
    add('all', runs, 'more merges than there are pairs', lens=[1, 2], dom='ab', olens=[1], steps=(20, 30))
    add('ten', runs, 'more than 9 merges', lens=[5, 4, 3], dom='a', steps=(2, 9, 12) if q else (3, 10, 20), freqs=(2, 3, 5))
    add('digits', runs, 'continuing from 9 to 10 and more merges', lens=['abcdefghijklm', 2], dom='ab', steps=(2, 9, 10, 12))
    add('hundred', runs, 'continuing from 99 to 101 merges', lens=[''.join([chr(0x4e00 + i) for i in range(106)]), 3], dom='ab', steps=(9, 99, 101))
    add('kill', killed, 'killed before any operation that changes the file system', hi=30)
    add('kill-more', killed, 'killed while a result is extended', hi=30, first=1)
    add('corpus', corpus, 'from the files of a data set, a word of 2 characters over "abX"', n1=1, n2=3, word=2)
    if not q:
        add('two-long', runs, 'words of 3 and 4 characters over "ab@"', lens=[3, 4], dom='ab@', steps=(2, 4))
        add('three-any', runs, 'three words of 2 characters over "abc"', lens=[2, 2, 2], dom='abc', steps=(1, 2, 3))
        add('corpus-3', corpus, 'from the files of a data set, a word of 3 characters over "abX"', n1=2, n2=5, word=3)
    return out
