"""C26: interrupted processing never leaves a truncated result under its final name."""
from sx import api as A
from harness import texts, vfs, c17, c24
from pygments.token import Token

ASSUMPTIONS = [texts.ASSUMPTION, 'when the process is killed all its workers die; what was written to files that are not closed yet is lost or '
               'partly on disk; renaming is atomic', 'the data set does not change between the runs and no file disappears during a run']
ROOT = '/data/proj'
NOW = 1600000000


def _start(fs, how, k, hi):
    """stop the run before the k-th operation that changes the file system"""
    fs.restart()
    fs.on_op = None
    if how == 'kill':
        fs.crash_at = k
        return

    def fail(what):
        if A.decide(k == fs.nops):
            if how == 'error':
                raise OSError(28, 'No space left on device')
            raise KeyboardInterrupt()
    fs.on_op = fail


def _run(fs, f, how, hi, name, step=1):
    """-> was it stopped?"""
    k = A.integer(name, 1, hi) if step == 1 else step * A.integer(name, 1, hi // step) + 1
    _start(fs, how, k, hi)
    stopped = False
    try:
        f()
    except A.CrashPoint:
        stopped = True
    except OSError as e:
        if e.errno != 28 or how != 'error':
            raise
        stopped = True
    except KeyboardInterrupt:
        stopped = True
    if not stopped:
        # an error may also be handled: then the run went on
        A.check(fs.nops < hi, 'the bound on the number of operations is too small')
    fs.restart()
    fs.on_op = None
    fs.pid += 100
    fs.now += 2
    return stopped


def _load(fs, path):
    """the parsed tokens in a file, printed"""
    with vfs.GzFile(path, 'rb') as f:
        toks = f.get_object()
    cfg = texts.config('nosplit')
    return list(A.bind('codeprep.pipeline.to_repr', 'to_repr')(cfg, toks)[0])


def parse_one(seq, how, kills=1, hi=12, fresh_dir=True):
    src = b'/data/proj/sub/a.java'
    dest = b'/out/sub/a.java.parsed'
    f = A.bind('codeprep.pipeline.parse_projects', 'preprocess_and_write')
    values = [(t, v if isinstance(v, str) else A.string('v%d' % i, v[0], v[1])) for i, (t, v) in enumerate(seq)]
    fs = vfs.fresh(now=NOW)
    if not fresh_dir:
        fs.makedirs('/out/sub')
    fs.put(src, 'x')
    texts.lexed(values)
    exp = list(A.bind('codeprep.pipeline.to_repr', 'to_repr')(texts.config('nosplit'), texts.parse(values))[0])
    for i in range(kills):
        stopped = _run(fs, lambda: f((src, dest)), how, hi, 'stop%d' % i)
        if fs.exists(dest):
            A.check_eq(_load(fs, dest), exp, 'a file under its final name is complete')
        else:
            A.check(stopped, 'no result without an interruption')
    f((src, dest))
    A.check(fs.exists(dest), 'no result after running again')
    got = _load(fs, dest)
    A.observe(got)
    A.check_eq(got, exp, 'result after running again')


def repr_one(mode, seq, how, kills=1, hi=12, fresh_dir=True, meta=False):
    src = b'/parsed/sub/a.java.parsed'
    dest = b'/out/sub/a.java.prep'
    f = A.bind('codeprep.pipeline.to_repr', 'preprocess_and_write')
    values = [(t, v if isinstance(v, str) else A.string('v%d' % i, v[0], v[1])) for i, (t, v) in enumerate(seq)]
    fs = vfs.fresh(now=NOW)
    if not fresh_dir:
        fs.makedirs('/out/sub')
    if meta:
        fs.makedirs('/meta')
    cfg = texts.config(mode)
    data = texts.bpe_data([('a', 'b')] if mode == 'bpe' else []) if mode in ('bpe', 'chars') else None
    toks = texts.parse(values)
    fs.put_gz(src, toks)
    # the complete result
    f((src, b'/ref/a.prep', cfg, None), data)
    exp = fs.text('/ref/a.prep')
    A.check(exp is not None and A.decide(exp[-1:] == '\n'), 'no result')
    for i in range(kills):
        stopped = _run(fs, lambda: f((src, dest, cfg, '/meta' if meta else None), data), how, hi, 'stop%d' % i)
        if fs.exists(dest):
            A.check_eq(fs.text(dest), exp, 'a file under its final name is complete')
        else:
            A.check(stopped, 'no result without an interruption')
    f((src, dest, cfg, '/meta' if meta else None), data)
    A.check(fs.exists(dest), 'no result after running again')
    A.observe(fs.text(dest))
    A.check_eq(fs.text(dest), exp, 'result after running again')


def _setup(mode, files, ncpu, base):
    fs = vfs.fresh(now=NOW, ncpu=ncpu)
    c17.install(fs)
    fs.makedirs(ROOT)
    for f in files:
        fs.put(ROOT + '/' + f, 'x' + f)
    for d in [ROOT, ROOT + '/sub']:
        if fs.find(d) is not None:
            fs.find(d).mtime = NOW
    texts.lexed(c17.PROBE if not base else [(Token.Name, 'getX\xe9'), (Token.Operator, '='), (Token.Text, ' '), (Token.Comment, '//\u4e00a')])
    return fs


def _dataset(mode, base):
    if base:
        BC, BP = A.bind('codeprep.bpepkg.bpe_config', 'BpeConfig', 'BpeParam')
        bc = BC({BP.CASE: 'yes', BP.WORD_END: False, BP.BASE: 'code', BP.UNICODE: 'yes'})
        cfg = bc.to_prep_config()
    else:
        bc = None
        cfg = texts.config(mode)
    DS = A.bind('codeprep.pipeline.dataset', 'Dataset')
    custom = None
    if mode == 'bpe':
        custom = A.bind('codeprep.pipeline.bperegistry', 'CustomBpeConfig').from_id('mine-2')
    return DS.create(ROOT, cfg, None, custom, bc), custom


def _flow(mode, base):
    ds, custom = _dataset(mode, base)
    A.bind('codeprep.pipeline.stages', 'run_until_preprocessing')(ds, custom)
    return ds


def _results(fs, ds):
    """final files -> contents"""
    out = {}
    for kind, d in (('parsed', ds.parsed.path), ('prep', ds.preprocessed.path)):
        for p in fs.tree(d):
            if p.endswith('.' + kind):
                q = d + '/' + p
                out[kind, p] = _load(fs, q) if kind == 'parsed' else fs.text(q)
    p = ds.path_to_nonbpe_vocab_file
    if fs.exists(p) and not fs.find(p).kind == 'd':
        out['nonbpe', p] = sorted(fs.text(p).split('\n'))
    return out


def flow(mode, files, how, kills=1, hi=60, step=1, ncpu=1, base=False):
    """parsing and preprocessing of a data set, and once more"""
    fs = _setup(mode, files, ncpu, base)
    ds = _flow(mode, base)
    exp = _results(fs, ds)
    A.check(len([k for k in exp if k[0] == 'prep']) == len(files), 'results of all files')
    if base:
        A.check('nonbpe' in [k[0] for k in exp], 'the non-BPE vocabulary is missing')
    fs = _setup(mode, files, ncpu, base)
    n = 0
    ready = A.bind('codeprep.pipeline.dataset', 'is_path_ready')
    for i in range(kills):
        n += _run(fs, lambda: _flow(mode, base), how, hi, 'stop%d' % i, step)
        got = _results(fs, ds)
        for k in got:
            A.check(k in exp, 'a result that does not belong there: %s' % (k,))
            A.check(got[k] == exp[k], 'a file under its final name is complete')
        for sub, kind in ((ds.parsed, 'parsed'), (ds.preprocessed, 'prep')):
            if ready(sub.path) and not A.bind('codeprep.pipeline.dataset', 'is_path_outdated')(sub.path):
                A.check(sorted([k for k in got if k[0] == kind]) == sorted([k for k in exp if k[0] == kind]), 'ready but not complete')
    ds2 = _flow(mode, base)
    A.check(ds2.parsed.path == ds.parsed.path, 'name')
    got = _results(fs, ds)
    A.observe(n, len(got))
    A.check(sorted(got.keys()) == sorted(exp.keys()), 'files after running again')
    for k in exp:
        A.check(got[k] == exp[k], 'contents after running again')
    A.check(A.conj(ready(ds.parsed.path), ready(ds.preprocessed.path)), 'stages are ready')


def size(files, how, kills=1, hi=12, before=False):
    """the size of the preprocessed corpus is asked for, and once more"""
    fs = vfs.fresh(now=NOW)
    ns = []
    prep = fs.home + '/prep'
    for i, n in enumerate(files):
        k = A.pick('n%d' % i, n)
        fs.put('%s/f%d.prep' % (prep, i), ' '.join(['x'] * k) + '\n')
        ns.append(k)

    class Data(object):
        path_to_prep_corpus_size_file = fs.home + '/sizes/proj'

    class Sub(object):
        path = prep
        _dataset = Data()

        def file_iterator(self):
            return iter([('%s/f%d.prep' % (prep, i)).encode() for i in range(len(ns))])
    fs.makedirs(fs.home + '/sizes')
    Corpus = A.bind('codeprep.api.corpus', 'PreprocessedCorpus')
    n = 0
    for i in range(kills):
        n += _run(fs, lambda: Corpus(Sub(), None).get_corpus_size(), how, hi, 'stop%d' % i)
        got = fs.text(Data.path_to_prep_corpus_size_file)
        A.check(got is None or got == str(sum(ns)), 'the size under its final name is complete')
    A.observe(n)
    A.check(Corpus(Sub(), None).get_corpus_size() == sum(ns), 'the size when asked again')
    A.check(fs.text(Data.path_to_prep_corpus_size_file) == str(sum(ns)), 'the saved size')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    SEQ = [(Token.Name, (1, 'aB')), (Token.Operator, '=')]
    SYM = [(Token.Name, (1, 'aB_')), (Token.Text, ' '), (Token.Literal.String, (1 if q else 2, '" a'))]
    MANY = ['%s%d.java' % (['', 'sub/', 'sub/x/'][i % 3], i) for i in range(12)]
    LONG = [[(Token.Name, 'getX%d' % i), (Token.Operator, '='), (Token.Text, '\n'), (Token.Literal.String, '"some text %d"' % i)][i % 4] for i in range(400)] + [(Token.Name, (1, 'aB'))]
    for how in ('kill', 'error', 'interrupt'):
        w = {'kill': 'killed before', 'error': 'an error in', 'interrupt': 'interrupted in'}[how] + ' any operation'
        add('parse-' + how, parse_one, w, seq=SEQ, how=how)
        add('parse-sym-' + how, parse_one, w + ', any tokens', seq=SYM, how=how, fresh_dir=False)
        for m in ('basic', 'bpe') if q else ('nosplit', 'basic', 'chars', 'bpe'):
            add('repr-%s-%s' % (m, how), repr_one, w, mode=m, seq=SEQ, how=how)
            add('repr-meta-%s-%s' % (m, how), repr_one, w, mode=m, seq=[(Token.Comment, '\u4e00'), (Token.Text, (1, ' a\xe9'))], how=how, meta=True, fresh_dir=False)
        add('flow-' + how, flow, w + ', two files', mode='basic', files=['a.java', 'sub/b.py'], how=how)
        add('flow-base-' + how, flow, w + ', two files, learning a base vocabulary', mode='nosplit', files=['a.java', 'b.java'], how=how, base=True)
        if not q:
            add('flow-bpe-' + how, flow, w + ', three files', mode='bpe', files=['a.java', 'sub/b.py', 'sub/c.java'], how=how, ncpu=2)
        # long files and many of them
        if q and how == 'interrupt':
            continue
        add('parse-long-' + how, parse_one, w + ', 400 tokens', seq=LONG, how=how)
        add('repr-long-' + how, repr_one, w + ', 400 tokens', mode='basic', seq=LONG, how=how)
        add('flow-many-' + how, flow, w + ' (every %d operations), 12 files' % (11 if q else 3), mode='basic', files=MANY, how=how, hi=200, step=11 if q else 3)
    for how in ('kill', 'error', 'interrupt'):
        add('size-' + how, size, 'the size of a corpus, files of 1 to 150 tokens: %s before any operation' % how, files=[[1, 4, 150], [3, 9]], how=how)
    add('size-twice', size, 'the size of a corpus, killed twice', files=[[2, 99]], how='kill', kills=2)
    add('parse-twice', parse_one, 'killed twice', seq=SEQ, how='kill', kills=2)
    add('repr-twice', repr_one, 'killed twice', mode='basic', seq=SEQ, how='kill', kills=2)
    add('flow-pool', flow, 'killed before any operation, several processes', mode='bpe', files=['a.java', 'b.java'], how='kill', ncpu=2)
    if not q:
        add('flow-twice', flow, 'killed twice', mode='basic', files=['a.java'], how='kill', kills=2)
        add('flow-base-twice', flow, 'killed twice', mode='nosplit', files=['a.java'], how='kill', kills=2, base=True)
    return out
