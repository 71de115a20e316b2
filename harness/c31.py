"""C31: stages run exactly when their results are missing or outdated."""
import os

from sx import api as A
from harness import texts, vfs, c17, c26
from pygments.token import Token

ASSUMPTIONS = [texts.ASSUMPTION, 'the data set itself does not change (then its results have other names, C25); time stamps are whole seconds',
               'results were made by the tool; the user then changes or removes them at will, outside of a run', 'calculating a vocabulary by '
               'several processes is C19 and C20; here by one merger']
ROOT = c26.ROOT
NOW = c26.NOW
OLD = [(Token.Name, 'old')]
NEW = [(Token.Name, 'new')]
OLD_PREP = 'kept\n'
OLD_VOCAB = 'kept\t7\n'


def nodes(n):
    """files and directories below, and itself"""
    out = [n]
    for e in n.entries:
        out += nodes(e[1]) if e[1].kind == 'd' else [e[1]]
    return out


def _want(flow, ds):
    return 'vocab' if flow in ('vocab', 'base') else 'prep'


def _flow(flow, out, suppress=False):
    """ask for preprocessed data, a vocabulary, or the vocabulary BPE is learned from"""
    if flow == 'base':
        ds, custom = c26._dataset('nosplit', True)
        A.bind('codeprep.pipeline.stages', 'run_until_base_bpe_vocab')(ds)
        return ds
    cfg = A.bind('codeprep.api.common', 'create_prep_config')('basic')
    ds = A.bind('codeprep.pipeline.dataset', 'Dataset').create(ROOT, cfg, None, None, None, out, suppress)
    A.bind('codeprep.pipeline.stages', 'run_until_vocab' if flow == 'vocab' else 'run_until_preprocessing')(ds)
    return ds


def _vocab_path(ds, flow):
    return ds.path_to_bpe_vocab_file if flow == 'base' else ds.path_to_vocab_file


def _prep(fs, values):
    """preprocessed text of a file"""
    f = A.bind('codeprep.pipeline.to_repr', 'preprocess_and_write')
    fs.put_gz('/ref/a.java.parsed', texts.parse(values))
    fs.makedirs('/ref/out')
    f((b'/ref/a.java.parsed', b'/ref/out/a.prep', A.bind('codeprep.api.common', 'create_prep_config')('basic'), None), None)
    out = fs.text('/ref/out/a.prep')
    fs.rmtree('/ref')
    return out


def _touch(fs, path, name, span, which):
    """any modification times; -> has the latest one changed?"""
    ns = nodes(fs.find(path))
    if which == 'one':
        ns = [ns[A.choice(name, len(ns))]]
    elif which == 'none':
        ns = []
    before = max([n.mtime for n in nodes(fs.find(path))])
    for i, n in enumerate(ns):
        n.mtime = NOW + A.integer('%s%d' % (name, i), 0, span)
    after = max([n.mtime for n in nodes(fs.find(path))])
    return A.decide(after != before)


def _parsed_is(fs, ds, files, values):
    exp = list(A.bind('codeprep.pipeline.to_repr', 'to_repr')(texts.config('nosplit'), texts.parse(values))[0])
    for f in files:
        p = ds.parsed.path + '/' + f + '.parsed'
        A.check(fs.exists(p), 'no parsed file')
        A.check_eq(c26._load(fs, p), exp, 'parsed data')


def stages(first, then, files, states, out=None, span=6, which='one', again=True):
    """results of one request in any state, then another request"""
    fs = vfs.fresh(now=NOW, ncpu=1)
    c17.install(fs)
    if out is not None:
        fs.makedirs(out)
    fs.makedirs(ROOT)
    for f in files:
        fs.put(ROOT + '/' + f, 'x')
    for n in nodes(fs.find(ROOT)):
        n.mtime = NOW
    texts.lexed(OLD)
    ready = A.bind('codeprep.pipeline.dataset', 'is_path_ready')
    outdated = A.bind('codeprep.pipeline.dataset', 'is_path_outdated')
    fs.now = NOW + 2
    ds = _flow(first, out) if first else None
    fs.now = NOW + span + 1
    state = {}
    if ds is not None:
        A.check(A.conj(ready(ds.parsed.path), ready(ds.preprocessed.path)), 'ready')
        # tell old results from new ones, without changing the modification times
        for f in files:
            p = ds.preprocessed.path + '/' + f + '.prep'
            m = fs.find(p).mtime
            fs.put(p, OLD_PREP)
            fs.find(p).mtime = m
        for kind, path in (('parsed', ds.parsed.path), ('prep', ds.preprocessed.path)):
            s = states[A.choice(kind, len(states))]
            mark = os.path.join(os.path.dirname(path), '.%s.lastmodif' % os.path.basename(path))
            A.check(fs.exists(mark), 'marker')
            if s == 'touched':
                s = 'outdated' if _touch(fs, path, 'm_' + kind, span, which) else 'ready'
            elif s == 'unmarked':
                # given up: nothing was finished
                for f in files:
                    fs.remove(path + '/' + f + '.' + kind)
                fs.remove(mark)
                s = 'missing'
            elif s == 'emptied':
                for f in files:
                    fs.remove(path + '/' + f + '.' + kind)
                for n in nodes(fs.find(path)):
                    n.mtime = NOW + span
                s = 'outdated'
            elif s == 'removed':
                fs.rmtree(path)
                s = 'missing'
            state[kind] = s
        vp = _vocab_path(ds, first)
        state['vocab'] = 'missing'
        if fs.exists(vp):
            if A.flag('novocab'):
                fs.rmtree(os.path.dirname(vp))
            else:
                fs.put(vp, OLD_VOCAB)
                state['vocab'] = 'ready'
    else:
        state = dict(parsed='missing', prep='missing', vocab='missing')
    A.observe(sorted(state.items()))
    texts.lexed(NEW)
    before = fs.tree('/')
    ds2 = _flow(then, out)
    if ds is not None:
        A.check(A.conj(ds2.parsed.path == ds.parsed.path, ds2.preprocessed.path == ds.preprocessed.path), 'names')
    vp = _vocab_path(ds2, then)
    skip = then == 'vocab' and state['vocab'] == 'ready'
    if skip:
        # nothing had to be done
        A.check_eq(fs.text(vp), OLD_VOCAB, 'a vocabulary that is there is calculated again')
        for kind, path in (('parsed', ds.parsed.path), ('prep', ds.preprocessed.path)):
            for f in files:
                p = path + '/' + f + '.' + kind
                if fs.exists(p) and kind == 'prep':
                    A.check(fs.text(p) == OLD_PREP, 'preprocessed again although there is a vocabulary')
        return
    ran = [k for k in ('parsed', 'prep') if state[k] != 'ready']
    _parsed_is(fs, ds2, files, NEW if 'parsed' in ran else OLD)
    for f in files:
        got = fs.text(ds2.preprocessed.path + '/' + f + '.prep')
        A.check(got is not None, 'no preprocessed file')
        if 'prep' in ran:
            A.check_eq(got, _prep(fs, NEW if 'parsed' in ran else OLD), 'preprocessed data is made of the parsed data')
        else:
            A.check_eq(got, OLD_PREP, 'preprocessed again although up to date')
    for p in (ds2.parsed.path, ds2.preprocessed.path):
        A.check(ready(p), 'not marked as ready')
        A.check(A.neg(outdated(p)), 'marked as outdated')
    # outdated results are set aside
    for k, path, suf in (('parsed', ds2.parsed.path, '.parsed'), ('prep', ds2.preprocessed.path, '.prep')):
        dirs = [q for q in fs.tree(fs.home) if os.path.basename(path) + '.' in q and q.endswith(suf)]
        if state[k] == 'outdated' and ds is not None:
            olds = [q for q in before if q.startswith(path.lstrip('/') + '/') or q.startswith(path + '/')]
            n = len([q for q in olds if q.endswith(suf)])
            A.check(len(dirs) == n, 'outdated results are set aside')
            if k == 'prep':
                for q in dirs:
                    A.check_eq(fs.text(fs.home + '/' + q), OLD_PREP, 'contents of results that were set aside')
        else:
            A.check(not dirs, 'results that are not outdated are set aside')
    if _want(then, ds2) == 'vocab':
        A.check(fs.exists(vp), 'no vocabulary')
        v = A.bind('codeprep.pipeline.vocab', '_load_vocab_dict')(vp)
        if state['vocab'] == 'ready':
            A.check(v == {'kept': 7}, 'a vocabulary that is there is calculated again')
        else:
            exp = {}
            for w in (OLD_PREP if 'prep' not in ran else _prep(fs, NEW if 'parsed' in ran else OLD)).split():
                exp[w] = exp.get(w, 0) + len(files)
            A.check(v == exp, 'the vocabulary is calculated from the preprocessed data')
    # asked again, nothing runs
    if again:
        texts.lexed([(Token.Name, 'third')])
        fs.now += 3
        snap = [(p, fs.text('/' + p.lstrip('/'))) for p in fs.tree('/') if not p.endswith('.parsed')]
        ds3 = _flow(then, out)
        A.check(ds3.parsed.path == ds2.parsed.path, 'names')
        _parsed_is(fs, ds3, files, NEW if 'parsed' in ran else OLD)
        A.check([(p, fs.text('/' + p.lstrip('/'))) for p in fs.tree('/') if not p.endswith('.parsed')] == snap, 'something was made again')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    STATES = ['ready', 'touched', 'unmarked', 'removed', 'emptied']
    TWO = ['a.java', 'sub/b.py']
    for a, b in [(None, 'prep'), (None, 'vocab'), (None, 'base'), ('prep', 'prep'), ('prep', 'vocab'), ('vocab', 'vocab'), ('vocab', 'prep'), ('base', 'base')]:
        add('%s-%s' % (a or 'nothing', b), stages, 'results in any state, any modification time of one of them within 6 s', first=a, then=b,
            files=TWO if not q or a == 'prep' == b or a is None else ['a.java'], states=STATES)
        if not q and a is not None:
            add('all-%s-%s' % (a, b), stages, 'any modification times within 4 s', first=a, then=b, files=['a.java'], states=['ready', 'touched'], which='all', span=4)
    add('out', stages, 'results in another directory', first='prep', then='vocab', files=['a.java'], states=STATES, out='/results')
    MANY = ['%s%d.java' % (['', 'sub/', 'sub/x/'][i % 3], i) for i in range(12)]
    add('many-prep-vocab', stages, '12 files', first='prep', then='vocab', files=MANY, states=['ready', 'removed', 'emptied', 'unmarked'])
    add('many-touched', stages, '12 files, any modification time of one of the results within %d s' % (2 if q else 6), first='prep', then='prep', files=MANY, states=['ready', 'touched'], span=2 if q else 6)
    add('empty', stages, 'no files', first='prep', then='prep', files=[], states=STATES)
    return out
