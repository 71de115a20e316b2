"""C25: changed data is noticed, unchanged data is reused."""
import os

from sx import api as A
from harness import vfs

ASSUMPTIONS = ['time stamps are whole seconds; local time has no repeated hours within the range; creating, removing or renaming an entry sets '
               'the modification time of its directory, writing sets the one of the file',
               'a change happens at a time later than every time stamp in the directory']
BASE = 1600000000
ROOT = '/data/proj'


def times(fs, n, span):
    """any modification times"""
    out = []
    for e in n.entries:
        if e[1].kind == 'd':
            out += times(fs, e[1], span)
        if e[1].kind != 'l':
            e[1].mtime = BASE + A.integer('t', 0, span)
            out.append(e[1])
    return out


def build(fs, shape, root=ROOT, first=None):
    fs.makedirs(root)
    i = 0
    for s in shape:
        i += 1
        if s == 'd':
            fs.makedirs(root + '/%s%d' % (A.string('c', 1, first) if first else 'd', i))
        elif s == 'l':
            fs.link(root + '/l%d' % i, '/data/outside/x')
        elif s == 'ld':
            fs.link(root + '/l%d' % i, '/data/outside')
        elif s == 'f':
            fs.put(root + '/%s%d.a' % (A.string('c', 1, first) if first else 'f', i), 'x')
        else:
            build(fs, s, root + '/%s%d' % (A.string('c', 1, first) if first else 'd', i), first)


def tree(shape, span, first=None):
    fs = vfs.fresh(now=BASE - 10)
    fs.put('/data/outside/x', 'x')
    build(fs, shape, ROOT, first)
    r = fs.find(ROOT)
    nodes = times(fs, r, span)
    r.mtime = BASE + A.integer('t', 0, span)
    return fs, nodes + [r]


def latest(nodes):
    return max([n.mtime for n in nodes])


def entries(n):
    return sum([1 + entries(e[1]) for e in n.entries])


def stamp(shape, span, first=None):
    """the time stamp is the latest modification time"""
    fs, nodes = tree(shape, span, first)
    f, g = A.bind('codeprep.dirutils', 'get_dir_last_modification', 'get_timestamp')
    m = latest(nodes)
    A.observe(m)
    A.check(f(ROOT).timestamp() == m, 'latest modification time')
    k = entries(fs.find(ROOT))
    A.check(f(ROOT, k).timestamp() == m, 'latest modification time with as many entries as the limit')
    # the printed time stamp tells whole seconds apart
    o = fs.put('/data/other', 'x')
    o.mtime = BASE + A.integer('t', 0, span)
    A.check(A.iff(g('/data/other') == g(ROOT), o.mtime == m), 'time stamps tell seconds apart')


def linked(shape, span):
    """symbolic links to files do not count, whatever they lead to"""
    fs, nodes = tree(shape, span)
    f, g = A.bind('codeprep.dirutils', 'get_dir_last_modification', 'get_timestamp')
    ready, outdated, mark = A.bind('codeprep.pipeline.dataset', 'is_path_ready', 'is_path_outdated', 'set_path_ready')
    x = fs.find('/data/outside/x')
    x.mtime = BASE + A.integer('x', 0, 2 * span)
    m = latest(nodes)
    A.check(f(ROOT).timestamp() == m, 'latest modification time')
    was = g(ROOT)
    fs.now = BASE + 2 * span
    mark(ROOT)
    x.mtime = fs.now + A.integer('later', 1, span)
    A.check(g(ROOT) == was, 'time stamp')
    A.check(A.conj(ready(ROOT), A.neg(outdated(ROOT))), 'outdated although nothing in it changed')
    A.observe(m)


def few(shape, every):
    """a big directory: any modification time of one in every entries, any change in that one or its directory"""
    fs = vfs.fresh(now=BASE - 10)
    fs.put('/data/outside/x', 'x')
    build(fs, shape, ROOT)
    r = fs.find(ROOT)
    nodes = all_nodes(r)
    for n in nodes + [r]:
        n.mtime = BASE
    k = A.choice('which', (len(nodes) + every - 1) // every) * every
    path, n = paths(fs, ROOT)[k]
    n.mtime = BASE + A.integer('t', 0, 3)
    f, g = A.bind('codeprep.dirutils', 'get_dir_last_modification', 'get_timestamp')
    A.check(f(ROOT).timestamp() == n.mtime, 'latest modification time')
    ready, outdated, mark = A.bind('codeprep.pipeline.dataset', 'is_path_ready', 'is_path_outdated', 'set_path_ready')
    fs.now = BASE + 3
    mark(ROOT)
    A.check(A.conj(ready(ROOT), A.neg(outdated(ROOT))), 'outdated although nothing changed')
    fs.now = BASE + 5
    if n.kind == 'f' and A.flag('write'):
        with fs.open(path, 'w') as h:
            h.write('y')
    elif A.flag('remove'):
        if n.kind == 'd':
            fs.rmtree(path)
        else:
            fs.remove(path)
    else:
        fs.rename(path, path + 'x')
    A.observe(path)
    A.check(outdated(ROOT), 'the change is not noticed')


def all_nodes(n):
    out = []
    for e in n.entries:
        out.append(e[1])
        if e[1].kind == 'd':
            out += all_nodes(e[1])
    return out


def paths(fs, path):
    out = []
    for e in fs.find(path).entries:
        out.append((path + '/' + e[0], e[1]))
        if e[1].kind == 'd':
            out += paths(fs, path + '/' + e[0])
    return out


def _dirs(fs, path=ROOT):
    out = [path]
    for e in fs.find(path).entries:
        if e[1].kind == 'd':
            out += _dirs(fs, path + '/' + e[0])
    return out


CHANGES = ['modify', 'add', 'mkdir', 'remove', 'rename', 'move', 'link', 'unlink']


def change(fs, what, old=20):
    """any single change of this kind at fs.now; -> was there anything to change?"""
    ds = _dirs(fs)
    if what in ('add', 'mkdir', 'link'):
        d = ds[A.choice('dir', len(ds))]
        if what == 'add':
            # an added file may carry an older time stamp
            f = fs.put(d + '/new', 'x')
            if A.flag('old'):
                f.mtime = BASE + A.integer('t', 0, old)
                A.assume(f.mtime <= fs.now)
        elif what == 'link':
            fs.link(d + '/new', '/data/outside/x')
        else:
            fs.mkdir(d + '/new')
        fs.find(d).mtime = fs.now
        return True
    if what == 'move':
        if len(ds) < 2:
            return False
        fs.rename(ds[-1], '/data/moved')
        return True
    es = [(d, e) for d in ds for e in fs.find(d).entries if what not in ('modify', 'unlink') or e[1].kind == ('f' if what == 'modify' else 'l')]
    if not es:
        return False
    d, e = es[A.choice('entry', len(es))]
    p = d + '/' + e[0]
    if what == 'modify':
        with fs.open(p, 'w') as f:
            f.write('y')
    elif what == 'rename':
        fs.rename(p, d + '/renamed')
    elif e[1].kind == 'd':
        fs.rmtree(p)
    else:
        fs.remove(p)
    return True


def changed(shape, span, whats, rounds=1, first=None):
    fs, nodes = tree(shape, span, first)
    ready, outdated, mark = A.bind('codeprep.pipeline.dataset', 'is_path_ready', 'is_path_outdated', 'set_path_ready')
    A.check(not ready(ROOT), 'ready before it was marked')
    A.check(A.raises(FileNotFoundError, outdated, ROOT), 'not marked but up to date')
    fs.now = latest(nodes)
    for k in range(rounds):
        mark(ROOT)
        A.check(ready(ROOT), 'marked as ready')
        A.check(A.neg(outdated(ROOT)), 'outdated although nothing changed')
        # other directories do not matter
        fs.now = fs.now + A.integer('dt', 1, span)
        fs.put('/data/sibling', 'y')
        fs.find('/data').mtime = fs.now
        A.check(A.conj(ready(ROOT), A.neg(outdated(ROOT))), 'outdated although nothing in it changed')
        if not change(fs, whats[A.choice('what', len(whats))]):
            A.observe('nothing to do')
            return
        A.observe(k)
        A.check(ready(ROOT), 'still marked')
        A.check(outdated(ROOT), 'the change is not noticed')
        fs.now = fs.now + A.integer('dt', 1, span)
        A.check(outdated(ROOT), 'the change is not noticed later')


def later(what):
    """changes after whole minutes, hours, days"""
    ready, outdated, mark = A.bind('codeprep.pipeline.dataset', 'is_path_ready', 'is_path_outdated', 'set_path_ready')
    fs, nodes = tree(['f', ['f']], 0)
    fs.now = BASE
    mark(ROOT)
    A.check(A.neg(outdated(ROOT)), 'outdated although nothing changed')
    step = A.pick('unit', [1, 60, 3600, 43200, 86400, 604800, 86400 * 28, 86400 * 30, 86400 * 365])
    fs.now = BASE + step * A.integer('times', 1, 4)
    change(fs, what)
    A.check(outdated(ROOT), 'the change is not noticed')
    A.observe(step)


def removed(span):
    """nothing is ready once it is gone"""
    fs, nodes = tree(['f', ['f']], span)
    ready, outdated, mark = A.bind('codeprep.pipeline.dataset', 'is_path_ready', 'is_path_outdated', 'set_path_ready')
    fs.now = latest(nodes)
    mark(ROOT)
    fs.now = fs.now + 1
    fs.rename(ROOT, '/data/elsewhere')
    A.check(not ready(ROOT), 'ready without being there')
    # another directory next to it
    fs.makedirs('/data/proj2')
    A.check(not ready('/data/proj2'), 'marker of another directory')
    mark('/data/proj2')
    A.check(ready('/data/proj2'), 'marked as ready')
    A.check(not ready(ROOT), 'ready without being there')
    A.observe(1)


def archived(span):
    fs, nodes = tree(['f', ['f']], 0)
    ready, outdated, mark, archive = A.bind('codeprep.pipeline.dataset', 'is_path_ready', 'is_path_outdated', 'set_path_ready', 'archive_path')
    fs.now = latest(nodes)
    mark(ROOT)
    was = fs.tree(ROOT)
    for k in range(2):
        fs.now = fs.now + A.integer('dt', 1, span)
        change(fs, 'add', span)
        A.check(outdated(ROOT), 'the change is not noticed')
        now = fs.tree(ROOT)
        archive(ROOT)
        A.check(not fs.exists(ROOT), 'set aside')
        A.check(not ready(ROOT), 'ready after it was set aside')
        fs.now = fs.now + A.integer('dt', 1, span)
        build(fs, ['f', ['f']])
        A.check(not ready(ROOT), 'ready before it is complete')
        mark(ROOT)
        A.check(A.conj(ready(ROOT), A.neg(outdated(ROOT))), 'up to date after it was made again')
        # what was set aside is complete
        kept = [p for p in fs.tree(os.path.join(fs.home)) if p.endswith('/new')]
        A.check(len(kept) == k + 1, 'old results are kept')
    A.observe(len(kept))


def dataset(shape, span, whats):
    """results of a changed data set get new names"""
    from harness import c24
    fs, nodes = tree(shape, span)
    fs.now = BASE + span
    ds = c24.dataset(ROOT, 'a')
    files = [f for f in ds.get_all_files()]
    again = c24.dataset(ROOT, 'a')
    A.check(ds.parsed.path == again.parsed.path, 'unchanged data is parsed again')
    A.check(ds.preprocessed.path == again.preprocessed.path, 'unchanged data is preprocessed again')
    A.check(ds.bpe_path == again.bpe_path, 'merges of unchanged data')
    A.check(not again.files_need_to_be_saved(), 'unchanged data is scanned again')
    A.check_eq([f for f in again.get_all_files()], files, 'files')
    fs.now = latest(nodes) + A.integer('dt', 1, span)
    if not change(fs, whats[A.choice('what', len(whats))]):
        A.observe('nothing to do')
        return
    new = c24.dataset(ROOT, 'a')
    A.check(new.parsed.path != ds.parsed.path, 'parsed data of changed data is reused')
    A.check(new.preprocessed.path != ds.preprocessed.path, 'results of changed data are reused')
    A.check(new.bpe_path != ds.bpe_path, 'merges of changed data are reused')
    A.check(new.files_need_to_be_saved(), 'changed data is not scanned')
    got = [f for f in new.get_all_files()]
    want = sorted([p for p in fs.tree(ROOT) if p.endswith('.a')])
    A.check(sorted([os.path.normpath(f.decode()) for f in got]) == want, 'files of the changed data')
    A.observe(len(got))


def jobs(tier):
    q = tier == 'quick'
    out = []
    span = 100 if q else 5000
    cs = 12 if q else 200

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    TREES = [('file', ['f']), ('flat', ['f', 'f', 'd']), ('deep', [['f', 'd']] if q else [['f', ['f']], 'f']), ('empty', []), ('link', ['l']), ('links', ['f', 'l', 'ld'])]
    if not q:
        TREES += [('wide', ['f', 'f', 'f', ['f', 'f']]), ('chain', [[[['f']]]])]
    for n, t in TREES:
        add('stamp-' + n, stamp, 'any modification times within %d s' % span, shape=t, span=span)
    for n, t in [('root', ['l']), ('mixed', ['f', 'l', ['l']])]:
        add('linked-' + n, linked, 'symbolic links to a file modified at any time within %d s' % (2 * span), shape=t, span=span)
    add('stamp-days', stamp, 'any modification times within 2 days', shape=[], span=172800)
    WIDE = ['f'] * 40 + [['f', 'd', [['f']] * 3]] * 4
    DEEP = 'f'
    for i in range(14):
        DEEP = [DEEP, 'd']
    for n, t, e in [('many', WIDE, 9), ('chain', DEEP, 3)]:
        add('few-' + n, few, '%s entries; any modification times within 3 s of two of them and any change' % ('about 90' if n == 'many' else '14 levels of'),
            shape=t, every=e)
    for n, t in TREES:
        add('change-' + n, changed, 'any modification times within %d s, any single change later' % cs, shape=t, span=cs, whats=CHANGES)
    add('twice', changed, 'two changes', shape=['f', 'd'] if q else ['f', ['f']], span=5 if q else 20, whats=['modify', 'remove', 'add'], rounds=2)
    for n, t in [('flat', ['f', 'd', 'd']), ('deep', [['d', 'f'], 'd'])]:
        add('stamp-names-' + n, stamp, 'any modification times within %d s, names that start with any of ". _#~aA"' % span, shape=t, span=span, first='._#~aA')
    add('change-names', changed, 'any change of entries with names that start with any of "._~a"', shape=['d', ['f'], 'f'], span=3, whats=CHANGES, first='._~a')
    for w in ['modify', 'add']:
        add('later-' + w, later, 'changes after 1-4 seconds, minutes, hours, half days, days, weeks, months of 28 and 30 days, years', what=w)
    add('removed', removed, 'marked and moved away', span=span)
    add('archived', archived, 'set aside twice', span=1 if q else 3)
    for n, t in [('flat', ['f', 'f']), ('deep', [['f'], 'f'])]:
        add('dataset-' + n, dataset, 'data sets before and after any change', shape=t, span=8 if q else 20, whats=CHANGES)
    return out
