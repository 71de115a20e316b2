"""C20: vocabulary calculation survives being interrupted."""
from sx import api as A
from harness import vfs, c19

ASSUMPTIONS = c19.ASSUMPTIONS + ['when the calculation is killed all its processes die; what was written to files that are not closed yet is lost or '
                                 'partly on disk; files do not change between the runs']


def survive(sizes, dom, ncpu=2, chunks=1, groups=0, kills=1, hi=80, lo=1, free=False, switches=0, system='Linux', stages=False, coarse=False):
    fs = vfs.fresh(ncpu=ncpu, free=free, max_switches=switches, system=system)
    c19.shape(chunks, groups)
    paths, toks = c19._files(fs, sizes, dom, 'ab')
    out = fs.home + '/out'
    fs.makedirs(out)
    calc = A.bind('codeprep.pipeline.vocab', 'calc_vocab')
    fs.restart()
    died = 0
    for i in range(kills):
        fs.crash_at = A.integer('crash%d' % i, lo, hi) if not coarse else lo + 7 * A.choice('crash%d' % i, (hi - lo) // 7 + 1)
        try:
            calc(fs.home + '/prep', iter(paths), out)
        except A.CrashPoint:
            died += 1
        else:
            A.check(coarse or fs.nops < hi, 'the bound on the number of operations is too small')
        fs.restart()
        fs.pid += 100
        fs.sched = vfs.Sched(fs, free and i + 1 < kills, switches)
    complete = fs.exists(out + '/vocab')
    if stages and complete:
        # the vocabulary of the dataset is there: it is not calculated again
        pass
    else:
        calc(fs.home + '/prep', iter(paths), out)
    v = c19._lines(fs, out + '/vocab')
    A.observe(sorted([c for w, c in v]), died)
    c19.compare(v, toks)
    st = fs.text(out + '/vocabsize')
    A.check(st is not None, 'no statistics')
    A.check(st.split('\n')[0] == str(len(v)) and st[-1] == '\n', 'vocabulary size')


def never_partial(sizes, dom, hi=80, ncpu=2, chunks=1):
    """a vocabulary under its final name is complete"""
    survive(sizes, dom, hi=hi, ncpu=ncpu, chunks=chunks, stages=True)


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, sizes, bounds, **k):
        k.setdefault('dom', None)
        out.append((name, f, dict(sizes=sizes, **k), dict(bounds='files with %s tokens; killed before any of the operations that change the file '
                                                          'system; %s' % (sizes, bounds))))
    add('one', survive, [1], 'one file')
    add('two', survive, [1, 2], 'two files in one chunk')
    add('three', survive, [1, 1, 1], 'three files in two chunks', chunks=2)
    add('three-1', survive, [1, 1, 1], 'three files in one chunk', chunks=1)
    add('groups', survive, [2, 1, 1], 'two groups', groups=2, chunks=2)
    add('darwin', survive, [1, 1], 'OSX', system='Darwin')
    add('final-2', never_partial, [1, 2], 'the vocabulary file is used if it exists')
    add('final-3', never_partial, [1, 1, 1], 'the vocabulary file is used if it exists', chunks=2)
    add('data', survive, [1, 1], 'symbolic tokens over "ab"', dom='ab')
    add('twice', survive, [1, 1], 'killed twice', kills=2)
    add('sched', survive, [1, 1], 'two processes, schedules with one switch', free=True, switches=1)
    add('many', survive, [1] * 13, '13 files in 12 chunks', chunks=12, groups=11, lo=1 if not q else 20, hi=120 if not q else 75, coarse=q)
    if not q:
        add('four', survive, [1, 1, 1, 1], 'four files in two chunks', chunks=2, hi=120)
        add('five', survive, [1, 1, 2, 1, 1], 'five files in three chunks', chunks=3, hi=150)
        add('twice-3', survive, [1, 1, 1], 'killed twice', kills=2, chunks=2)
        add('thrice', survive, [1, 1], 'killed three times', kills=3)
        add('sched-3-1', survive, [1, 1, 1], 'two processes, schedules with one switch', free=True, switches=1)
        add('sched-3', survive, [1, 1, 1], 'two processes, schedules with two switches', free=True, switches=2, chunks=2)
        add('data-3', survive, [1, 1, 1], 'symbolic tokens over "abc"', dom='abc', chunks=2)
    return out
