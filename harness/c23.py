"""C23: new merge lists get fresh ids and ids lead back to their own data."""
from sx import api as A
from harness import vfs, texts

ASSUMPTIONS = ['names of data sets do not start or end with white space and contain no line breaks, "/" and no lone surrogates; extensions '
               'contain no "_-_"', 'ids in use are those stored by codeprep, trained or not']
PATHC = [(33, 46), (48, 127), (0xA1, 0x167F), (0x3001, 0xD7FF), (0xE000, 0xFEFE), (0xFF00, 0x10FFFF)]


def config(u, we, base='code'):
    BC, BP = A.bind('codeprep.bpepkg.bpe_config', 'BpeConfig', 'BpeParam')
    return BC({BP.CASE: 'yes', BP.WORD_END: we, BP.BASE: base, BP.UNICODE: ['yes', 'no', 'bytes'][u]})


def options(full):
    u = A.choice('unicode', 3) if full else 0
    we = A.flag('word end') if full else False
    return config(u, we), '_'.join([s for s in ('we' if we else '', ['', 'nounicode', 'bytes'][u]) if s])


def assigned(nlen, dom, shapes, full, trained='all', edom=None):
    """ids in use: symbolic strings, and the base of the new id followed by symbolic strings"""
    bd = A.bind('codeprep.config').USER_BPE_DIR
    fs = vfs.fresh()
    fs.makedirs(bd)
    name = texts.sym('name', nlen, dom)
    c, suf = options(full)
    base = name + ('_' + suf if suf else '')
    used = []
    for i, (pre, n) in enumerate(shapes):
        x = texts.sym('id%d' % i, n, edom or dom) if n else ''
        if pre:
            x = base + x
        A.assume(A.conj(*[A.neg(o == x) for o in used]))
        used.append(x)
        d = '%s/d%d' % (bd, i)
        fs.put(d + '/.name', x)
        if trained == 'all' or (trained == 'some' and A.flag('trained%d' % i)):
            fs.makedirs(d + '/%d' % (3 + i))
    fs.makedirs(bd + '/noname')
    new = A.bind('codeprep.pipeline.bperegistry', 'create_new_id_from')('/data/' + name, c)
    A.observe(new)
    for x in used:
        A.check(new != x, 'the new id is in use')
    # a written id is read back
    w, r = A.bind('codeprep.pipeline.bperegistry', 'write_bpe_codes_id', 'get_codes_id_by_bpe_path')
    d = bd + '/new'
    fs.makedirs(d)
    A.check(r(d) is None, 'an id before it is written')
    w(d, new)
    A.check_eq(r(d), new, 'the id read back')
    # and is in use from now on, also before it is trained
    again = A.bind('codeprep.pipeline.bperegistry', 'create_new_id_from')('/other/' + name, c)
    A.check(A.conj(again != new, *[again != x for x in used]), 'the next id is in use')


def back(nlen, dom, exts, sub=None, other=None):
    """from the id to the directories of the data set"""
    DS = A.bind('codeprep.pipeline.dataset', 'Dataset')
    reg = A.bind('codeprep.pipeline.bperegistry')
    vl = A.bind('codeprep.pipeline.vocabloader')
    fs = vfs.fresh(now=1600000000)
    names = []
    name = texts.sym('name', nlen, dom)
    A.assume(A.conj(name != '.', name != '..'))
    if sub is not None:
        i = A.choice('pos', nlen + 1)
        name = name[:i] + sub + name[i:]
    path = '/data/' + name
    fs.put(path + '/a.java', 'x')
    oname = texts.sym('other', other, dom) if other else 'zz'
    A.assume(A.conj(oname != '.', oname != '..', oname != name))
    fs.put('/data/' + oname + '/a.java', 'x')
    c, suf = options(True)
    ext = None
    if exts:
        ext = '|'.join([texts.sym('ext%d' % i, n, 'a_-|we.') for i, n in enumerate(exts)])
        A.assume('_-_' not in '_' + ext.replace('|', '_') + '_')
    other = DS.create('/data/' + oname, c.to_prep_config(), ext, None, c)
    other.assign_bpe_codes_id(c, None)
    fs.put(other.path_to_nonbpe_vocab_file, 'other\n')
    ds = DS.create(path, c.to_prep_config(), ext, None, c)
    pre = None if A.flag('automatic') else 'myid'
    ds.assign_bpe_codes_id(c, pre)
    i = ds.bpe_codes_id
    A.observe(i)
    A.check_eq(reg.get_dataset_bpe_dir(i), ds.bpe_path, 'directory of the merges')
    A.check_eq(reg.get_base_vocab_dir(i), ds.base_bpe_vocab_path, 'directory of the vocabulary')
    fs.put(ds.path_to_nonbpe_vocab_file, 'mine\n')
    fs.put(ds.path_to_bpe_vocab_file, 'mine\t3\nyours\t4\n')
    A.check(vl.nonbpe(i) == {'mine'}, 'words that are not split')
    A.check(vl.all(i) == {'mine': 3, 'yours': 4}, 'base vocabulary')
    A.check(vl.base(i) == {'yours': 4}, 'words that are split')
    A.check(vl.nonbpe(other.bpe_codes_id) == {'other'}, 'another list')


def suffix():
    """options in the directory name"""
    BC, BP = A.bind('codeprep.bpepkg.bpe_config', 'BpeConfig', 'BpeParam')
    base = A.pick('base', ['all', 'code', 'java'])
    u = A.choice('unicode', 3)
    we = A.flag('word end')
    c = config(u, we, base)
    v = A.choice('another unicode', 3), A.flag('another word end')
    A.check((config(v[0], v[1], base).to_suffix() == c.to_suffix()) == (v == (u, we)), 'directory names tell options apart')
    r = BC.from_suffix(c.to_suffix())
    A.observe(c.to_suffix())
    for p in (BP.CASE, BP.WORD_END, BP.UNICODE):
        A.check(r.get_param_value(p) == c.get_param_value(p), 'option read from the directory name')
    A.check(r.to_suffix() == c.to_suffix(), 'directory name')
    A.check(r.to_prep_config() == c.to_prep_config(), 'preparation')
    PP = A.bind('codeprep.prepconfig', 'PrepParam')
    A.check(c.to_prep_config().get_param_value(PP.EN_ONLY) == ('U' if u == 1 else 'u'), 'preparation')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    add('new-none', assigned, 'no ids in use, names of 1 character of all of Unicode', nlen=1, dom=PATHC, shapes=[], full=True)
    add('new-1', assigned, 'one id in use, names of 2 characters', nlen=2, dom='a.+', shapes=[(False, 2)], full=True)
    add('new-suffix', assigned, 'ids in use: the name and the name with 2 more characters', nlen=1, dom='a+$', shapes=[(True, 0), (True, 2)], full=False,
        edom='_19x')
    add('new-any', assigned, 'names of 1 character of all of Unicode, ids in use: the name and any string of 3 characters', nlen=1, dom=PATHC,
        shapes=[(True, 0), (False, 3)], full=False, edom='_109a+\xe9')
    add('new-regex', assigned, 'ids in use: the name and strings of 4 characters', nlen=2, dom='a.(|)*', shapes=[(True, 0), (False, 4)], full=False,
        edom='a._1')
    add('new-numbers', assigned, 'ids in use: the name and the name with 2 and 3 more characters', nlen=1, dom='a.', shapes=[(True, 0), (True, 2), (True, 3)],
        full=False, edom='_109')
    add('new-many', assigned, 'twelve or more ids in use', nlen=1, dom='a.', shapes=[(True, 0)] + [(True, '_%d' % i) for i in range(1, 12)] + [(True, 3)],
        full=False, edom='_12')
    add('new-hundred', assigned, 'a hundred ids in use', nlen=1, dom='a', shapes=[(True, 0)] + [(True, '_%d' % i) for i in range(1, 104)] + [(True, 4)],
        full=False, edom='_01')
    add('new-long', assigned, 'a long name', nlen=('x_' * 70, 1, '-y' * 40), dom='a._', shapes=[(True, 0), (True, 2)], full=True, edom='_12')
    add('back-long', back, 'a long name, eleven extensions', nlen=('x_' * 40, 1, '-y' * 10), dom='a._', exts=['py', 'java', 'c', 'h', 'cc', 'js', 'go', 'rs', 'kt', 1, 1])
    add('new-options', assigned, 'ids in use: the name with all options and the name with 2 more characters', nlen=1, dom='a.', shapes=[(True, 0), (True, 2)],
        full=True, edom='_1')
    add('new-untrained', assigned, 'ids in use that are not trained', nlen=1, dom='a.', shapes=[(True, 0), (True, 2)], full=False, edom='_1', trained='some')
    add('new-untrained-1', assigned, 'one id in use that may be trained or not', nlen=2, dom='a.', shapes=[(False, 2)], full=True, trained='some')
    add('suffix', suffix, 'all options')
    add('back-1', back, 'names of 1 character of all of Unicode', nlen=1, dom=PATHC, exts=None)
    add('back-3', back, 'names of 3 characters over "_-w"', nlen=3, dom='_-w', exts=None)
    add('back-sub', back, 'names of 1 character over "a_-" and "_-_we" at any place', nlen=1, dom='a_-', exts=None, sub='_-_we')
    add('back-sub2', back, 'names of 1 character over "a_-" and "_-_bytes" at any place', nlen=1, dom='a_', exts=None, sub='_-_bytes')
    add('back-two', back, 'two data sets with names of 1 character of all of Unicode', nlen=1, dom=PATHC, exts=None, other=1)
    add('back-two-2', back, 'two data sets with names of 2 characters over "aA_-"', nlen=2, dom='aA_-', exts=None, other=2)
    add('back-two-longer', back, 'two data sets, the name of one consists of 2 characters and that of the other of 4', nlen=2, dom='a_1', exts=None, other=4)
    add('back-ext', back, 'names of 1 character, extensions of 2 characters', nlen=1, dom='a_-', exts=[2])
    add('back-ext2', back, 'names of 1 character, two extensions of 1 and 2 characters', nlen=1, dom='a', exts=[1, 2])
    if not q:
        add('new-any-4', assigned, 'ids in use: the name and any string of 4 characters', nlen=2, dom=PATHC, shapes=[(True, 0), (False, 4)], full=False, edom='_109a+\xe9')
        add('new-numbers-3', assigned, 'many ids', nlen=1, dom='a.', shapes=[(True, 0), (True, 2), (True, 2), (True, 3)], full=False, edom='_1',
            trained='some')
        add('back-5', back, 'names of 5 characters over "_-w"', nlen=5, dom='_-w', exts=None)
        add('back-sub3', back, 'names of 2 characters and "_-_we_nounicode" at any place', nlen=2, dom='a_-', exts=None, sub='_-_we_nounicode')
        add('back-ext3', back, 'names of 2 characters, extensions of 3 characters', nlen=2, dom='a_-', exts=[3])
    return out
